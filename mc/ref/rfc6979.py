"""RFC 6979 section 3.2, from the text."""
import hashlib
import hmac


def bits2int(b, qlen):
    v = int.from_bytes(b, 'big')
    return v >> (8 * len(b) - qlen) if 8 * len(b) > qlen else v


def nonce(q, x, hname, digest):
    """(k, number of rejected candidates)"""
    qlen = q.bit_length()
    rlen = (qlen + 7) // 8
    hlen = hashlib.new(hname).digest_size

    def mac(k, m):
        return hmac.new(k, m, hname).digest()
    seed = x.to_bytes(rlen, 'big') + (bits2int(digest, qlen) % q).to_bytes(rlen, 'big')
    V, Kk = b'\x01' * hlen, b'\x00' * hlen
    Kk = mac(Kk, V + b'\x00' + seed)
    V = mac(Kk, V)
    Kk = mac(Kk, V + b'\x01' + seed)
    V = mac(Kk, V)
    rejected = 0
    while True:
        T = b''
        while 8 * len(T) < qlen:
            V = mac(Kk, V)
            T += V
        k = bits2int(T, qlen)
        if 1 <= k < q:
            return k, rejected
        rejected += 1
        Kk = mac(Kk, V + b'\x00')
        V = mac(Kk, V)


def selftest():
    x = 0xC9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721
    q = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
    assert nonce(q, x, 'sha256', hashlib.sha256(b'sample').digest())[0] == 0xA6E3C57DD01ABE90086538398355DD4C3B17AA873382B0F24D6129493D8AAD60
    assert nonce(q, x, 'sha1', hashlib.sha1(b'sample').digest())[0] == 0x882905F1227FD620FBF2ABF21244F0BA83D0DC3A9103DBBEE43A1FB858109DB4
    q = 0x4000000000000000000020108A2E0CC0D99F8A5EF
    x = 0x09A4D6792295A7F730FC3F2B49CBC0F62E862272F
    assert nonce(q, x, 'sha256', hashlib.sha256(b'sample').digest())[0] == 0x23AF4074C90A02B3FE61D286D5C87F425E6BDD81B
