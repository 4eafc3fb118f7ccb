"""AES (FIPS-197) and its modes (SP 800-38A), from the specifications. Bytes in, bytes out."""


def xtime(a):
    a <<= 1
    return (a ^ 0x11b) & 0xff if a & 0x100 else a


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = xtime(a)
        b >>= 1
    return r


def _sbox():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if gmul(a, b) == 1:
                inv[a] = b
                break
    out = []
    for a in range(256):
        x = inv[a]
        r = 0x63
        for i in range(5):
            r ^= ((x << i) | (x >> (8 - i))) & 0xff
        out.append(r)
    return out


S = _sbox()
SI = [S.index(i) for i in range(256)]
M = {k: [gmul(i, k) for i in range(256)] for k in (2, 3, 9, 11, 13, 14)}


def expand(key):
    nk = len(key) // 4
    nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[-1])
        if i % nk == 0:
            t = [S[b] for b in t[1:] + t[:1]]
            t[0] ^= rc
            rc = xtime(rc)
        elif nk == 8 and i % nk == 4:
            t = [S[b] for b in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


SHIFT = [(i + 4 * (i % 4)) % 16 for i in range(16)]
ISHIFT = [SHIFT.index(i) for i in range(16)]


class Cipher(object):
    def __init__(self, key):
        assert len(key) in (16, 24, 32)
        self.k = expand(key)

    def enc(self, b):
        s = [x ^ k for x, k in zip(b, self.k[0])]
        for r, k in enumerate(self.k[1:], 1):
            s = [S[s[SHIFT[i]]] for i in range(16)]
            if r < len(self.k) - 1:
                m2, m3 = M[2], M[3]
                o = []
                for c in (0, 4, 8, 12):
                    a, b_, c_, d = s[c:c + 4]
                    o += [m2[a] ^ m3[b_] ^ c_ ^ d, a ^ m2[b_] ^ m3[c_] ^ d, a ^ b_ ^ m2[c_] ^ m3[d], m3[a] ^ b_ ^ c_ ^ m2[d]]
                s = o
            s = [x ^ y for x, y in zip(s, k)]
        return bytes(s)

    def dec(self, b):
        s = [x ^ k for x, k in zip(b, self.k[-1])]
        for r in range(len(self.k) - 2, -1, -1):
            s = [SI[s[ISHIFT[i]]] for i in range(16)]
            s = [x ^ y for x, y in zip(s, self.k[r])]
            if r:
                o = []
                e, n, t, v = M[14], M[9], M[13], M[11]
                for c in (0, 4, 8, 12):
                    a, b_, c_, d = s[c:c + 4]
                    o += [e[a] ^ v[b_] ^ t[c_] ^ n[d], n[a] ^ e[b_] ^ v[c_] ^ t[d], t[a] ^ n[b_] ^ e[c_] ^ v[d], v[a] ^ t[b_] ^ n[c_] ^ e[d]]
                s = o
        return bytes(s)


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def ecb(key, m, dec=False):
    c = Cipher(key)
    return b''.join((c.dec if dec else c.enc)(m[i:i + 16]) for i in range(0, len(m), 16))


def cbc(key, iv, m, dec=False):
    c = Cipher(key)
    out = b''
    last = iv or bytes(16)
    for i in range(0, len(m), 16):
        b = m[i:i + 16]
        if dec:
            out += xor(c.dec(b), last)
            last = b
        else:
            last = c.enc(xor(b, last))
            out += last
    return out


def cfb(key, iv, m, seg, dec=False):
    """m is a multiple of seg."""
    c = Cipher(key)
    reg = iv or bytes(16)
    out = b''
    for i in range(0, len(m), seg):
        b = m[i:i + seg]
        o = xor(b, c.enc(reg))
        reg = (reg + (b if dec else o))[-16:]
        out += o
    return out


def ofb(key, iv, m):
    c = Cipher(key)
    reg = iv or bytes(16)
    out = b''
    for i in range(0, len(m), 16):
        reg = c.enc(reg)
        out += xor(m[i:i + 16], reg)
    return out


def ctr(key, start, m):
    c = Cipher(key)
    out = b''
    for i in range(0, len(m), 16):
        out += xor(m[i:i + 16], c.enc(((start + i // 16) % (1 << 128)).to_bytes(16, 'big')))
    return out


def pad(m):
    n = 16 - len(m) % 16
    return m + bytes([n]) * n


def unpad(m):
    if not m or len(m) % 16 or not 1 <= m[-1] <= 16 or m[-m[-1]:] != bytes([m[-1]]) * m[-1]:
        return None
    return m[:-m[-1]]


def selftest():
    pt = bytes.fromhex('00112233445566778899aabbccddeeff')
    for n, ct in ((16, '69c4e0d86a7b0430d8cdb78070b4c55a'), (24, 'dda97ca4864cdfe06eaf70a0ec0d7191'), (32, '8ea2b7ca516745bfeafc49904b496089')):
        c = Cipher(bytes(range(n)))
        assert c.enc(pt).hex() == ct and c.dec(bytes.fromhex(ct)) == pt
    k = bytes.fromhex('2b7e151628aed2a6abf7158809cf4f3c')
    m = bytes.fromhex('6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51')
    iv = bytes(range(16))
    assert cbc(k, iv, m).hex() == '7649abac8119b246cee98e9b12e9197d5086cb9b507219ee95db113a917678b2'
    assert cfb(k, iv, m, 16).hex() == '3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b'
    assert cfb(k, iv, m[:4], 1).hex() == '3b79424c'
    assert ofb(k, iv, m).hex() == '3b3fd92eb72dad20333449f8e83cfb4a7789508d16918f03f53c52dac54ed825'
    assert ctr(k, 0xf0f1f2f3f4f5f6f7f8f9fafbfcfdfeff, m).hex() == '874d6191b620e3261bef6864990db6ce9806f66b7970fdff8617187bb9fffdff'
    assert cbc(k, iv, cbc(k, iv, m), True) == m and cfb(k, iv, cfb(k, iv, m, 8), 8, True) == m
