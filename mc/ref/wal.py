"""Addresses, WIF, extended keys and BIP32 derivation, from their published descriptions (and the repository's
documented address hash: two RIPEMD-160 over the halves of SHA-512, then SHA-256)."""
import hashlib
import hmac

from . import base58, ec

c, G, N = ec.std('SECP256k1')
P = c.p


def b32(i):
    return i.to_bytes(32, 'big')


_pub = {}


def pub(d):
    r = _pub.get(d)
    if r is None:
        r = _pub[d] = c.mul(d, G)
        if len(_pub) > 20000:
            _pub.clear()
    return r


def full(Q):
    return b'\x04' + b32(Q[0]) + b32(Q[1])


def comp(Q):
    return bytes([2 + (Q[1] & 1)]) + b32(Q[0])


def parse_pub(data):
    """The point, or None when the encoding is not a standard one of a point on the curve."""
    if len(data) == 65 and data[0] == 4:
        x, y = int.from_bytes(data[1:33], 'big'), int.from_bytes(data[33:], 'big')
        return (x, y) if c.on(x, y) else None
    if len(data) == 33 and data[0] in (2, 3):
        x = int.from_bytes(data[1:], 'big')
        if x >= P:
            return None
        y = ec.sqrt_p3(x ** 3 + c.a * x + c.b, P)
        if y is None:
            return None
        if y & 1 != data[0] & 1:
            y = -y % P
        return (x, y) if c.on(x, y) and y & 1 == data[0] & 1 else None
    return None


def wif(d, compressed):
    return base58.encode_check(b'\x80' + b32(d) + (b'\x01' if compressed else b''))


def unwif(text):
    """(d, compressed), or None when malformed."""
    raw = base58.decode_check(text)
    if raw is None or len(raw) not in (33, 34) or raw[0] != 0x80 or (len(raw) == 34 and raw[33] != 1):
        return None
    return int.from_bytes(raw[1:33], 'big'), len(raw) == 34


def pubhash(key):
    h = hashlib.sha512(key).digest()
    r = lambda x: hashlib.new('ripemd160', x).digest()
    return hashlib.sha256(r(h[:32]) + r(h[32:])).digest()


def address(key, vcn, testnet):
    return base58.encode_check((b'\x6f' if testnet else b'\x00') + ('%04x' % vcn).encode() + pubhash(key))


def hash160(x):
    return hashlib.new('ripemd160', hashlib.sha256(x).digest()).digest()


class Node(object):
    """A BIP32 node. d is None for a public-only one."""

    def __init__(self, d, Q, chain, testnet, depth=0, fp=b'\0\0\0\0', num=0):
        self.d, self.Q, self.chain, self.testnet, self.depth, self.fp, self.num = d, Q, chain, testnet, depth, fp, num

    def neuter(self):
        return Node(None, self.Q, self.chain, self.testnet, self.depth, self.fp, self.num)

    def ident(self):
        return hash160(comp(self.Q))[:4]

    def child(self, i, mac=None):
        """None where BIP32 gives no child."""
        if not 0 <= i < 1 << 32 or self.depth >= 255 or (i >> 31 and self.d is None):
            return None
        data = (b'\0' + b32(self.d) if i >> 31 else comp(self.Q)) + i.to_bytes(4, 'big')
        I = (mac or mac512)(self.chain, data)
        t = int.from_bytes(I[:32], 'big')
        if t >= N:
            return None
        if self.d is not None:
            d = (t + self.d) % N
            if d == 0:
                return None
            Q = pub(d)
        else:
            d = None
            Q = c.add(pub(t) if t else None, self.Q)
            if Q is None:
                return None
        return Node(d, Q, I[32:], self.testnet, self.depth + 1, self.ident(), i)

    def ext(self, prv):
        v = (0x04358394 if prv else 0x043587CF) if self.testnet else (0x0488ADE4 if prv else 0x0488B21E)
        key = b'\0' + b32(self.d) if prv else comp(self.Q)
        return base58.encode_check(v.to_bytes(4, 'big') + bytes([self.depth]) + self.fp + self.num.to_bytes(4, 'big') + self.chain + key)

    def key(self):
        return (self.d, self.Q, self.chain, self.testnet, self.depth, self.fp, self.num)


def mac512(key, data):
    return hmac.new(key, data, hashlib.sha512).digest()


def master(seed, testnet=False):
    I = mac512(b'Bitcoin seed', seed)
    d = int.from_bytes(I[:32], 'big')
    if not 0 < d < N:
        return None
    return Node(d, pub(d), I[32:], testnet)


VECTORS = [('000102030405060708090a0b0c0d0e0f', [
    (None, 'xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8',
     'xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi'),
    (0x80000000, 'xpub68Gmy5EdvgibQVfPdqkBBCHxA5htiqg55crXYuXoQRKfDBFA1WEjWgP6LHhwBZeNK1VTsfTFUHCdrfp1bgwQ9xv5ski8PX9rL2dZXvgGDnw',
     'xprv9uHRZZhk6KAJC1avXpDAp4MDc3sQKNxDiPvvkX8Br5ngLNv1TxvUxt4cV1rGL5hj6KCesnDYUhd7oWgT11eZG7XnxHrnYeSvkzY7d2bhkJ7'),
    (1, 'xpub6ASuArnXKPbfEwhqN6e3mwBcDTgzisQN1wXN9BJcM47sSikHjJf3UFHKkNAWbWMiGj7Wf5uMash7SyYq527Hqck2AxYysAA7xmALppuCkwQ',
     'xprv9wTYmMFdV23N2TdNG573QoEsfRrWKQgWeibmLntzniatZvR9BmLnvSxqu53Kw1UmYPxLgboyZQaXwTCg8MSY3H2EU4pWcQDnRnrVA1xe8fs'),
])]


def selftest():
    for seed, path in VECTORS:
        n = master(bytes.fromhex(seed))
        for i, xpub, xprv in path:
            if i is not None:
                a, b = n.child(i), n.neuter().child(i) if i < 1 << 31 else None
                assert b is None or b.key()[1:] == a.key()[1:]
                n = a
            assert n.ext(False).decode() == xpub and n.ext(True).decode() == xprv
    assert wif(0x0C28FCA386C7A227600B2FE50B7CAE11EC86D3BF1FBE471BE89827E19D72AA1D, False) == b'5HueCGU8rMjxEXxiPuD5BDku4MkFqeZyd4dZ1jvhTVqvbTLvyTJ'
    for d in (1, 2, N - 1):
        assert parse_pub(comp(pub(d))) == pub(d) == parse_pub(full(pub(d))) and unwif(wif(d, True)) == (d, True)
    assert parse_pub(b'\x02' + b32(5)) is None
