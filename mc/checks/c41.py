"""C41: coin lookup and parameters, hash and conversion helpers."""
import hashlib
import itertools
import os

from nbc import coins, util as U
from nbc.util import ecc, hash as H
from nbc.util.ecdsa import ecdsa as D, util as EU, ellipticcurve as E
from ..ref import ec, wire as R

LEVEL = 'exploration'
RULE = 'every listed input; distinct by helper and input'
BOUNDS = dict(quick='hashes: every length 0..300 and powers of two to 1 MB x 3 fillings, one buffer changed between calls of every pair of functions; coin lookup: every case variant of name and symbol, every string of up to 2 characters, every one-character change, prefix and extension; conversions: every value 0..70000, all powers of two +-2 up to 2^600, every byte string of up to 2 bytes; two\'s complement: all values of 1..12 bits, boundaries up to 300 bits; points: 4000 multiples and off-curve neighbours',
              thorough='hashes: every length 0..2000; conversions 0..3000000; every string of 3 characters; all values of 1..18 bits')
ASSUMPTIONS = ['sha1 and sha256 of hashlib are trusted, RIPEMD-160 is recomputed from its definition']

# ---- RIPEMD-160, from the definition
_R1 = list(range(16)) + [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8] + [3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12] + [1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2] + [4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13]
_R2 = [5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12] + [6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2] + [15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13] + [8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14] + [12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11]
_S1 = [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8] + [7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12] + [11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5] + [11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12] + [9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]
_S2 = [8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6] + [9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11] + [9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5] + [15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8] + [8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]
_K1 = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
_K2 = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
_F = [lambda x, y, z: x ^ y ^ z, lambda x, y, z: x & y | ~x & z, lambda x, y, z: (x | ~y) ^ z, lambda x, y, z: x & z | y & ~z, lambda x, y, z: x ^ (y | ~z)]
M = 0xffffffff


def rol(x, n):
    x &= M
    return (x << n | x >> (32 - n)) & M


def ripemd(data):
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
    data = data + b'\x80' + b'\0' * ((55 - len(data)) % 64) + (8 * len(data)).to_bytes(8, 'little')
    for o in range(0, len(data), 64):
        X = [int.from_bytes(data[o + 4 * i:o + 4 * i + 4], 'little') for i in range(16)]
        a, b, c, d, e = h
        A, B, C, DD, EE = h
        for j in range(80):
            t = rol(a + _F[j // 16](b, c, d) + X[_R1[j]] + _K1[j // 16], _S1[j]) + e
            a, e, d, c, b = e, d, rol(c, 10), b, t & M
            t = rol(A + _F[4 - j // 16](B, C, DD) + X[_R2[j]] + _K2[j // 16], _S2[j]) + EE
            A, EE, DD, C, B = EE, DD, rol(C, 10), B, t & M
        h = [(h[1] + c + DD) & M, (h[2] + d + EE) & M, (h[3] + e + A) & M, (h[4] + a + B) & M, (h[0] + b + C) & M]
    return b''.join(x.to_bytes(4, 'little') for x in h)


def u_hash(ctx, part, parts):
    assert ripemd(b'').hex() == '9c1185a5c5e9fc54612808977ee8f548b2258d31' and ripemd(b'a' * 70).hex() != ripemd(b'a' * 71).hex()
    for n in list(range(2001 if ctx.thorough else 301)) + [(1 << k) + d for k in range(9, 21 if ctx.thorough else 14) for d in (-1, 0, 1)] + [1 << 20]:
        if n % parts != part:
            continue
        for fill in (bytes(i * 7 & 255 for i in range(256)), b'\0', b'\xff'):
            x = (fill * (n // len(fill) + 1))[:n]
            ctx.current = case = (n, fill[:3])
            s = hashlib.sha256(x).digest()
            for m in (U, H):
                ctx.eq(m.sha1(x), hashlib.sha1(x).digest(), case, 'sha1')
                ctx.eq(m.sha256(x), s, case, 'sha256')
                ctx.eq(m.sha256d(x), hashlib.sha256(s).digest(), case, 'sha256d')
                if n < 70000:
                    ctx.eq(m.ripemd160(x), ripemd(x), case, 'ripemd160')
                    ctx.eq(m.hash160(x), ripemd(s), case, 'hash160')
            ctx.eval(5)
            ctx.state((n, fill))
    ctx.sample(dict(length=n))


def u_mutable(ctx):
    """the same buffer object, changed between two calls: every function before and after every other, every kind of buffer"""
    fs = [(m, n) for m in (U, H) for n in ('sha1', 'sha256', 'sha256d', 'ripemd160', 'hash160')]
    want = dict(sha1=lambda x: hashlib.sha1(x).digest(), sha256=lambda x: hashlib.sha256(x).digest(), sha256d=lambda x: hashlib.sha256(hashlib.sha256(x).digest()).digest(),
                ripemd160=ripemd, hash160=lambda x: ripemd(hashlib.sha256(x).digest()))
    for kind in (lambda b: b, memoryview):
        for size in (1, 32, 80, 300):
            for (m1, n1), (m2, n2) in itertools.product(fs, repeat=2):
                for at in {0, size // 2, size - 1}:
                    ctx.current = case = dict(first=n1, then=n2, kind=kind.__name__, size=size, changed=at)
                    b = bytearray(size)
                    d = kind(b)
                    for step in range(3):
                        m, n = ((m1, n1), (m2, n2), (m1, n1))[step]
                        r = getattr(m, n)(d)
                        ctx.eq(r, want[n](bytes(b)), case, 'after change %d' % step)
                        b[at] += 1
                        ctx.eval()
                    ctx.state((n1, n2, m1 is U, m2 is U, kind.__name__, size, at))


def u_coin(ctx):
    N = coins.Newbitcoin
    # published parameters of the network
    ctx.eq((N.name, N.symbol, list(N.symbols), N.protocol_version, N.magic, N.port, N.rpc_port, N.addrVer), ('newbitcoin', 'NBC', ['NBC'], 70002, b'\xf9nbc', 8333, 8332, b'\0'), 'Newbitcoin', 'parameters')
    ctx.eq(coins.satoshi_per_coin, 100000000, 'Newbitcoin', 'satoshi per coin')
    ctx.eq((N.secret_key, N.script_address, N.ext_public_key.hex(), N.ext_secret_key.hex()), (b'\xef', b'\x05', '043587cf', '04358394'), 'Newbitcoin', 'prefixes')
    head = R.encode(R.HEAD, dict(version=N.genesis_version, prev_block=bytes(32), merkle_root=N.genesis_merkle_root, timestamp=N.genesis_timestamp, bits=N.genesis_bits, nonce=N.genesis_nonce, txn_count=0))[:80]
    ctx.eq(R.dsha(head), N.genesis_block_hash, 'Newbitcoin', 'hash of the genesis block')
    ctx.ok(N.genesis_block_hash[::-1] <= U.get_target(N.genesis_bits), 'Newbitcoin', 'work of the genesis block')
    ctx.ok(ec.std('SECP256k1')[0].on(*[int.from_bytes(N.alert_public_key[1 + 32 * i:33 + 32 * i], 'big') for i in (0, 1)]) and len(N.alert_public_key) == 65, 'Newbitcoin', 'alert key off the curve')
    ctx.ok(N in coins.Coins and all(isinstance(c, type) for c in coins.Coins), 'Coins', 'the list')

    def look(want, **kw):
        ctx.current = kw
        ctx.eval()
        ctx.state(repr(sorted(kw.items())))
        ctx.eq(coins.get_coin(**kw), want, kw, 'coin')
    for bits in itertools.product((0, 1), repeat=len(N.name)):
        s = ''.join(c.upper() if b else c for c, b in zip(N.name, bits))
        look(N, name=s)
        look(None, symbol=s)
        look(N, name=s, symbol=None)
        look(N, name=s, symbol='')
    for bits in itertools.product((0, 1), repeat=3):
        s = ''.join(c if b else c.lower() for c, b in zip('NBC', bits))
        look(N, symbol=s)
        look(None, name=s)
        look(N, symbol=s, name=None)
        look(N, symbol=s, name='')
    look(None)
    look(None, name='', symbol='')
    # either one suffices, whatever the other says
    for other in ('', 'x', 'BTC', 'newbitcoin', 'nbcc', ' '):
        look(N, name='newbitcoin', symbol=other)
        look(N, name='NEWBITCOIN', symbol=other)
    for other in ('', 'x', 'bitcoin', 'nbc', 'newbitcoin2', ' '):
        look(N, name=other, symbol='NBC')
        look(N, name=other, symbol='nbc')
    for other in ('x', 'bitcoin'):
        look(None, name=other, symbol='BTC')
        look(None, name=other, symbol='newbitcoin')
    ctx.eq((coins.get_coin('newbitcoin'), coins.get_coin(None, 'nbc'), coins.get_coin('NewBitcoin', 'nbc')), (N, N, N), 'by position', 'coin')
    chars = ''.join(chr(i) for i in range(32, 127)) + '\0\n\xe9'
    bad = {''.join(x) for n in range(1, 4 if ctx.thorough else 3) for x in itertools.product(chars if n < 3 else 'NBCnbc1 ', repeat=n)}
    for good in (N.name, 'NBC'):
        for i in range(len(good) + 1):
            bad |= {good[:i], good[i:], good[:i] + good[i + 1:]}
            for c in chars:
                bad |= {good[:i] + c + good[i:], good[:i] + c + good[i + 1:]}
        bad |= {good + good, good[::-1]}
    bad |= {'bitcoin', 'Bitcoin', 'BTC', 'XBT', 'new bitcoin', 'new-bitcoin', 'nb-coin'}
    for s in sorted(bad):
        if s.lower() not in ('newbitcoin',):
            look(None, name=s) if s else None
        if s.upper() != 'NBC':
            look(None, symbol=s)
    # coins as objects
    class Two(coins.coin.Coin):
        name, symbol, symbols = 'two', 'TWO', ['TWO', 'DEUX']

    coins.Coins.append(Two)
    try:
        for kw, w in ((dict(name='two'), Two), (dict(name='TWO'), Two), (dict(symbol='two'), Two), (dict(symbol='deux'), Two), (dict(symbol='DeuX'), Two), (dict(name='newbitcoin'), N), (dict(symbol='nbc'), N), (dict(name='three'), None), (dict(symbol='deu'), None)):
            look(w, **kw)
    finally:
        coins.Coins.remove(Two)
    ctx.eq((str(N()), str(Two())), ('<Newbitcoin>', '<Two>'), 'str', 'text')
    ctx.eq(hash(N()), hash(N()), 'hash', 'hash')


def u_numbers(ctx, part, parts):
    vals = list(range(3000000 if ctx.thorough else 70000)) + [(1 << k) + d for k in range(16, 601) for d in (-2, -1, 0, 1, 2)]
    for v in vals[part::parts]:
        ctx.current = v
        want = v.to_bytes((v.bit_length() + 7) // 8 or 1, 'big')
        ctx.eq(D.int_to_string(v), want, v, 'int_to_string')
        ctx.eq(D.string_to_int(want), v, v, 'string_to_int')
        ctx.eq(D.string_to_int(b'\0\0' + want), v, v, 'string_to_int with leading zeros')
        ctx.eq(EU.string_to_number(want), v, v, 'string_to_number')
        if v < 200 or v > 65000:
            ctx.eq(D.digest_integer(v), int.from_bytes(hashlib.sha1(want).digest(), 'big'), v, 'digest_integer')
        ctx.eval(4)
        ctx.state(v)
    if part == 0:
        for n in (0, 1, 2):
            for x in itertools.product(range(256), repeat=n):
                b = bytes(x)
                ctx.eq(D.string_to_int(b), int.from_bytes(b, 'big'), b, 'string_to_int')
                ctx.eval()
        for v in list(range(-3000, 3000)) + [s * 10 ** k + d for k in range(0, 40) for s in (1, -1) for d in (-1, 0, 1)] + [123456789, 21000000 * 10 ** 8]:
            t = str(abs(v))
            want = ''
            while len(t) > 3:
                want, t = ',' + t[-3:] + want, t[:-3]
            ctx.eq(U.commify(v), ('-' if v < 0 else '') + t + want, v, 'commify')
            ctx.eval()
            ctx.state(('commify', v))
        for v in itertools.chain(range(70000), ((1 << k) + d for k in range(16, 400) for d in (-1, 0, 1))):
            l = v.to_bytes((v.bit_length() + 7) // 8 or 1, 'little')
            h = l[::-1].hex()
            ctx.eq(U.bin_to_hex(l), h, v, 'bin_to_hex')
            ctx.eq(U.hex_to_bin(h), l, v, 'hex_to_bin')
            ctx.eq(U.hex_to_bin(h.upper().encode()), l, v, 'hex_to_bin')
            ctx.eval(2)


def u_twos(ctx):
    for bits in range(1, 19 if ctx.thorough else 13):
        for v in range(1 << bits):
            ctx.eq(ecc.twos_comp(v, bits), v - (1 << bits) if v >> (bits - 1) else v, (v, bits), 'two\'s complement')
            ctx.eval()
        ctx.state(('bits', bits))
    for bits in range(13, 301):
        for v in (0, 1, (1 << (bits - 1)) - 1, 1 << (bits - 1), (1 << (bits - 1)) + 1, (1 << bits) - 1):
            ctx.eq(ecc.twos_comp(v, bits), v - (1 << bits) if v >> (bits - 1) else v, (v, bits), 'two\'s complement')
            ctx.eval()
        ctx.state(('bits', bits))


def u_point(ctx):
    c, G, n = ec.std('SECP256k1')
    Q = None
    for k in range(1, 4001):
        Q = c.add(Q, G)
        case = k
        ctx.current = case
        P = ecc.point(*Q)
        ctx.eq((P.x(), P.y()), Q, case, 'point')
        ctx.ok(P == E.Point(P.curve(), Q[0], Q[1]) and P.curve().p() == c.p, case, 'curve of the point')
        if k < 300:
            for bad in ((Q[0] + 1, Q[1]), (Q[0], Q[1] + 1), (Q[1], Q[0]), (Q[0], Q[1] ^ 1 << (k % 256)), (Q[0] ^ 1 << (k % 256), Q[1])):
                if (bad[1] ** 2 - bad[0] ** 3 - 7) % c.p:
                    ctx.raises(lambda: ecc.point(*bad), (k, bad), 'a point off the curve')
                ctx.eval()
        ctx.eval()
        ctx.state(case)


def units(tier):
    for p in range(4):
        yield 'hash %d' % p, u_hash, (p, 4)
        yield 'numbers %d' % p, u_numbers, (p, 4)
    yield 'mutable', u_mutable, ()
    yield 'coins', u_coin, ()
    yield 'twos', u_twos, ()
    yield 'points', u_point, ()
