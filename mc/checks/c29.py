"""C29: hashes, merkle roots, targets, headers, version numbers."""
import copy
import fractions
import hashlib
import itertools

from nbc import util as U, coins
from nbc.protocol import format as F, messages as M
from .. import msgs as G
from ..ref import wire as R

LEVEL = 'exploration'
RULE = 'every listed field value of transactions and headers, alone and in pairs of values; every leaf count; every exponent x listed mantissas; distinct by input'
BOUNDS = dict(quick='transactions and headers: every boundary value of every field (script lengths and counts around 0xfd and 0x10000), all orders of hash, serialise, print; merkle roots of 1..200 leaves and selected sizes to 10001, all patterns of 2 leaf values up to 8 leaves; targets: 256 exponents x 40 mantissas; proof of work around each target; version numbers: all components at boundaries, all values 0..200000 both ways',
              thorough='merkle roots of 1..1500 leaves and selected sizes to 10001, patterns up to 11; targets: 256 x 4000 mantissas; version numbers 0..5000000')
ASSUMPTIONS = ['the sign bit of a target is ignored; targets beyond 256 bits, and the merkle root of no transaction, are not claimed', 'difficulty is compared within 1e-9 relative (a float)']


class Tx(object):
    def __init__(self, h):
        self.hash = h


def hashed(ctx, t, cls, cut, part, parts):
    vals = G.values(t, True)
    for j, v in enumerate(vals):
        if j % parts != part:
            continue
        ctx.current = case = dict(cls=cls.__name__, value=v)
        data = R.encode(t, v)
        want = R.dsha(data[:cut])
        o = G.build(t, v)
        before = R.canon(t, o)
        ops = dict(h=lambda o: ctx.eq(o.hash, want, case, 'hash'), b=lambda o: ctx.eq(o.binary(), data, case, 'serialisation'), s=lambda o: ctx.ok(isinstance(str(o), str), case, 'text'))
        orders = itertools.permutations('hbs') if j < 40 else ['hbs']
        for order in orders:
            for o in (G.build(t, v), G.build(t, v, tuple), cls.parse(data)[1], cls.parse(data + b'xyz')[1]):
                for x in tuple(order) + tuple(order):
                    ops[x](o)
                    ctx.eval()
                ctx.eq(R.canon(t, o), before, case, 'fields afterwards')
        ctx.state((cls.__name__, data))
        ctx.sample(dict(cls=cls.__name__, data=data[:120], hash=want))
        ctx.outcome('hash %s' % cls.__name__)
    # long ones
    big = (100000, 150001, 1050000, 4100000) if cls.__name__ != 'BlockHeader' and part == 0 else ()
    for n in big:
        v = dict(vals[0], **{[f for f, _ in t[1] if f == 'tx_in'][0]: [dict(previous_output=dict(hash=bytes(32), index=k), signature_script=bytes([k]) * (n // 4), sequence=k) for k in range(4)]})
        for flip in (-1, -30000, -70000, 60):
            data = bytearray(R.encode(t, v))
            ctx.current = case = dict(cls=cls.__name__, length=len(data), end=flip)
            a = G.build(t, v)
            ctx.eq(a.hash, R.dsha(bytes(data)), case, 'hash')
            data[flip] ^= 1
            p = cls.parse(bytes(data))
            ctx.eq((p[0], p[1].hash), (len(data), R.dsha(bytes(data))), case, 'hash of a parsed one')
            ctx.eval()
        ctx.state((cls.__name__, n))
    # a list given to the constructor is not shared
    v = vals[1]
    ctx.current = case = dict(cls=cls.__name__, mutated=True)
    kw = {n: G.build(f, v[n]) for n, f in t[1]}
    o = cls(**kw)
    h = o.hash
    for x in kw.values():
        if isinstance(x, list):
            x.append(x[0])
    ctx.eq(o.binary(), R.encode(t, v), case, 'serialisation after the list was changed')
    ctx.eq(o.hash, h, case, 'hash after the list was changed')
    # two objects do not share a hash
    a, b = (G.build(t, x) for x in vals[:2])
    ctx.eq((a.hash, b.hash, a.hash), tuple(R.dsha(R.encode(t, x)[:cut]) for x in (vals[0], vals[1], vals[0])), case, 'hashes of two objects')


def published(ctx):
    c = coins.Newbitcoin
    ctx.current = case = dict(vector='genesis header')
    h = F.BlockHeader(c.genesis_version, bytes(32), c.genesis_merkle_root, c.genesis_timestamp, c.genesis_bits, c.genesis_nonce, 1)
    ctx.eq(h.hash, c.genesis_block_hash, case, 'hash')
    ctx.eq(U.bin_to_hex(h.hash), '000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f', case, 'text')
    ctx.eq(U.get_block_header(1, bytes(32), c.genesis_merkle_root, c.genesis_timestamp, c.genesis_bits, c.genesis_nonce), h.binary()[:80], case, 'header')

    class Pow(object):
        proof_of_work = staticmethod(U.sha256d)
    ctx.ok(U.verify_target(Pow, h), case, 'proof of work accepted')
    bad = F.BlockHeader(c.genesis_version, bytes(32), c.genesis_merkle_root, c.genesis_timestamp, c.genesis_bits, c.genesis_nonce + 1, 1)
    ctx.ok(not U.verify_target(Pow, bad), case, 'other nonce refused')
    ctx.current = case = dict(vector='genesis transaction')
    script = bytes.fromhex('04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73')
    pk = bytes.fromhex('4104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac')
    t = F.Txn(1, [F.TxnIn(F.OutPoint(bytes(32), 0xffffffff), script, 0xffffffff)], [F.TxnOut(5000000000, pk)], 0)
    ctx.eq(t.hash, c.genesis_merkle_root, case, 'hash')
    ctx.eq(U.get_merkle_root([t]), c.genesis_merkle_root, case, 'root of one')
    # block 100000
    ctx.current = case = dict(vector='block 100000')
    leaves = ['8c14f0db3df150123e6f3dbbf30f8b955a8249b62ac1d1ff16284aefa3d06d87', 'fff2525b8931402dd09222c50775608f75787bd2b87e56995a7bdd30f79702c4',
              '6359f0868171b1d194cbee1af2f16ea598ae8fad666d9b012c8ed2b79a236ec4', 'e9a66845e05d5abc0ad04ec80f774a7e585c6e8db975962d069a522137b80c1d']
    ctx.eq(U.bin_to_hex(U.get_merkle_root([Tx(U.hex_to_bin(x)) for x in leaves])), 'f3e94742aca4b5ef85488dc37c06c3282295ffec960994b2c0d5ac2a25a95766', case, 'root')
    ctx.eq(abs(U.get_difficulty(0x1b0404cb) - 16307.420938523983) < 1e-6, True, case, 'difficulty')
    ctx.distinct(4)


def merkle(ctx, part, parts):
    def one(hs, case):
        ctx.current = case
        want = R.merkle(hs)
        txs = [Tx(h) for h in hs]
        same = {}
        for given in (list(txs), tuple(txs), [same.setdefault(h, Tx(h)) for h in hs]):     # one object in several places, too
            keep = list(given)
            for _ in range(2):
                ctx.eq(U.get_merkle_root(given), want, case, 'root')
            ctx.ok(len(given) == len(keep) and all(a is b for a, b in zip(given, keep)) and [t.hash for t in given] == list(hs), case, 'list unchanged')
            ctx.eval()
        ctx.state(b''.join(hs))
        ctx.outcome('odd' if len(hs) % 2 else 'even')
    for i, n in enumerate(itertools.chain(range(1, 1500 if ctx.thorough else 201), () if ctx.thorough else (255, 256, 257, 499, 511, 513, 999, 1000, 1001, 1023, 1025), (2047, 2048, 2049, 2500, 3001, 4095, 4097, 5001, 10001))):
        if i % parts == part:
            one([R.dsha(b'%d' % j) for j in range(n)], dict(leaves=n))
    two = (bytes(32), b'\x5a' * 32)
    for n in range(1, 12 if ctx.thorough else 9):
        for k, pat in enumerate(itertools.product(two, repeat=n)):
            if k % parts == part:
                one(pat, dict(pattern=[p[0] for p in pat]))
    # real transactions, the objects stay as they were
    vals = G.values(R.TX, False)
    for n in range(1, 8):
        case = dict(transactions=n)
        ctx.current = case
        txs = [F.Txn(k, G.build(R.TX[1][1][1], vals[0]['tx_in']), G.build(R.TX[1][2][1], vals[0]['tx_out']), n) for k in range(n)]
        data = [t.binary() for t in txs]
        ctx.eq(U.get_merkle_root(txs), R.merkle([R.dsha(d) for d in data]), case, 'root')
        ctx.eq([t.binary() for t in txs], data, case, 'transactions unchanged')
        parsed = M.Message.parse(M.Block(1, bytes(32), bytes(32), 2, 3, 4, txs).binary(b'abcd'), b'abcd')
        ctx.eq(U.get_merkle_root(parsed.txns), R.merkle([R.dsha(d) for d in data]), case, 'root of a parsed block')


def targets(ctx, part, parts):
    mants = {0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x123456, 0x7fffff, 0x7ffffe, 0x400000, 0x00ffff, 0x0404cb} | {1 << k for k in range(23)} | {(1 << k) - 1 for k in range(23)}
    if ctx.thorough:
        mants |= set(range(0, 1 << 23, 2099))

    class Pow(object):
        value = None

        @classmethod
        def proof_of_work(cls, header):
            cls.header = header
            return cls.value
    for e in range(256):
        if e % parts != part:
            continue
        for m in sorted(mants):
            bits = e << 24 | m
            ctx.current = case = dict(bits=bits)
            t = m << 8 * (e - 3) if e >= 3 else m >> 8 * (3 - e)
            if t < 1 << 256:
                ctx.eq(U.get_target(bits), t.to_bytes(32, 'big'), case, 'target')
                ctx.state(bits)
                ctx.eval()
                ctx.outcome('target')
                for d in (-1, 0, 1) if m in (0, 1, 0x7fffff, 0x10000, 0xffff) or e < 4 else (0, 1):
                    if not 0 <= t + d < 1 << 256:
                        continue
                    h = F.BlockHeader(1, bytes(32), b'\1' * 32, 7, bits, 9, 3)
                    Pow.value = (t + d).to_bytes(32, 'little')
                    ctx.eq(bool(U.verify_target(Pow, h)), d <= 0, dict(bits=bits, offset=d), 'proof of work at the target')
                    ctx.eq(Pow.header, R.encode(R.HEAD, h)[:80], case, 'hashed header')
                    ctx.eval()
            if m:
                exact = fractions.Fraction(0xffff << 208) / (fractions.Fraction(m) * fractions.Fraction(256) ** (e - 3))
                if fractions.Fraction(10) ** -300 < exact < fractions.Fraction(10) ** 300:
                    try:
                        got = U.get_difficulty(bits)
                    except OverflowError:
                        ctx.ok(e > 120, case, 'difficulty overflow')
                        continue
                    ctx.ok(abs(fractions.Fraction(got) / exact - 1) < fractions.Fraction(1, 10 ** 9), dict(bits=bits, got=got), 'difficulty')
                    ctx.eq(U.get_difficulty(bits | 0x800000), got, dict(bits=bits | 0x800000), 'difficulty, sign bit set')
            if t < 1 << 256:
                ctx.eq(U.get_target(bits | 0x800000), t.to_bytes(32, 'big'), dict(bits=bits | 0x800000), 'target, sign bit set')


def helpers(ctx, part, parts):
    # header bytes
    if part == 0:
        vals = [v for v in G.values(R.HEAD, True)]
        for v in vals:
            args = [v[n] for n in ('version', 'prev_block', 'merkle_root', 'timestamp', 'bits', 'nonce')]
            ctx.current = case = dict(header=args)
            ctx.eq(U.get_block_header(*args), R.encode(R.struct(*R.HEADFIELDS), v), case, 'header bytes')
            ctx.eq(F.BlockHeader(*(args + [0])).binary()[:80], U.get_block_header(*args), case, 'agrees with the object')
            ctx.state(('h',) + tuple(args))
            ctx.eval()
        TOP = [(2, 3, 4, 5)] + [tuple(x if i == j else 7 for i in range(4)) for j in range(4) for x in (0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe)]
        for n, (ver, stamp, bits, nonce) in itertools.product((0, 1, 2, 0xfc, 0xfd), TOP):
            class Blk(object):
                pass
            b = Blk()
            b.__dict__.update(version=ver, previous_hash=b'\1' * 32, merkle_root=b'\2' * 32, timestamp=stamp, bits=bits, nonce=nonce, transactions=[G.build(R.TX, G.values(R.TX, False)[0])] * n)
            ctx.current = case = dict(from_block=n, fields=(ver, stamp, bits, nonce))
            want = dict(version=ver, prev_block=b'\1' * 32, merkle_root=b'\2' * 32, timestamp=stamp, bits=bits, nonce=nonce)
            ctx.eq(F.BlockHeader.from_block(b).binary(), R.encode(R.HEAD, dict(want, txn_count=n)), case, 'header')
            ctx.eq(M.Block.from_block(b).binary(b'abcd')[24:], R.encode(R.MESSAGES['block'][1], dict(want, txns=[G.values(R.TX, False)[0]] * n)), case, 'block')
        for n in range(0, 3):
            for b in itertools.product(range(256), repeat=n):
                if n == 2 and b[0] not in (0, 1, 0x0f, 0x10, 0x7f, 0x80, 0xab, 0xff):
                    continue
                b = bytes(b)
                ctx.current = case = dict(data=b)
                ctx.eq(U.bin_to_hex(b), b[::-1].hex(), case, 'hex')
                ctx.eq(U.hex_to_bin(b[::-1].hex()), b, case, 'from hex')
                ctx.eq(U.hex_to_bin(b[::-1].hex().encode()), b, case, 'from hex bytes')
                ctx.state(('x', b))
                ctx.eval()
        x = bytes(range(32))
        ctx.eq(U.hex_to_bin(U.bin_to_hex(x)), x, case, 'both ways')
    # version numbers
    top = 5000000 if ctx.thorough else 200000
    for v in range(part, top, parts):
        ctx.current = v
        got = U.get_version(v)
        if tuple(got) != (v // 1000000, v // 10000 % 100, v // 100 % 100, v % 100) or U.make_version(*got) != v:
            ctx.fail(dict(version=v, got=got), 'version number')
    ctx.distinct((top - part + parts - 1) // parts)
    ctx.eval((top - part + parts - 1) // parts)
    if part == 0:
        edge = (0, 1, 9, 10, 50, 98, 99)
        for a in (0, 1, 7, 99, 100, 2147):
            for b, c, d in itertools.product(edge, repeat=3):
                ctx.current = case = dict(version=(a, b, c, d))
                v = U.make_version(a, b, c, d)
                ctx.eq(v, a * 10 ** 6 + b * 10 ** 4 + c * 100 + d, case, 'number')
                ctx.eq(tuple(U.get_version(v)), (a, b, c, d), case, 'components')
                ctx.state((a, b, c, d))
                ctx.eval()
        for pos in range(3):
            for x in (-1, 100, 101, 1000, -100):
                c = [5, 5, 5]
                c[pos] = x
                ctx.raises(lambda: U.make_version(1, *c), dict(version=c), 'component out of range', ValueError)


def units(tier):
    for p in range(4):
        yield 'tx %d' % p, hashed, (R.TX, F.Txn, None, p, 4)
        yield 'merkle %d' % p, merkle, (p, 4)
        yield 'target %d' % p, targets, (p, 4)
        yield 'helpers %d' % p, helpers, (p, 4)
    yield 'header', hashed, (R.HEAD, F.BlockHeader, 80, 0, 1)
    yield 'published', published, ()
