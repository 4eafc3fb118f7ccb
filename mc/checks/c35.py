"""C35: shared secrets."""
import itertools

from nbc.util import ecc
from .. import fast
from ..ref import wal, base58 as R

LEVEL = 'model_checking'
N, P = wal.N, wal.P
KEYS = [1, 2, N - 1, N - 2, 3, N // 2, N // 2 + 1, 1 << 255, 255, (1 << 128) - 1, 0x77, 0xdead << 230, 1 << 8, 7] + [(i * 0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251) % N for i in range(1, 60)]
BOUNDS = dict(quick='all ordered pairs of 20 keys x both encodings of the public key and of the private key; keys whose shared x coordinate or own coordinates begin with zero bytes or exceed the group order; every one-bit change, prefix and length of a public key, malformed private keys',
              thorough='all pairs of 60 keys')
ASSUMPTIONS = ['large-number arithmetic is replaced by the reference in most pairs (decided by C22/C27), and is the code\'s own in the rest']


def keys_with_zeros():
    """Small multiples whose x or y coordinate begins with a zero byte."""
    out, Q = [], wal.G
    for d in range(1, 4000):
        if Q[0] >> 248 == 0 or Q[1] >> 248 == 0:
            out.append(d)
        Q = wal.c.add(Q, wal.G)
    return out


def one(ctx, a, b, case, encodings=((0, 0), (0, 1), (1, 0), (1, 1))):
    ctx.current = case
    A, B = wal.pub(a), wal.pub(b)
    S = wal.c.mul(a, B)
    want = wal.b32(S[0])
    for pc, wc in encodings:
        ctx.eq(ecc.shared_secret((wal.comp if pc else wal.full)(B), wal.wif(a, bool(wc))), want, dict(case, compressed=(pc, wc)), 'secret of the first')
        ctx.eq(ecc.shared_secret((wal.comp if pc else wal.full)(A), wal.wif(b, bool(wc))), want, dict(case, compressed=(pc, wc)), 'secret of the second')
        ctx.trans(2)
    ctx.state((a, b))
    ctx.trace()


def u_pairs(ctx, aa, bb):
    fast.on()
    for a in aa:
        for b in bb:
            one(ctx, a, b, dict(keys=(hex(a), hex(b))))


def u_zeros(ctx, part):
    fast.on()
    ks = keys_with_zeros()
    ctx.ok(len(ks) > 10, 'zeros', 'no keys')
    for a in ks[part::4]:
        for b in (1, 2, 5, N - 1):
            one(ctx, a, b, dict(keys=(a, hex(b))), ((0, 0), (1, 1)))
        # 1 * A = A: the secret is the x coordinate itself, zeros included
        ctx.eq(len(ecc.shared_secret(wal.comp(wal.pub(a)), wal.wif(1, True))), 32, a, 'length of the secret')


def u_slow(ctx, part):
    """The code's own arithmetic."""
    fast.off()
    pairs = [(a, b) for a in KEYS[:8] for b in KEYS[8:11]] + [(1, 1), (N - 1, N - 1), (2, N - 2)]
    for a, b in pairs[part::8]:
        one(ctx, a, b, dict(keys=(hex(a), hex(b))), ((0, 1),))


def cube_root(v):
    """A cube root modulo P (P is 7 modulo 9), or None."""
    r = pow(v, (P + 2) // 9, P)
    return r if pow(r, 3, P) == v else None


def u_big(ctx):
    """The secret is the x coordinate as it is, also when it exceeds the order of the group."""
    fast.on()
    x, done = N, 0
    while done < 6:
        Q = wal.parse_pub(b'\2' + wal.b32(x))
        if Q is not None:
            for R_ in (Q, (Q[0], P - Q[1])):
                for enc in (wal.full, wal.comp):
                    for d, c in ((1, False), (1, True), (N - 1, False), (2, True), (N // 2, False)):
                        ctx.current = case = dict(x=hex(x), key=hex(d))
                        ctx.eq(ecc.shared_secret(enc(R_), wal.wif(d, c)), wal.b32(wal.c.mul(d, R_)[0]), case, 'secret')
                        ctx.trans()
                        ctx.state((R_, d, c))
            done += 1
        x += 1
    # and from points whose y coordinate exceeds it
    y, done = P - 1, 0
    while done < 6:
        x3 = (y * y - 7) % P
        x = next((r * pow(3, j * (P - 1) // 3, P) % P for r in [cube_root(x3)] if r for j in range(3)), None)
        if x:
            for Q in ((x, y), (x * pow(3, (P - 1) // 3, P) % P, y)):
                ctx.ok(wal.c.on(*Q), Q, 'no point')
                for enc in (wal.full, wal.comp):
                    for d, c in ((1, False), (3, True), (N - 1, False), (N // 2, True)):
                        ctx.current = case = dict(y=hex(y), key=hex(d))
                        ctx.eq(ecc.shared_secret(enc(Q), wal.wif(d, c)), wal.b32(wal.c.mul(d, Q)[0]), case, 'secret')
                        ctx.trans()
                        ctx.state((Q, d, c))
            done += 1
        y -= 1
    ctx.trace()


def u_bad(ctx, d):
    fast.on()
    w = wal.wif(5, False)
    for enc in (wal.full, wal.comp):
        good = enc(wal.pub(d))
        cases = [good[:i] for i in range(len(good))] + [good + b'\0', good + good, b'\0' + good]
        cases += [bytes([x]) + good[1:] for x in range(256) if x != good[0]]
        cases += [good[:i // 8] + bytes([good[i // 8] ^ (1 << i % 8)]) + good[i // 8 + 1:] for i in range(8, 8 * len(good))]
        cases += [good[:1] + wal.b32(P + 1) + good[33:], good[:1] + b'\xff' * 32 + good[33:], good[:1] + b'\0' * (len(good) - 1)]
        for bad in cases:
            ctx.current = bad
            Q = wal.parse_pub(bad)
            ctx.trans()
            ctx.trace()
            ctx.state(bad)
            if Q is None:
                ctx.raises(lambda: ecc.shared_secret(bad, w), bad, 'malformed public key')
                ctx.outcome('refused')
            else:
                ctx.eq(ecc.shared_secret(bad, w), wal.b32(wal.c.mul(5, Q)[0]), bad, 'secret')
                ctx.outcome('another key')
    pub = wal.full(wal.pub(d))
    good = wal.wif(5, True)
    raw = R.decode_check(good)
    for bad in [good + b'\n', b' ' + good, good + b' ', b'\t' + good + b'\r\n', (good + b'\n').decode(), ' ' + good.decode(), good + b'\0', b'', b'5', good[:-1], good + b'1', b'1' + good, R.encode_check(raw[:-1] + b'\2'), R.encode_check(b'\x81' + raw[1:]), R.encode_check(raw[:-2]), R.encode_check(raw + b'\1'), wal.wif(0, False), wal.wif(0, True), wal.wif(N, False)] + [good[:i] + (b'2' if good[i:i + 1] != b'2' else b'3') + good[i + 1:] for i in range(len(good))]:
        ctx.raises(lambda: ecc.shared_secret(pub, bad), bad, 'malformed private key')
        ctx.trans()


def units(tier):
    ks = KEYS[:60 if tier == 'thorough' else 20]
    for i in range(0, len(ks), 3):
        yield 'pairs %d' % i, u_pairs, (ks[i:i + 3], ks)
    for p in range(4):
        yield 'zeros %d' % p, u_zeros, (p,)
    yield 'beyond the order', u_big, ()
    for p in range(8):
        yield 'own arithmetic %d' % p, u_slow, (p,)
    for d in (1, 7, N - 3):
        yield 'bad %x' % d, u_bad, (d,)
