"""C28: random and seed-derived scalars."""
import hashlib
import os
import random
from fractions import Fraction

_real = os.urandom
_source = [None]


def _urandom(n):
    return _real(n) if _source[0] is None else _source[0](n)


os.urandom = _urandom
random._urandom = _urandom

from nbc.util.ecdsa import ellipticcurve as E, ecdsa as D, curves as K, keys, util as U   # noqa
from ..ref import ec, curves as refcurves   # noqa

LEVEL = 'model_checking'
BOUNDS = dict(quick='complete entropy trees: orders 2..256 to 1 byte (every 16th order to 2 bytes), orders 257..264, 300, 4096, 65535 and 65536 to 2 bytes; key generation and signing on toy curves; up to 4000 rejected candidates before a value; seed methods: orders of every bit length 2..530 (3 per length) x 12 seeds; wallets and key parts made from distinct entropy are distinct',
              thorough='orders 2..256 to 2 bytes, 257..700 to 2 bytes; seed methods x 60 seeds')
ASSUMPTIONS = ['truncating seed methods may refuse (assert) a seed whose truncated hash exceeds the order, as their documentation says',
               'exact values of seed methods are compared with a reference of the documented construction, except for orders whose binary logarithm is not representable (only reproducibility and range there)']


class Need(BaseException):
    """The source ran out of scripted bytes; n more are wanted."""

    def __init__(self, n):
        self.n = n


class Outside(BaseException):
    pass


def deny(n):
    raise Outside('entropy taken from the system although a source was given')


def draw(order, script, f=None):
    """Runs the draw with the scripted entropy calls; returns (value, calls)."""
    it = iter(script)
    calls = []

    def src(n):
        try:
            b = next(it)
        except StopIteration:
            raise Need(n)
        if len(b) != n:
            raise Need(n)
        calls.append(n)
        return b
    v = (f or U.randrange)(order, src)
    return v, calls


def tree(ctx, order, limit, f=None, what='randrange'):
    """Every outcome of at most `limit` bytes of entropy; returns {value: probability mass}."""
    mass = {}
    todo = [()]
    left = Fraction(0)
    while todo:
        script = todo.pop()
        used = sum(len(b) for b in script)
        ctx.trans()
        try:
            v, calls = draw(order, script, f)
        except Need as e:
            if used + e.n > limit:
                left += Fraction(1, 256 ** used)
                continue
            for x in range(256 ** e.n):
                todo.append(script + (x.to_bytes(e.n, 'big'),))
            continue
        except Outside as e:
            ctx.fail((what, order, script), str(e))
        if len(calls) != len(script):
            ctx.fail((what, order, script), 'result does not depend on the last entropy asked for')
        if not isinstance(v, int) or not 1 <= v < order:
            ctx.fail((what, order, script), 'value %r out of range' % (v,))
        mass[v] = mass.get(v, 0) + Fraction(1, 256 ** used)
        ctx.distinct()
        ctx.trace()
    want = (1 - left) / (order - 1)
    for v in range(1, order):
        if mass.get(v, 0) != want:
            ctx.fail((what, order, v), 'value %d has probability %s within %d bytes, uniform is %s' % (v, mass.get(v, 0), limit, want))
    ctx.outcome('uniform')
    return mass


def u_tree(ctx, orders, limit):
    _source[0] = deny
    for order in orders:
        ctx.current = (order, limit)
        tree(ctx, order, limit)
        # the same through the system source
        if limit == 1:
            def via(o, src):
                _source[0] = src
                try:
                    return U.randrange(o)
                finally:
                    _source[0] = deny
            if order % 8 == 0:
                tree(ctx, order, limit, via, 'randrange from the system')
    ctx.sample(dict(orders=orders[:3], bytes=limit))


def u_stuck(ctx):
    _source[0] = deny
    for order, fill in [(200, b'\xff'), (256, b'\xff'), (257, b'\xff'), (3, b'\x7f'), (65535, b'\xff')] + [(d['n'], b'\xff') for d in refcurves.CURVES.values()]:
        n = [0]

        def src(k):
            n[0] += 1
            if n[0] > 2000000:
                raise Outside('no end')
            return fill * k
        ctx.current = order
        try:
            v = U.randrange(order, src)
        except Outside:
            ctx.fail(order, 'a stuck entropy source makes the draw run forever')
        except Exception:
            ctx.outcome('error after a stuck source')
        else:
            ctx.fail(order, 'a stuck entropy source (only rejected candidates) gave %r' % (v,))
        ctx.state(('stuck', order))
        ctx.trans(n[0])
        ctx.trace()
    # a value is still found after a long run of rejected candidates (512 are expected for the worst orders)
    for order in (3, 129, 257, 65537, 200):
        l = (order.bit_length() + 7) // 8
        bad = b'\xff' * l
        for k in (1, 3, 99, 100, 101, 255, 256, 257, 600, 1000, 2000, 4000):
            ctx.current = (order, k)
            try:
                got, _ = draw(order, [bad] * k + [b'\0' * l])
                one, _ = draw(order, [b'\0' * l])
            except Need:
                continue
            except Exception as e:
                ctx.fail((order, k), '%s after %d rejected candidates' % (type(e).__name__, k))
            ctx.eq(got, one, (order, k), 'value after %d rejected candidates' % k)
            ctx.state(('rejected', order, k))
            ctx.trans(k)


def u_std(ctx, name):
    _source[0] = deny
    n = refcurves.CURVES[name]['n']
    l = (n.bit_length() + 7) // 8
    vals = {}
    rejected = []
    for x in sorted({0, 1, 2, 255, 256, n - 3, n - 2, n - 1, n, n + 1, n // 2, (1 << (8 * l)) - 1, 1 << (8 * l - 8), (1 << (8 * l - 8)) - 1} | {1 << k for k in range(0, 8 * l, 5)}):
        if x >= 1 << (8 * l):
            continue
        b = x.to_bytes(l, 'big')
        ctx.current = (name, hex(x))
        ctx.trans()
        ctx.trace()
        ctx.state((name, x))
        try:
            v, _ = draw(n, [b])
        except Need as e:
            rejected.append(b)
            continue
        ctx.ok(isinstance(v, int) and 1 <= v < n, (name, b), 'value out of range')
        ctx.ok(v not in vals, (name, b), 'two entropy outcomes collapse')
        vals[v] = b
    ctx.ok(len(vals) > 5, name, 'the draw does not take %d bytes per candidate' % l)
    good = sorted(vals.items())
    for i, rb in enumerate(rejected):
        for v, b in good[::5]:
            for k in (1, 2, 5):
                got, _ = draw(n, [rb] * k + [b])
                ctx.eq(got, v, (name, rb, b, k), 'value after %d rejected candidates' % k)
                ctx.trans()
                ctx.trace()


def u_wallets(ctx):
    """Keys of wallets and random parts of split keys: every entropy tried gives another one."""
    from .. import entropy, fast
    from nbc import wallet as W
    from nbc.util import piecewise as PW
    from ..ref import wal
    fast.on()
    n = wal.N
    vals = [0, 1, n - 2, n - 3] + [1 << k for k in range(256)] + [(1 << k) - 1 for k in range(2, 256)] + [n - 2 - (1 << k) for k in range(255)] + [n // 3, n // 2]
    for what, f in (('compressed', lambda: W.Address.generate(vcn=1).privKey), ('uncompressed', lambda: W.Address.generate(vcn=1, compressed=False).privKey),
                    ('testnet', lambda: W.Address.generate(vcn=1, testnet=True).privKey), ('part', lambda: PW.split_private_key(wal.wif(5, False), 2)[0])):
        seen = {}
        for i, v in enumerate(vals):
            if v in vals[:i] or v > n - 2:
                continue
            ctx.current = case = dict(made=what, entropy=hex(v))
            entropy.script(v.to_bytes(32, 'big'), tag='c28 %s %d' % (what, i))
            _source[0] = entropy.source[0]
            k = f()
            _source[0] = None
            entropy.free()
            d = wal.unwif(k)
            ctx.ok(d is not None and 0 < d[0] < n, case, 'key out of range')
            ctx.ok(d[0] not in seen, case, 'the same key as from %s' % seen.get(d[0]))
            seen[d[0]] = hex(v)
            ctx.trans()
            ctx.trace()
            ctx.state((what, v))


def u_toy(ctx, p):
    """Key generation and nonces come from the given source only, uniformly."""
    _source[0] = deny
    a, b, n, pts = ec.prime_curves(p)[0]
    c = ec.C(p, a, b)
    G = pts[0]
    ic = E.CurveFp(p, a, b)
    curve = K.Curve('toy', ic, E.Point(ic, G[0], G[1], n), (1, 2, 3))
    ctx.current = (p, a, b)
    tree(ctx, n, 1, lambda o, src: keys.SigningKey.generate(curve, src).privkey.secret_multiplier, 'key generation')
    sk = keys.SigningKey.from_secret_exponent(2, curve)
    hits = {}
    for x in range(256):
        try:
            it = iter([bytes([x])])

            def src(k):
                try:
                    return next(it) if k == 1 else deny(k)
                except StopIteration:
                    raise Need(k)
            r, s = sk.sign_number(5, src)
        except Need:
            continue
        except RuntimeError:
            continue
        ks = [k for k in range(1, n) if ec.sign(c, G, n, 2, 5, k) == (r, s)]
        ctx.ok(len(ks) >= 1, (p, x), 'signature with an impossible nonce')
        hits[(r, s)] = hits.get((r, s), 0) + 1
        ctx.trans()
        ctx.trace()
        ctx.state((p, x))
    want = {}
    for k in range(1, n):
        rs = ec.sign(c, G, n, 2, 5, k)
        if rs:
            want[rs] = want.get(rs, 0) + 1
    ctx.eq({k: v for k, v in hits.items()}, want, p, 'distribution of signatures over all entropy outcomes')


# ---------------------------------------------------------------- seeds

def prng(seed, n):
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.sha256(('prng-%d-%s' % (i, seed)).encode()).digest()
        i += 1
    return out[:n]


def ref_overshoot(seed, order):
    l = (order.bit_length() + 7) // 8
    return int.from_bytes(prng(seed, 2 * l), 'big') % (order - 1) + 1


def ref_again(seed, order):
    bits = (order - 1).bit_length()
    nbytes, extra = bits // 8, bits % 8
    off = 0
    size = nbytes + (1 if extra else 0)
    chunk = b''
    while True:
        if len(chunk) < off + size:
            chunk = prng(seed, off + size * 50)
        b = chunk[off:off + size]
        off += size
        if extra:
            b = bytes([b[0] & ((1 << extra) - 1)]) + b[1:]
        v = int.from_bytes(b, 'big') + 1
        if v < order:
            return v


def ref_bytes(seed, order):
    bits = (order - 1).bit_length()
    n = (bits + 7) // 8
    v = int.from_bytes(hashlib.sha256(seed).digest()[:n], 'big') + 1
    return v if v < order else None


def ref_bits(seed, order):
    bits = (order - 1).bit_length()
    n = (bits + 7) // 8
    b = hashlib.sha256(seed).digest()[:n]
    v = int.from_bytes(b, 'big')
    if n <= 32:
        v &= (1 << bits) - 1
    v += 1
    return v if v < order else None


TEXT = ['', 'a', 'b', 'aa', 'seed', 'seee', 'x' * 64, 'x' * 63 + 'y', 'x' * 200 + 'y', 'x' * 201, '0', '1-a']


def exact(order):
    import math
    return int(math.log(order - 1, 2) + 1) == (order - 1).bit_length()


def u_seed(ctx, orders, nseeds):
    _source[0] = deny
    seeds = TEXT + ['more-%d' % i for i in range(nseeds - len(TEXT))]
    for order in orders:
        pin = exact(order)
        for what, f, ref, conv in (('overshoot', U.randrange_from_seed__overshoot_modulo, ref_overshoot, str),
                                   ('trytryagain', U.randrange_from_seed__trytryagain, ref_again, str),
                                   ('truncate_bytes', U.randrange_from_seed__truncate_bytes, ref_bytes, str.encode),
                                   ('truncate_bits', U.randrange_from_seed__truncate_bits, ref_bits, str.encode)):
            got = []
            for s in seeds:
                ctx.current = case = (what, hex(order), s)
                try:
                    v = f(conv(s), order)
                except AssertionError:
                    v = None
                try:
                    v2 = f(conv(s), order)
                except AssertionError:
                    v2 = None
                ctx.eq(v2, v, case, 'second derivation from the same seed')
                if v is None:
                    ctx.ok(what.startswith('truncate'), case, 'seed refused')
                else:
                    ctx.ok(isinstance(v, int) and 1 <= v < order, case, 'value %r out of range' % (v,))
                    got.append(v)
                if pin or what == 'overshoot':
                    w = ref(conv(s), order)
                    if v != w:
                        ctx.fail(case, 'derived %r, the documented construction gives %r' % (v, w))
                ctx.trans(2)
                ctx.trace()
                ctx.state(case)
                ctx.outcome('%s %s' % (what, 'refused' if v is None else 'value'))
            if order.bit_length() > 100:
                ctx.ok(len(set(got)) == len(got), (what, hex(order)), 'different seeds give the same value')
    ctx.sample(dict(orders=[hex(o) for o in orders[:3]], seeds=seeds[:3]))


def units(tier):
    th = tier == 'thorough'
    for lo in range(2, 257, 32):
        yield 'trees %d.. 1 byte' % lo, u_tree, (list(range(lo, min(lo + 32, 257))), 1)
    two = list(range(2, 257, 1 if th else 16)) + [255, 256]
    for i in range(0, len(two), 2):
        yield 'trees %d.. 2 bytes' % two[i], u_tree, (two[i:i + 2], 2)
    big = list(range(257, 701)) if th else list(range(257, 265)) + [300]
    for o in big + [4096, 65535, 65536]:
        yield 'tree %d 2 bytes' % o, u_tree, ([o], 2)
    yield 'stuck', u_stuck, ()
    for name in refcurves.CURVES:
        yield 'std %s' % name, u_std, (name,)
    yield 'wallets', u_wallets, ()
    for p in (7, 11, 13, 17, 101):
        yield 'toy %d' % p, u_toy, (p,)
    orders = []
    for k in range(2, 531):
        orders += sorted({(1 << k) - 1, (1 << k) + 1, (1 << (k - 1)) + (1 << (k - 1)) // 3 + 1})
    orders = [o for o in orders if o > 2] + [d['n'] for d in refcurves.CURVES.values()]
    for i in range(0, len(orders), 100):
        yield 'seeds %d' % i, u_seed, (orders[i:i + 100], 60 if th else 12)
