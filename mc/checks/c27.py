"""C27: number theory against the definitions."""
from math import gcd as mgcd
from nbc.util.ecdsa import numbertheory as nt

LEVEL = 'exploration'
RULE = 'all argument tuples below the bounds, each compared with a brute-force evaluation of the definition; distinct by argument tuple'
BOUNDS = dict(quick='inverse m<=500, jacobi n<=501, sqrt primes<=1500 + primes 1 mod 8 to 2300 and large primes, gcd/lcm <200, '
                    'factorisation <120000 and products around the table edge and of primes near 2^10..2^18, carmichael by definition <400, order m<200, primality <480000',
              thorough='inverse m<=1500, jacobi n<=1501, sqrt primes<=4900, gcd/lcm<600, factorisation<1600000 and products of primes to 2^22, carmichael<1200, order m<600, primality <8000000')
ASSUMPTIONS = ['is_prime is documented as probabilistic: above the exhaustive range it is checked on listed primes, strong pseudoprimes and Carmichael numbers only']


def sieve(n):
    s = bytearray([1]) * (n + 1)
    s[0:2] = b'\0\0'
    for i in range(2, int(n ** .5) + 1):
        if s[i]:
            s[i * i::i] = bytes(len(s[i * i::i]))
    return s


def u_inverse(ctx, lo, hi):
    for m in range(lo, hi):
        for a in range(-m - 1, 2 * m + 2):
            ctx.eval()
            ctx.current = ('inverse_mod', a, m)
            if mgcd(a, m) == 1:
                r = nt.inverse_mod(a, m)
                if not (0 < r < m and a * r % m == 1):
                    ctx.fail(('inverse_mod', a, m), 'inverse_mod gave %r' % r)
            else:
                ctx.raises(lambda: nt.inverse_mod(a, m), ('inverse_mod', a, m), 'inverse of a non-unit')
        ctx.distinct(3 * m + 3)


BIGP = [2 ** 255 - 19, 2 ** 192 - 2 ** 64 - 1, 2 ** 224 - 2 ** 96 + 1, 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1,
        2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, 2 ** 521 - 1, 2 ** 256 - 2 ** 32 - 977, 2 ** 127 - 1, 2 ** 61 - 1, 65537, 2 ** 31 - 1,
        0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141, 193, 12289, 40961, 786433, 998244353, 2013265921]


def u_big(ctx, p):
    vals = sorted(set(v % p for v in list(range(1, 40)) + [p - i for i in range(1, 12)] + [p // 2, p // 2 + 1, p // 3, 2 ** 128 + 1, 2 ** 64, 3 ** 100]))
    for a in vals:
        if a == 0:
            continue
        ctx.eval(4)
        ctx.distinct(4)
        ctx.current = (a, p)
        r = nt.inverse_mod(a, p)
        ctx.ok(0 < r < p and a * r % p == 1, ('inverse_mod', a, p), 'inverse_mod gave %r' % r)
        r2 = nt.inverse_mod(-a, p)
        ctx.ok(0 < r2 < p and -a * r2 % p == 1, ('inverse_mod', -a, p), 'inverse_mod gave %r' % r2)
        r3 = nt.inverse_mod(a + 2 * p, p)
        ctx.ok(0 < r3 < p and a * r3 % p == 1, ('inverse_mod', a + 2 * p, p), 'inverse_mod gave %r' % r3)
        leg = pow(a, (p - 1) // 2, p)
        leg = -1 if leg == p - 1 else leg
        ctx.eq(nt.jacobi(a, p), leg, ('jacobi', a, p), 'jacobi')
        if leg == 1:
            s = nt.square_root_mod_prime(a, p)
            ctx.ok(0 <= s < p and s * s % p == a, ('sqrt', a, p), 'square root gave %r' % s)
        else:
            ctx.raises(lambda: nt.square_root_mod_prime(a, p), ('sqrt', a, p), 'square root of a non-residue', nt.SquareRootError)
        ctx.eq(nt.modular_exp(a, 12345, p), pow(a, 12345, p), ('modular_exp', a, p), 'modular_exp')
    ctx.eq(nt.square_root_mod_prime(0, p), 0, ('sqrt', 0, p), 'square root of 0')
    ctx.ok(nt.is_prime(p), p, 'a prime is reported composite')
    ctx.raises(lambda: nt.modular_exp(2, -1, p), ('modular_exp', -1), 'negative exponent')


def u_jacobi(ctx, lo, hi, pr):
    for n in range(lo | 1, hi, 2):
        if n < 3:
            continue
        fs, m = [], n
        for q in pr:
            while m % q == 0:
                fs.append(q)
                m //= q
        for a in range(-3, n + 3):
            want = 1
            for q in fs:
                l = pow(a, (q - 1) // 2, q)
                want *= -1 if l == q - 1 else l
            ctx.eval()
            ctx.current = (a, n)
            if nt.jacobi(a, n) != want:
                ctx.fail(('jacobi', a, n), 'jacobi gave %r, expected %d' % (nt.jacobi(a, n), want))
        ctx.distinct(n + 6)


def u_sqrt(ctx, primes):
    for p in primes:
        sq = set(x * x % p for x in range(p))
        for a in range(p):
            ctx.eval()
            ctx.current = ('sqrt', a, p)
            if a in sq:
                s = nt.square_root_mod_prime(a, p)
                if not (0 <= s < p and s * s % p == a):
                    ctx.fail(('sqrt', a, p), 'square root gave %r' % s)
            else:
                ctx.raises(lambda: nt.square_root_mod_prime(a, p), ('sqrt', a, p), 'square root of a non-residue', nt.SquareRootError)
        ctx.distinct(p)
    ctx.sample(('sqrt', a, p))


def u_gcd(ctx, top):
    for a in range(0, top):
        for b in range(0, top):
            ctx.eval(2)
            ctx.distinct()
            ctx.current = ('gcd', a, b)
            g = mgcd(a, b)
            if nt.gcd(a, b) != g or nt.gcd([a, b]) != g or nt.gcd2(a, b) != g:
                ctx.fail(('gcd', a, b), 'gcd gave %r' % nt.gcd(a, b))
            if a or b:
                l = a * b // g
                if nt.lcm(a, b) != l or nt.lcm((a, b)) != l or nt.lcm2(a, b) != l:
                    ctx.fail(('lcm', a, b), 'lcm gave %r' % nt.lcm(a, b))
            if a:
                d = max(x for x in range(1, a + 1) if a % x == 0 and mgcd(x, b) == 1) if b and a <= 80 and b <= 80 else None
                if d is not None and nt.largest_factor_relatively_prime(a, b) != d:
                    ctx.fail(('largest_factor_relatively_prime', a, b), 'gave %r expected %d' % (nt.largest_factor_relatively_prime(a, b), d))
    for t in [(a, b, c) for a in range(1, 25) for b in range(1, 25) for c in range(1, 25)]:
        g = mgcd(mgcd(*t[:2]), t[2])
        l = t[0] * t[1] // mgcd(t[0], t[1])
        l = l * t[2] // mgcd(l, t[2])
        ctx.eval()
        ctx.distinct()
        if nt.gcd(*t) != g or nt.gcd(list(t)) != g or nt.lcm(*t) != l or nt.lcm(list(t)) != l:
            ctx.fail(t, 'gcd/lcm of three numbers')
    for n in (1, 7, 100):
        ctx.eq(nt.gcd(n), n, n, 'gcd of one')
        ctx.eq(nt.lcm(n), n, n, 'lcm of one')
    big = [2 ** 200 * 3 ** 50, 2 ** 100 * 5 ** 80, 3 ** 70 * 5 ** 10, 2 ** 521 - 1]
    for a in big:
        for b in big:
            ctx.eq(nt.gcd(a, b), mgcd(a, b), (a, b), 'gcd')
            ctx.eq(nt.lcm(a, b), a * b // mgcd(a, b), (a, b), 'lcm')


def ref_factor(n):
    out, d = [], 2
    while d * d <= n:
        if n % d == 0:
            e = 0
            while n % d == 0:
                n //= d
                e += 1
            out.append((d, e))
        d += 1 if d == 2 else 2
    if n > 1:
        out.append((n, 1))
    return out


def one_factor(ctx, n, want):
    ctx.eval()
    ctx.distinct()
    ctx.current = ('factorization', n)
    got = [tuple(x) for x in nt.factorization(n)]
    if got != want:
        ctx.fail(('factorization', n), 'gave %r expected %r' % (got, want))
    ph = 1
    for p, e in want:
        ph *= (p - 1) * p ** (e - 1)
    if n >= 1 and nt.phi(n) != ph:
        ctx.fail(('phi', n), 'gave %r expected %d' % (nt.phi(n), ph))
    lam = 1
    for p, e in want:
        x = 2 ** (e - 2) if p == 2 and e > 2 else (p - 1) * p ** (e - 1)
        lam = lam * x // mgcd(lam, x)
    if n >= 1 and nt.carmichael(n) != lam:
        ctx.fail(('carmichael', n), 'gave %r expected %d' % (nt.carmichael(n), lam))


def u_factor(ctx, lo, hi):
    for n in range(lo, hi):
        one_factor(ctx, n, ref_factor(n) if n > 1 else [])


def u_factor_edges(ctx):
    ps = [2, 3, 5, 1213, 1217, 1223, 1229, 1231, 1237, 1249, 1523]
    for i, p in enumerate(ps):
        one_factor(ctx, p ** 3, [(p, 3)])
        one_factor(ctx, p ** 2, [(p, 2)])
        for q in ps[i + 1:]:
            one_factor(ctx, p * q, [(p, 1), (q, 1)])
            one_factor(ctx, p * q * q, [(p, 1), (q, 2)])
            one_factor(ctx, p * p * q, [(p, 2), (q, 1)])
            for r in ps[ps.index(q) + 1:]:
                one_factor(ctx, p * q * r, [(p, 1), (q, 1), (r, 1)])
    for n, f in [(2 ** 64, [(2, 64)]), (3 ** 30, [(3, 30)]), (2 ** 61 - 1, [(2 ** 61 - 1, 1)]), (6 * (2 ** 61 - 1), [(2, 1), (3, 1), (2 ** 61 - 1, 1)]),
                 (1231 * (2 ** 31 - 1), [(1231, 1), (2 ** 31 - 1, 1)]), (2 * 1231 ** 4, [(2, 1), (1231, 4)])]:
        one_factor(ctx, n, f)


def u_factor_large(ctx, bits, s):
    """Numbers whose small prime factors are near a power of two."""
    a = [max(q for q in range((1 << bits) - 200, 1 << bits) if s[q])] + [q for q in range(1 << bits, (1 << bits) + 2000) if s[q]][:3]
    big = 2 ** 31 - 1
    for p, q in ((a[0], a[1]), (a[1], a[2]), (a[2], a[3])):
        for want in ([(p, 1), (q, 1)], [(p, 2)], [(2, 1), (p, 1), (q, 1)], [(1229, 2), (p, 1), (q, 1)], [(p, 1), (q, 2)], [(p, 1), (big, 1)], [(3, 3), (p, 2), (big, 1)]):
            if p <= 1229:
                continue
            n = 1
            for f, e in want:
                n *= f ** e
            one_factor(ctx, n, want)
    n = a[1] * a[2] * a[3]
    if a[1] > 1229:
        one_factor(ctx, n, [(a[1], 1), (a[2], 1), (a[3], 1)])


def u_carmichael(ctx, lo, hi):
    for n in range(lo, hi):
        us = [a for a in range(1, n + 1) if mgcd(a, n) == 1]
        ctx.eval(2)
        ctx.distinct(2)
        ctx.ok(nt.phi(n) == (len(us) if n >= 1 else 1), ('phi', n), 'phi is not the number of units')
        orders = []
        for a in us:
            z, k = a % n, 1
            while z != 1 % n:
                z, k = z * a % n, k + 1
            orders.append(k)
        lam = 1
        for k in orders:
            lam = lam * k // mgcd(lam, k)
        ctx.eq(nt.carmichael(n), lam, ('carmichael', n), 'carmichael')


def u_order(ctx, lo, hi):
    for m in range(lo, hi):
        for x in range(1, 2 * m + 3):
            ctx.eval()
            ctx.distinct()
            ctx.current = ('order_mod', x, m)
            if m <= 1:
                ctx.eq(nt.order_mod(x, m), 0, (x, m), 'order_mod')
                continue
            if mgcd(x, m) == 1:
                k, z = 1, x % m
                while z != 1:
                    z, k = z * x % m, k + 1
                if nt.order_mod(x, m) != k:
                    ctx.fail(('order_mod', x, m), 'gave %r expected %d' % (nt.order_mod(x, m), k))
            else:
                ctx.raises(lambda: nt.order_mod(x, m), ('order_mod', x, m), 'order of a non-unit')
            mm = m
            while mgcd(mm, x) > 1:
                mm //= mgcd(mm, x)
            if mm > 1:
                k, z = 1, x % mm
                while z != 1:
                    z, k = z * x % mm, k + 1
            else:
                k = 0
            if nt.kinda_order_mod(x, m) != k:
                ctx.fail(('kinda_order_mod', x, m), 'gave %r expected %d' % (nt.kinda_order_mod(x, m), k))


def u_prime(ctx, lo, hi, s):
    nxt = None
    for n in range(hi - 1, lo - 1, -1):
        ctx.eval()
        ctx.current = ('is_prime', n)
        if bool(nt.is_prime(n)) != bool(n >= 2 and s[n]):
            ctx.fail(('is_prime', n), 'gave %r' % nt.is_prime(n))
        if nxt is not None and (n % 7 == 0 or n < 3000):
            if nt.next_prime(n) != nxt:
                ctx.fail(('next_prime', n), 'gave %r expected %d' % (nt.next_prime(n), nxt))
        if n >= 2 and s[n]:
            nxt = n
    ctx.distinct(hi - lo)


def u_pseudo(ctx):
    # strong pseudoprimes to the first k prime bases (OEIS A014233), Carmichael numbers, strong pseudoprimes base 2
    comp = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051,
            318665857834031151167461, 3317044064679887385961981,
            561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 825265, 321197185,
            3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751]
    for k in range(1, 3000):
        a, b, c = 6 * k + 1, 12 * k + 1, 18 * k + 1
        if all(pow(2, x - 1, x) == 1 and pow(3, x - 1, x) == 1 for x in (a, b, c)):
            comp.append(a * b * c)
    comp += [(2 ** 61 - 1) ** 2, (2 ** 61 - 1) * (2 ** 31 - 1), (2 ** 127 - 1) * (2 ** 61 - 1), (2 ** 255 - 19) * 13, 2 ** 67 - 1, 2 ** 128 + 1,
             (2 ** 127 - 1) * (2 ** 255 - 19), (2 ** 521 - 1) * (2 ** 127 - 1), (2 ** 521 - 1) ** 2, (2 ** 521 - 1) * (2 ** 607 - 1), (2 ** 607 - 1) * (2 ** 1279 - 1)]
    for n in comp:
        ctx.eval()
        ctx.distinct()
        ctx.ok(not nt.is_prime(n), n, 'a composite is reported prime')
    for e in (89, 107, 127, 521, 607, 1279):
        ctx.ok(nt.is_prime(2 ** e - 1), e, 'a Mersenne prime is reported composite')
    for n in (-7, -1, 0, 1):
        ctx.ok(not nt.is_prime(n), n, 'reported prime')
        ctx.eq(nt.next_prime(n), 2, n, 'next_prime')


def chunks(lo, hi, k):
    """k ranges of about equal quadratic weight."""
    edges = [lo + int((hi - lo) * (i / k) ** .5) for i in range(k + 1)]
    edges[-1] = hi
    return [(a, b) for a, b in zip(edges, edges[1:]) if a < b]


def units(tier):
    th = tier == 'thorough'
    pr = [i for i, x in enumerate(sieve(5000)) if x]
    for a, b in chunks(2, 1501 if th else 501, 16):
        yield 'inverse-%d' % a, u_inverse, (a, b)
    for a, b in chunks(3, 1502 if th else 502, 8):
        yield 'jacobi-%d' % a, u_jacobi, (a, b, pr)
    sp = [p for p in pr if p <= (4900 if th else 1500) or (p % 8 == 1 and p <= 2300)]
    for i in range(16):
        yield 'sqrt-%d' % i, u_sqrt, (sp[i::16],)
    for p in BIGP:
        yield 'big-%x' % (p & 0xffffffffff), u_big, (p,)
    yield 'gcd', u_gcd, (600 if th else 200,)
    top = 1600000 if th else 120000
    step = top // 8
    for a in range(0, top, step):
        yield 'factor-%d' % a, u_factor, (a, a + step)
    yield 'factor-edges', u_factor_edges, ()
    for a, b in chunks(1, 1200 if th else 400, 8):
        yield 'carmichael-%d' % a, u_carmichael, (a, b)
    for a, b in chunks(1, 600 if th else 200, 6):
        yield 'order-%d' % a, u_order, (a, b)
    top = 8000000 if th else 480000
    s = sieve(top + 10)
    for bits in range(10, 23 if th else 19):
        yield 'factor-2^%d' % bits, u_factor_large, (bits, s)
    for a in range(0, top, top // 8):
        yield 'prime-%d' % a, u_prime, (a, a + top // 8, s)
    yield 'pseudoprimes', u_pseudo, ()
