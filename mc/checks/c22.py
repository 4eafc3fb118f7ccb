"""C22: group law."""
from nbc.util.ecdsa import ellipticcurve as E, ecdsa as D, curves as K
from ..ref import ec, curves as refcurves

LEVEL = 'exploration'
RULE = ('every non-singular curve y^2=x^3+ax+b over each field, every point pair for addition, every point x multiplier; '
        'distinct by (p, a, b, operands)')
BOUNDS = dict(quick='all curves over F_p for p in 5..19: all pairs, all multipliers 0..2N+2 (declared and undeclared order) and -2N-2..-1 (declared order); every point with coordinates below 5 on every curve over F_5, F_7 and F_11 through it, operations alternating between the curves; six standard curves: 70 boundary multipliers',
              thorough='all curves over F_p for p in 5..31, same; standard curves: 600 boundary multipliers')
ASSUMPTIONS = ['the reference arithmetic is the affine chord-and-tangent rule, cross-checked in setup.sh against OpenSSL parameters']


def val(P):
    return None if P == E.INFINITY else (P.x(), P.y())


def u_field(ctx, p, a):
    for b in range(p):
        c = ec.C(p, a, b)
        if c.singular():
            continue
        ic = E.CurveFp(p, a, b)
        pts = c.points()
        N = len(pts) + 1
        IP = {P: E.Point(ic, P[0], P[1]) for P in pts}
        IP[None] = E.INFINITY
        case = (p, a, b)
        ctx.current = case
        for x in range(p):
            for y in range(p):
                on = c.on(x, y)
                ctx.ok(ic.contains_point(x, y) == on, (case, x, y), 'contains_point')
                if not on:
                    try:
                        E.Point(ic, x, y)
                    except Exception:
                        continue
                    ctx.fail((case, x, y), 'a point off the curve was accepted')
        allp = [None] + pts
        for P in allp:
            if val(IP[P].double()) != c.add(P, P):
                ctx.fail((case, P), 'double gave %r, expected %r' % (val(IP[P].double()), c.add(P, P)))
            for Q in allp:
                S = IP[P] + IP[Q]
                if val(S) != c.add(P, Q):
                    ctx.fail((case, P, Q), 'addition gave %r, expected %r' % (val(S), c.add(P, Q)))
                if (IP[P] == IP[Q]) != (P == Q):
                    ctx.fail((case, P, Q), 'equality of points')
            if val(IP[P]) != P:
                ctx.fail((case, P), 'an operand was changed by arithmetic')
            if P:      # subtraction as it is usually written: the negative of a point is (x, -y)
                M = E.Point(ic, P[0], -P[1])
                for Q in allp:
                    if Q != P or Q is None or P[1]:
                        for S in (IP[Q] + M, M + IP[Q]):
                            if Q and val(S) != c.add(Q, c.neg(P)):
                                ctx.fail((case, Q, P), 'subtraction gave %r, expected %r' % (val(S), c.add(Q, c.neg(P))))
        ctx.eval(N * N + p * p)
        ctx.distinct(N * N)
        if (a + b) % 2 and p > 13 and not ctx.thorough:
            continue
        for P in allp:
            R = None
            o = c.order(P) if P else 1
            PO = E.Point(ic, P[0], P[1], o) if P else E.INFINITY
            for k in range(0, 2 * N + 3):
                M = IP[P] * k
                if val(M) != R:
                    ctx.fail((case, P, k), 'point * k gave %r, expected %r' % (val(M), R))
                if k % 3 == 0 and val(k * IP[P]) != R:
                    ctx.fail((case, P, k), 'k * point gave %r, expected %r' % (val(k * IP[P]), R))
                if val(PO * k) != R:
                    ctx.fail((case, P, k), 'point of declared order %d * k gave %r, expected %r' % (o, val(PO * k), R))
                R = c.add(R, P)
            R = None
            for k in range(0, -2 * N - 3, -1):
                if k and val(PO * k) != R:
                    ctx.fail((case, P, k), 'point of declared order %d * k gave %r, expected %r' % (o, val(PO * k), R))
                if k % 3 == 0 and val(k * PO) != R:
                    ctx.fail((case, P, k), 'k * point of declared order %d gave %r, expected %r' % (o, val(k * PO), R))
                R = c.add(R, c.neg(P))
            if val(PO) != P:
                ctx.fail((case, P), 'an operand was changed by multiplication')
        ctx.eval(N * (2 * N + 3) * 3)
        ctx.distinct(N * (2 * N + 3) * 3)
        ctx.outcome('N=%d' % N)
    ctx.sample(dict(p=p, a=a, curves='all non-singular b'))


def u_shared(ctx, ps, order):
    """The same coordinates on every curve through them, over several fields, one after another: nothing may be carried over."""
    fields = {p: [(a, b, ec.C(p, a, b)) for a in range(p) for b in range(p) if not ec.C(p, a, b).singular()] for p in ps}
    for x in range(min(ps)):
        for y in range(min(ps)):
            here = [(p, a, b, c) for p in ps for a, b, c in fields[p] if c.on(x, y)]
            if order:
                here.reverse()
            IP = [(E.Point(E.CurveFp(p, a, b), x, y), E.Point(E.CurveFp(p, a, b), x, y, c.order((x, y)))) for p, a, b, c in here]
            ones = [(k, op) for k in range(1, 2 * max(ps)) for op in ('*', 'r*', 'o*')] + [(0, 'double'), (0, '+double'), (1, '+double')]
            for k, op in ones:
                for (p, a, b, c), (P, O) in zip(here, IP):
                    ctx.current = case = (p, a, b, (x, y), op, k)
                    if op == 'double':
                        got, want = P.double(), c.add((x, y), (x, y))
                    elif op == '+double':
                        got, want = (P + P.double(), P.double() + P)[k], c.add((x, y), c.add((x, y), (x, y)))
                    else:
                        got, want = (P * k if op == '*' else k * P if op == 'r*' else O * k), c.mul(k, (x, y))
                    ctx.eq(val(got), want, case, 'result')
                ctx.eval(len(here))
                ctx.distinct(len(here))
    ctx.sample((ps, order))


def multipliers(n, more):
    s = set([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, n - 2, n - 1, n, n + 1, n + 2, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n + 5,
             n // 2, n // 2 + 1, n // 3, 2 * n // 3, (n - 1) // 3, n >> 1, 2 ** (n.bit_length() - 1), 2 ** n.bit_length(), 2 ** n.bit_length() - 1])
    for e in ((1, 7, 8, 31, 32, 63, 64, 127, 128, 129, 160, 191) if not more else range(1, n.bit_length() + 2)):
        s.update((2 ** e, 2 ** e - 1, 2 ** e + 1))
    s.update([int('aa' * 20, 16), int('55' * 20, 16), int('f0' * 24, 16)])
    return sorted(s)


def u_std(ctx, name, part, parts):
    d = refcurves.CURVES[name]
    c, G, n = ec.std(name)
    cu = getattr(K, name)
    ctx.eq((cu.curve.p(), cu.curve.a() % d['p'], cu.curve.b() % d['p'], cu.generator.x(), cu.generator.y(), cu.order, tuple(cu.oid), cu.name),
           (d['p'], d['a'], d['b'], d['gx'], d['gy'], d['n'], d['oid'], name), name, 'published parameters')
    ctx.eq(cu.generator.order(), n, name, 'generator order')
    ctx.ok(K.find_curve(d['oid']) is cu, name, 'find_curve')
    ctx.eq(cu.baselen, (n.bit_length() + 7) // 8, name, 'baselen')
    g0 = E.Point(E.CurveFp(d['p'], d['a'], d['b']), G[0], G[1])     # no declared order: nothing is reduced
    prev = None
    for k in multipliers(n, ctx.thorough)[part::parts]:
        ctx.eval(2)
        ctx.distinct(2)
        ctx.current = (name, k)
        want = c.mul(k, G)
        ctx.eq(val(cu.generator * k), want, (name, k), 'generator * k')
        ctx.eq(val(g0 * k), want, (name, k), 'point * k')
        if prev is not None:
            ctx.eq(val(cu.generator * k + cu.generator * prev[0]) if k % 2 else val(cu.generator * prev[0] + cu.generator * k),
                   c.add(want, prev[1]), (name, k, prev[0]), 'sum')
        prev = (k, want)
        if k and k.bit_length() % 4 < 2:
            ctx.eq(val(cu.generator * -k), c.neg(want), (name, -k), 'generator * negative k')
    ctx.raises(lambda: E.Point(cu.curve, G[0], G[1] + 1), name, 'a point off the curve')
    ctx.sample((name, k))


def units(tier):
    for p in ((5, 7, 11, 13, 17, 19) if tier == 'quick' else (5, 7, 11, 13, 17, 19, 23, 29, 31)):
        for a in range(p):
            yield 'F%d-a%d' % (p, a), u_field, (p, a)
    for order in (0, 1):
        yield 'shared-%d' % order, u_shared, ((5, 7, 11) if tier == 'quick' else (5, 7, 11, 13), order)
    for name in refcurves.CURVES:
        parts = 2 if name in ('NIST521p', 'NIST384p') else 1
        parts *= 1 if tier == 'quick' else 4
        for i in range(parts):
            yield 'std-%s-%d' % (name, i), u_std, (name, i, parts)
