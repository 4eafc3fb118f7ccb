"""C23: ECDSA."""
from nbc.util.ecdsa import ellipticcurve as E, ecdsa as D, curves as K, keys, util as U
from ..ref import ec, curves as refcurves

LEVEL = 'exploration'
RULE = ('every (key, nonce, hash) for signing, every (r, s, hash, key) for verification on every listed small curve of prime '
        'order; every coordinate pair for validation on prime- and composite-order curves; distinct by all operands')
BOUNDS = dict(quick='signing/verification: small prime-order curves with order below, at and above the field size; the same on curves with a cofactor (x several orders large); validation: all curves with p<=13; standard curves: boundary values of r, s, nonce and hash',
              thorough='signing/verification: every prime order curve over p in (5, 7, 11, 13, 17, 19) up to order 31; validation p<=23; standard curves: more boundary values')
ASSUMPTIONS = ['reference: textbook ECDSA over the affine group law']


def toy(p, a, b, G, n):
    c = E.CurveFp(p, a, b)
    return c, E.Point(c, G[0], G[1], n)


def pick(thorough):
    out = []
    for p in (5, 7, 11, 13, 17, 19):
        best = {}
        for a, b, n, pts in ec.prime_curves(p):
            if thorough:
                if n <= 31:
                    out.append((p, a, b, n, pts))
            else:
                best.setdefault(n, (p, a, b, n, pts))
        if not thorough:
            ns = sorted(k for k in best if k <= 23)
            out += [best[k] for k in ns]
    return out


def u_sign(ctx, p, a, b, n, pts):
    c = ec.C(p, a, b)
    G = pts[0]
    ic, IG = toy(p, a, b, G, n)
    case = (p, a, b, n)
    ctx.current = case
    hashes = range(0, 2 * n + 2) if n <= 13 or ctx.thorough else sorted(set(range(0, n + 1, 2)) | {1, n - 1, n, n + 1, 2 * n, 2 * n + 1})
    for d in range(1, n):
        Q = c.mul(d, G)
        pub = D.Public_key(IG, E.Point(ic, Q[0], Q[1], n))
        priv = D.Private_key(pub, d)
        for k in (0, n, 2 * n):
            for h in (0, 1, n - 1, n):
                ctx.raises(lambda: priv.sign(h, k), (case, 'd', d, 'k', k, 'h', h), 'signing with a nonce that is zero modulo the order')
        for k in range(1, n):
            for h in hashes:
                want = ec.sign(c, G, n, d, h, k)
                try:
                    s = priv.sign(h, k)
                    got = (s.r, s.s)
                except RuntimeError:
                    got = None
                if got != want:
                    ctx.fail((case, 'd', d, 'k', k, 'h', h), 'sign gave %r, expected %r' % (got, want))
                if want is not None and pub.verifies(h, s) is not True:
                    ctx.fail((case, d, k, h), 'own signature not accepted')
        ctx.eval((n - 1) * len(hashes))
        ctx.distinct((n - 1) * len(hashes))
    ctx.outcome('sign n%sp' % ('<' if n < p else '>' if n > p else '='))
    ctx.sample(dict(p=p, a=a, b=b, n=n, G=G, keys='1..n-1', nonces='1..n-1'))


def u_verify(ctx, p, a, b, n, pts):
    c = ec.C(p, a, b)
    G = pts[-1]
    ic, IG = toy(p, a, b, G, n)
    case = (p, a, b, n)
    ctx.current = case
    acc = rej = 0
    for d in range(1, n):
        if n > 13 and not ctx.thorough and d not in (1, 2, n // 2, n - 2, n - 1):
            continue
        Q = c.mul(d, G)
        pub = D.Public_key(IG, E.Point(ic, Q[0], Q[1], n))
        # reference table: X(h*w) + X(r*w)
        mulG = [c.mul(i, G) for i in range(n)]
        for s in list(range(-1, n + 3)) + [2 * n - 1, 2 * n + 1]:
            for r in list(range(-1, n + 3)) + [n + n // 2, 2 * n + 1]:
                for h in list(range(0, n + 2)):
                    if not (1 <= r < n and 1 <= s < n):
                        want = False
                    else:
                        w = pow(s, -1, n)
                        X = mulG[(h * w + r * w * d) % n]
                        want = X is not None and X[0] % n == r
                    got = pub.verifies(h, D.Signature(r, s))
                    if got is not want:
                        ctx.fail((case, 'd', d, 'h', h, 'r', r, 's', s), 'verifies gave %r, expected %r' % (got, want))
                    acc += want
                    rej += not want
    ctx.eval(acc + rej)
    ctx.distinct(acc + rej)
    ctx.count('accepted', acc)
    ctx.count('rejected', rej)


def u_keys(ctx, p, a, b, n, pts):
    """The same through SigningKey/VerifyingKey with a toy curve."""
    c = ec.C(p, a, b)
    G = pts[0]
    ic, IG = toy(p, a, b, G, n)
    curve = K.Curve('toy', ic, IG, (1, 2, 3))
    case = (p, a, b, n)
    ctx.current = case

    class hf(object):
        def __init__(self, data):
            self.data = data

        def digest(self):
            return self.data[:1]
    for d in range(0, n + 1):
        try:
            sk = keys.SigningKey.from_secret_exponent(d, curve, hf)
        except AssertionError:
            ctx.ok(not 1 <= d < n, (case, d), 'valid exponent refused')
            continue
        ctx.ok(1 <= d < n, (case, d), 'exponent out of range accepted')
        vk = sk.get_verifying_key()
        Q = c.mul(d, G)
        ctx.eq((vk.pubkey.point.x(), vk.pubkey.point.y()), Q, (case, d), 'public point')
        for long in (b'\0\1', b'\1\0', b'\1\0\0', bytes(40)):      # a digest longer than the order is neither signed nor accepted
            ctx.raises(lambda: sk.sign_digest(long, k=1), (case, d, long), 'signing a digest longer than the order')
            for r in range(1, n):
                for s in range(1, n, 3):
                    try:
                        got = vk.verify_digest(bytes([r, s]), long)
                    except Exception:
                        got = False
                    ctx.ok(got is False, (case, d, long, r, s), 'a digest longer than the order was accepted')
        for k in range(0, n + 1):
            for h in (0, 1, n - 1, n, n + 1, 255):
                data = bytes([h])
                want = ec.sign(c, G, n, d, h, k) if 1 <= k < n else None
                try:
                    sig = sk.sign(data, k=k)
                except (RuntimeError, AssertionError):
                    ctx.ok(want is None, (case, d, k, h), 'signing refused')
                    continue
                ctx.ok(want is not None, (case, d, k, h), 'signing with an impossible nonce succeeded')
                ctx.eq(sig, bytes(want), (case, d, k, h), 'signature string')
                ctx.ok(vk.verify(sig, data) is True, (case, d, k, h), 'own signature refused')
                for r in range(0, n + 1):
                    for s in sorted({0, want[1], n - want[1], n}):
                        ok = ec.verify(c, G, n, Q, h, r, s)
                        try:
                            got = vk.verify(bytes([r, s]), data)
                        except keys.BadSignatureError:
                            got = False
                        if got is not ok:
                            ctx.fail((case, d, h, r, s), 'verify gave %r, expected %r' % (got, ok))
                        ctx.eval()
                        ctx.distinct()


def u_valid(ctx, p, a):
    for b in range(p):
        c = ec.C(p, a, b)
        if c.singular():
            continue
        pts = c.points()
        ic = E.CurveFp(p, a, b)
        orders = {P: c.order(P) for P in pts}
        seen = set()
        for G in pts:
            n = orders[G]
            if n in seen:
                continue
            seen.add(n)
            ctx.current = case = (p, a, b, G, n)
            IG = E.Point(ic, G[0], G[1], n)
            for x in range(-2, p + 3):
                for y in range(-2, p + 3):
                    want = c.on(x, y) and c.mul(n, (x, y)) is None
                    got = D.point_is_valid(IG, x, y)
                    ctx.eval()
                    ctx.distinct()
                    if got is not want:
                        ctx.fail((case, x, y), 'point_is_valid gave %r, expected %r' % (got, want))
                    if c.on(x, y):
                        try:
                            D.Public_key(IG, E.Point(ic, x, y))
                            ok = True
                        except RuntimeError:
                            ok = False
                        ctx.ok(ok is want, (case, x, y), 'Public_key %s the point' % ('accepted' if ok else 'refused'))
                        if want and 0 <= x < p and 0 <= y < p:
                            for i, j in ((p, 0), (0, p), (-p, 0), (0, -p), (p, p), (-p, p)):
                                ctx.raises(lambda: D.Public_key(IG, E.Point(ic, x + i, y + j)), (case, x + i, y + j), 'Public_key with coordinates out of range')
                        ctx.outcome('valid' if want else 'wrong order')
                    else:
                        ctx.outcome('off')


def u_std(ctx, name, part):
    curve = [k for k in K.curves if k.name == name][0]
    c, G, n = ec.std(name)
    rl = (n.bit_length() + 7) // 8
    p = c.p
    ctx.current = name
    ds = [1, 2, n - 1, n // 2, 0x1234567 % n, (1 << (n.bit_length() - 1)) - 1]
    big = not ctx.thorough and n.bit_length() > 256
    if not ctx.thorough:
        ds = ds[4:5] + ds[2:3] if not big else ds[4:5]
    ks = [1, 2, n - 1, n // 2 + 1, (n // 3) | 1]
    hs = [0, 1, n - 1, n, n + 1, (1 << (8 * rl)) - 1, n // 2]
    for d in ds:
        Q = c.mul(d, G)
        pub = D.Public_key(curve.generator, E.Point(curve.curve, Q[0], Q[1], n))
        priv = D.Private_key(pub, d)
        for i, k in enumerate(ks):
            for j, h in enumerate(hs):
                if (i + j) % 2 != part or (not ctx.thorough and (i + j) % (8 if big else 4) > 1):
                    continue
                want = ec.sign(c, G, n, d, h, k)
                s = priv.sign(h, k)
                ctx.eq((s.r, s.s), want, (name, d, k, h), 'sign')
                ctx.ok(pub.verifies(h, s) is True, (name, d, k, h), 'own signature refused')
                r0, s0 = want
                for (r, ss, hh) in ((r0, n - s0, h), (r0 + n, s0, h), (r0, s0 + n, h), (0, s0, h), (r0, 0, h), (n - r0, s0, h),
                                    (r0, s0, h + 1), (r0, s0, h + n), (-r0, s0, h), (r0, -s0, h), (r0 ^ 1, s0, h))[:5 if big else 11]:
                    ok = ec.verify(c, G, n, Q, hh, r, ss)
                    ctx.eq(pub.verifies(hh, D.Signature(r, ss)), ok, (name, d, hh, r, ss), 'verifies')
                    ctx.eval()
                    ctx.distinct()
        x, y = Q
        for (px, py) in ((x, y), (x, p - y), (x + p, y), (x, y + p), (x, -y), (x - p, y), (x, (y + 1) % p), (0, 0), (n, y), (p, y), (x, p)):
            ctx.eq(D.point_is_valid(curve.generator, px, py), c.on(px, py), (name, px, py), 'point_is_valid')
            ctx.eval()
            ctx.distinct()
    # r must be reduced modulo n, and points with n <= x < p are legal keys
    if part == 0 and n < p and p % 4 == 3:
        x = n
        done = 0
        while done < 2 and x < p:
            y = ec.sqrt_p3(x ** 3 + c.a * x + c.b, p)
            if y is not None:
                P = E.Point(curve.curve, x, y, n)
                ctx.ok(D.point_is_valid(curve.generator, x, y) is True, (name, x, y), 'a key with n <= x < p refused')
                D.Public_key(curve.generator, P)
                done += 1
                ctx.eval()
                ctx.distinct()
            x += 1
    ctx.sample(dict(curve=name, part=part))


def u_cofactor(ctx, p):
    """Curves with more points than the generator has multiples: x may exceed the order several times."""
    seen = {}
    for a in range(p):
        for b in range(p):
            c = ec.C(p, a, b)
            if c.singular():
                continue
            for G in c.points():
                n = c.order(G)
                if n < 5 or any(n % q == 0 for q in range(2, n)) or 2 * n > p + 8:
                    continue
                xs = {c.mul(i, G)[0] // n for i in range(1, n)}
                key = (n, max(xs))
                if seen.setdefault(key, (a, b)) != (a, b):
                    continue
                ic, IG = toy(p, a, b, G, n)
                ctx.current = case = (p, a, b, G, n)
                mulG = [c.mul(i, G) for i in range(n)]
                for d in (1, 2, n - 2, n - 1):
                    Q = mulG[d]
                    pub = D.Public_key(IG, E.Point(ic, Q[0], Q[1], n))
                    priv = D.Private_key(pub, d)
                    for h in range(0, n + 2):
                        for k in range(1, n):
                            want = ec.sign(c, G, n, d, h, k)
                            try:
                                g = priv.sign(h, k)
                                g = (g.r, g.s)
                            except RuntimeError:
                                g = None
                            ctx.eq(g, want, (case, d, h, k), 'sign')
                            ctx.eval()
                        for s in range(0, n + 2):
                            for r in range(0, n + 2):
                                if not (1 <= r < n and 1 <= s < n):
                                    want = False
                                else:
                                    w = pow(s, -1, n)
                                    R = mulG[(h * w + r * w * d) % n]
                                    want = R is not None and R[0] % n == r
                                ctx.eq(pub.verifies(h, D.Signature(r, s)), want, (case, d, h, r, s), 'verifies')
                                ctx.eval()
                                ctx.distinct()
                ctx.outcome('x up to %d orders' % max(xs))
                break


def units(tier):
    th = tier == 'thorough'
    for cv in pick(th):
        p, a, b, n, pts = cv
        yield 'sign p=%d a=%d b=%d n=%d' % (p, a, b, n), u_sign, cv
        if n <= (29 if th else 17):
            yield 'verify p=%d a=%d b=%d n=%d' % (p, a, b, n), u_verify, cv
        if n in (5, 7, 11, 13) and (not th or n < 12):
            yield 'keys p=%d a=%d b=%d n=%d' % (p, a, b, n), u_keys, cv
    for p in (11, 13, 17, 19, 23) + ((29, 31) if th else ()):
        yield 'cofactor p=%d' % p, u_cofactor, (p,)
    for p in (5, 7, 11, 13) + ((17, 19, 23) if th else ()):
        for a in range(p):
            yield 'valid p=%d a=%d' % (p, a), u_valid, (p, a)
    for name in refcurves.CURVES:
        for part in (0, 1):
            yield 'std %s %d' % (name, part), u_std, (name, part)
