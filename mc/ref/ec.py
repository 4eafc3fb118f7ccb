"""Short Weierstrass arithmetic and ECDSA from the textbook definitions. Points are (x, y); None is infinity."""
from .curves import CURVES


class C(object):
    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a % p, b % p

    def on(self, x, y):
        return 0 <= x < self.p and 0 <= y < self.p and (y * y - x * x * x - self.a * x - self.b) % self.p == 0

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            lam = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p)
        else:
            lam = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
        x = (lam * lam - P[0] - Q[0]) % p
        return x, (lam * (P[0] - x) - P[1]) % p

    def mul(self, k, P):
        """Jacobian double-and-add (fast enough for the large curves)."""
        if k < 0:
            return self.mul(-k, self.neg(P))
        if P is None or k == 0:
            return None
        if self.p < 1000:
            R = None
            for bit in bin(k)[2:]:
                R = self.add(R, R)
                if bit == '1':
                    R = self.add(R, P)
            return R
        p, a = self.p, self.a
        X = Y = Z = 0
        for bit in bin(k)[2:]:
            if Z:
                if Y == 0:
                    Z = 0
                else:
                    YY = Y * Y % p
                    S = 4 * X * YY % p
                    ZZ = Z * Z % p
                    M = (3 * X * X + a * ZZ * ZZ) % p
                    X2 = (M * M - 2 * S) % p
                    Z = 2 * Y * Z % p
                    Y = (M * (S - X2) - 8 * YY * YY) % p
                    X = X2
            if bit == '1':
                if not Z:
                    X, Y, Z = P[0], P[1], 1
                else:
                    ZZ = Z * Z % p
                    U = P[0] * ZZ % p
                    S = P[1] * ZZ * Z % p
                    H = (U - X) % p
                    R = (S - Y) % p
                    if H == 0:
                        if R == 0:
                            aff = self.add(P, P)
                            X, Y, Z = (aff[0], aff[1], 1) if aff else (0, 0, 0)
                        else:
                            X = Y = Z = 0
                    else:
                        HH = H * H % p
                        HHH = H * HH % p
                        V = X * HH % p
                        X = (R * R - HHH - 2 * V) % p
                        Y = (R * (V - X) - Y * HHH) % p
                        Z = Z * H % p
        if not Z:
            return None
        zi = pow(Z, -1, p)
        return X * zi * zi % p, Y * zi * zi * zi % p

    def points(self):
        roots = {}
        for y in range(self.p):
            roots.setdefault(y * y % self.p, []).append(y)
        return [(x, y) for x in range(self.p) for y in roots.get((x * x * x + self.a * x + self.b) % self.p, ())]

    def order(self, P):
        k, Q = 1, P
        while Q is not None:
            Q = self.add(Q, P)
            k += 1
        return k

    def singular(self):
        return (4 * self.a ** 3 + 27 * self.b ** 2) % self.p == 0


def std(name):
    d = CURVES[name]
    return C(d['p'], d['a'], d['b']), (d['gx'], d['gy']), d['n']


def sign(curve, G, n, d, h, k):
    """(r, s), or None in the unlucky zero case."""
    R = curve.mul(k, G)
    r = R[0] % n
    if r == 0:
        return None
    s = pow(k, -1, n) * (h + d * r) % n
    return None if s == 0 else (r, s)


def verify(curve, G, n, Q, h, r, s):
    if not (1 <= r < n and 1 <= s < n):
        return False
    w = pow(s, -1, n)
    X = curve.add(curve.mul(h * w % n, G), curve.mul(r * w % n, Q))
    return X is not None and X[0] % n == r


def is_prime(n):
    return n > 1 and all(n % i for i in range(2, int(n ** .5) + 1))


def prime_curves(p):
    """[(a, b, N, points)] of every non-singular curve over F_p with a prime number of points N > 2."""
    out = []
    for a in range(p):
        for b in range(p):
            c = C(p, a, b)
            if c.singular():
                continue
            pts = c.points()
            if len(pts) + 1 > 2 and is_prime(len(pts) + 1):
                out.append((a, b, len(pts) + 1, pts))
    return out


def sqrt_p3(v, p):
    """Square root modulo p = 3 mod 4, or None."""
    v %= p
    r = pow(v, (p + 1) // 4, p)
    return r if r * r % p == v else None


def selftest():
    for name in CURVES:
        c, G, n = std(name)
        assert c.on(*G) and c.mul(n, G) is None and c.mul(n - 1, G) == c.neg(G)
        assert c.add(G, c.mul(2, G)) == c.mul(3, G)
    c = C(97, 2, 3)
    for P in c.points()[:10]:
        R = None
        for k in range(30):
            assert c.mul(k, P) == R
            R = c.add(R, P)
