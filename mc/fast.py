"""Speeds up big-number elliptic curve arithmetic in checks that are not about it.

C22 (group law), C23 (ECDSA) and C27 (modular inverse) decide the code's own functions and never load this. Here the
same functions are replaced, for large fields only, by pow(a, -1, m) and by the reference multiplication, so that the
wallet checks can explore about twenty times more cases. `off()` restores the code's own arithmetic; every check that
uses this also runs part of its cases with it off.
"""
from nbc.util.ecdsa import numbertheory as N, ellipticcurve as E
from .ref import ec

_inv = N.inverse_mod
_mul = E.Point.__mul__
_cache = {}
_memo = {}


def _inverse(a, m):
    if m > 1 << 100:
        try:
            return pow(a, -1, m)
        except ValueError:
            pass
    return _inv(a, m)


def _table(c, P):
    """[[i * 16^j * P for i in 1..15] for j in ...]"""
    out = []
    for j in range((c.p.bit_length() + 8) // 4):
        row = [None, P]
        for i in range(14):
            row.append(c.add(row[-1], P))
        out.append(row)
        P = c.add(row[-1], P)
    return out


def _gmul(c, table, k):
    R = None
    p = c.p
    X = Y = Z = 0
    j = 0
    while k:
        d = k & 15
        if d:
            Q = table[j][d]
            if not Z:
                X, Y, Z = Q[0], Q[1], 1
            else:
                ZZ = Z * Z % p
                H = (Q[0] * ZZ - X) % p
                S = (Q[1] * ZZ * Z - Y) % p
                if H == 0:
                    return None      # left to the general case
                HH = H * H % p
                HHH = H * HH % p
                V = X * HH % p
                X = (S * S - HHH - 2 * V) % p
                Y = (S * (V - X) - Y * HHH) % p
                Z = Z * H % p
        k >>= 4
        j += 1
    if not Z:
        return None
    zi = pow(Z, -1, p)
    return X * zi * zi % p, Y * zi * zi * zi % p


def _multiply(self, other):
    curve = self.curve() if self is not E.INFINITY else None
    if curve is None or not isinstance(other, int) or other < 8 or curve.p() < 1 << 100:
        return _mul(self, other)
    k = other
    n = self.order()
    if n:
        k %= n
    if k < 8 or (n and k > n - 8):
        return _mul(self, other)
    c = _cache.get(id(curve))
    if c is None or c[1] is not curve:
        c = _cache[id(curve)] = (ec.C(curve.p(), curve.a(), curve.b()), curve, {})
    P = (self.x(), self.y())
    if n:
        t = c[2].get(P)
        if t is None and len(c[2]) < 8:
            t = c[2][P] = [0, None]
        if t:
            t[0] += 1
            if t[0] > 20 and t[1] is None:
                t[1] = _table(c[0], P)
            if t[1] and k < (1 << 256):
                R = _gmul(c[0], t[1], k)
                if R is not None:
                    return E.Point(curve, R[0], R[1])
    m = _memo.get((id(curve), P, k), 0)
    if m == 0:
        m = c[0].mul(k, P)
        if len(_memo) > 5000:
            _memo.clear()
        _memo[(id(curve), P, k)] = m
    return E.INFINITY if m is None else E.Point(curve, m[0], m[1])


def on():
    N.inverse_mod = _inverse
    E.Point.__mul__ = _multiply


def off():
    N.inverse_mod = _inv
    E.Point.__mul__ = _mul
