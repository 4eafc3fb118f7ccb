"""Protocol values: boundary values of every wire type and the code's objects made from them."""
import itertools

from nbc.protocol import format as F, messages as M
from .ref import wire as R

CLS = {id(R.ADDR0): F.NetworkAddress, id(R.ADDR): F.NetworkAddress, id(R.INV): F.InventoryVector, id(R.OUTPOINT): F.OutPoint, id(R.TXIN): F.TxnIn, id(R.TXOUT): F.TxnOut,
       id(R.TX): F.Txn, id(R.HEAD): F.BlockHeader}
PAT = bytes((i * 7 + 1) % 256 for i in range(256)) * 300
IPS = ['1.2.3.4', '0.0.0.0', '255.255.255.255', '127.0.0.1', '2001:db8::1', '::', '::1', '1:2:3:4:5:6:7:8', 'FFFF:ffff:ffff:ffff:ffff:ffff:ffff:ffff', '1::', '::ffff:102:304', '0:0:0:0:0:fffe:102:304',
       'fe80::a:b', '1:0:0:2::3', 'abcd::', '0:0:0:0:0:0:102:304', '::ffff:0:0', '::ffff:1:2:3', '10.0.0.1', '1:2:3:4:5:6:7::', '::2:3:4:5:6:7:8']


def ints(t, full=True):
    bits = 8 * t[1]
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if t[2] else (0, (1 << bits) - 1)
    out = [0, 1, lo, hi, hi - 1, lo + 1, 2, 3, 4, 5, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x7f, 0x80]
    for k in range(8, bits + 1, 8):
        out += [(1 << k) - 1, 1 << k, 1 << k - 1, (1 << k - 1) - 1]
    out.append(int.from_bytes(bytes(range(1, t[1] + 1)), 'big'))
    out = [x for x in dict.fromkeys(out) if lo <= x <= hi]
    return out if full else [hi, out[-1]]


LENS = [0, 1, 2, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xfffe, 0xffff, 0x10000]


def values(t, full=True):
    """Boundary values (full) or two distinguishing ones, the first of them the base."""
    k = t[0]
    if k == 'int':
        v = ints(t, full)
        return [v[-1]] + v[:-1] if full else [v[1], v[0]]
    if k == 'varint':
        return [0x1234] + sorted({x + d for x in (0, 1, 0xfd, 0x100, 0x10000, 1 << 32, 1 << 63) for d in (-2, -1, 0, 1) if x + d >= 0} | {(1 << 64) - 1, (1 << 64) - 2}) if full else [0x1234, 0]
    if k == 'bytes':
        n = t[1]
        return [PAT[:n], bytes(n), b'\xff' * n, PAT[n:2 * n], bytes(n - 1) + b'\1', b'\1' + bytes(n - 1)] if full else [PAT[:n], PAT[3:3 + n]]
    if k == 'varstr':
        return [b'text', '/agent:1.0/', '', b'\0', b'\0\0a\0', '\xff\xe9', b'\xff'] + [PAT[:n] for n in LENS] if full else [b'text', PAT[:300]]
    if k == 'ip':
        return IPS if full else ['1.2.3.4', '2001:db8::1:0']
    if k == 'array':
        child = values(t[1], False)
        out = [[child[0]], child] + [[c] for c in values(t[1], full)[1:]]
        if t[2] == 0:
            out.append([])
        if full:
            small = child[0]
            counts = [0xfc, 0xfd, 0xfe, 0xff, 0x100] if t[1][0] != 'struct' or len(t[1][1]) < 4 else [0xfc, 0xfd, 0xfe]
            out += [[small] * n for n in counts if t[3] is None or n <= t[3]]
            if t[1][0] != 'struct':
                out += [[small] * n for n in (0xfffe, 0xffff, 0x10000)]
            out += [list(p) for p in itertools.product(child, repeat=3)]
        return out
    if k == 'opt':
        return [0] + [x for x in values(t[1], full) if x] if full else [1, 0]
    out = []   # struct: a base, then one field at a time
    base = {n: values(f, False)[0] for n, f in t[1]}
    other = {n: values(f, False)[1] for n, f in t[1]}
    out.append(base)
    out.append(other)
    if full:
        for n, f in t[1]:
            for v in values(f, True):
                out.append(dict(base, **{n: v}))
        if 1 < len(t[1]) <= 9:
            for pick in itertools.product((0, 1), repeat=len(t[1])):
                out.append({n: (base, other)[p][n] for p, (n, f) in zip(pick, t[1])})
    return out


def build(t, v, listtype=list):
    """The argument the code's constructors take for a value."""
    k = t[0]
    if k == 'struct':
        c = CLS[id(t)]
        kw = {n: build(f, v[n], listtype) for n, f in t[1]}
        if t is R.ADDR0:
            kw['timestamp'] = v.get('timestamp', 77)
        return c(**kw)
    if k == 'array':
        return listtype(build(t[1], x, listtype) for x in v)
    return v


def message(command, v, how='kw', listtype=list):
    name, t = R.MESSAGES.get(command) or R.UNREGISTERED[command]
    c = getattr(M, name)
    args = [build(f, v[n], listtype) for n, f in t[1]]
    if how == 'pos':
        return c(*args)
    if how == 'mixed':
        h = len(args) // 2
        return c(*args[:h], **{n: a for (n, f), a in list(zip(t[1], args))[h:]})
    return c(**{n: a for (n, f), a in zip(t[1], args)})


def schema(command):
    return (R.MESSAGES.get(command) or R.UNREGISTERED[command])[1]
