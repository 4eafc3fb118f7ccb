"""C01: messages survive the wire unchanged, in the Bitcoin layout."""
import ipaddress
import itertools

from nbc import coins
from nbc.protocol import format as F, messages as M
from .. import msgs as G
from ..ref import wire as R

LEVEL = 'exploration'
RULE = 'every listed value of every field of every message type, and every combination of two values per field; distinct by wire bytes'
BOUNDS = dict(quick='21 message types; per field all boundary values of its type (integers around every byte boundary, strings and lists around 0, 0xfc..0x100, 0xfffe..0x10000 and the documented maxima, 21 addresses), every IPv6 address with each group 0, 5 or ffff (6561, two spellings), all two-value combinations of fields, nested structures likewise; every byte value at every place of integers, byte strings, texts and addresses in 9 message types; positional, keyword and mixed construction, lists and tuples; 5 magics; invalid values of every field, also behind up to 2500 good ones; empty lists where one entry is needed; every pair of message types interleaved',
              thorough='additionally every pair of boundary values of two fields, every triple of message types interleaved')
ASSUMPTIONS = ['the 32-bit timestamp of the two addresses in a version message is not transmitted', 'floats where allowed are truncated', 'filterload, filteradd, filterclear, merkleblock are serialised but need not be parsed', 'addresses are compared by value']
MAGICS = [coins.Newbitcoin.magic, b'\xf9\xbe\xb4\xd9', bytes(4), b'\xff' * 4, b'vers']


def printable(ctx, m, case):
    ctx.ok(isinstance(str(m), str), case, 'text')
    if hasattr(m, '_debug'):   # what the node logs
        ctx.ok(isinstance(m._debug(), str), case, 'log text')


def one(ctx, command, v, how='kw', listtype=list, magic=MAGICS[0], sub=None):
    t = G.schema(command)
    ctx.current = case = dict(command=command, value=v if len(repr(v)) < 3000 else repr(v)[:3000], how=how)
    c = R.canon(t, v)
    payload = R.enc(t, c)
    want = R.frame(magic, command, payload)
    m = G.message(command, v, how, listtype)
    ctx.eval()
    for _ in range(2):
        ctx.eq(m.binary(magic), want, case, 'wire bytes')
    ctx.eq(R.canon(t, m), c, case, 'fields of the constructed message')
    ctx.eq(m.command, command, case, 'command')
    printable(ctx, m, case)
    if command in R.MESSAGES:
        p = M.Message.parse(want, magic)
        ctx.ok(type(p) is type(m), case, 'type of the parsed message: %r' % type(p))
        ctx.eq(R.canon(t, p), c, case, 'fields of the parsed message')
        ctx.eq(p.magic, magic, case, 'magic of the parsed message')
        ctx.eq(p.binary(magic), want, case, 'wire bytes of the parsed message')
        printable(ctx, p, case)
        ctx.eq(R.canon(t, p), c, case, 'fields of the parsed message afterwards')
        if command == 'version':
            ctx.eq((p.addr_recv.timestamp, p.addr_from.timestamp), (0, 0), case, 'timestamps')
    if ctx.state(want):
        ctx.outcome(command)
        ctx.sample(dict(command=command, wire=want[:200]))
    return want


def fields(ctx, command, part, parts):
    t = G.schema(command)
    vals = G.values(t, True)
    if t[1]:
        for n, f in t[1]:
            if f[0] == 'array' and f[3] is not None:
                x = G.values(f[1], False)[0]
                for k in (f[3], f[3] - 1):
                    vals.append(dict(vals[0], **{n: [x] * k}))
    k = 0
    for v in vals:
        k += 1
        if k % parts != part:
            continue
        one(ctx, command, v)
        if k < 60 or ctx.thorough:
            one(ctx, command, v, 'pos', tuple)
            one(ctx, command, v, 'mixed', list, MAGICS[k % len(MAGICS)])
    if ctx.thorough:
        base = vals[0]
        for (n, f), (n2, f2) in itertools.combinations(t[1], 2):
            for a, b in itertools.product(G.values(f, True), G.values(f2, True)):
                if len(repr(a)) + len(repr(b)) > 20000:
                    continue
                k += 1
                if k % parts == part:
                    one(ctx, command, dict(base, **{n: a, n2: b}))


def invalid(t, deep=False):
    """Values a type must not hold, and odd ones it may refuse."""
    k = t[0]
    if k == 'int':
        lo, hi = (-(1 << 8 * t[1] - 1), (1 << 8 * t[1] - 1) - 1) if t[2] else (0, (1 << 8 * t[1]) - 1)
        return [lo - 1, hi + 1, -1 << 70, 1 << 64, 1 << 63, None, 'x', b'1', [1], -1, True, float('nan'), float('inf'), 1.5, -0.5, hi + 0.5, float(hi)]
    if k == 'varint':
        return [-1, 1 << 64, None, 'x', b'1', 1 << 70, True]
    if k == 'bytes':
        n = t[1]
        return [b'', bytes(n - 1), bytes(n + 1), 'x' * n, None, bytearray(n), 0, [0] * n, memoryview(bytes(n))]
    if k == 'varstr':
        return [None, 5, [b'x'], '\u0100', 'a\u20ac', bytearray(b'x'), '\ud800']
    if k == 'ip':
        return ['', '1.2.3', '1.2.3.4.5', '256.1.1.1', '-1.2.3.4', '1.2.3.-4', '+1.2.3.4', ' 1.2.3.4', '1.2.3.4 ', '1..3.4', '1.2.3.', 'a.b.c.d', '1.2.3.0x4', ':', ':::', '1:2', '1:2:3', '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9',
                '1::2::3', '1:2:3:4:5:6:7:8::', '::1:2:3:4:5:6:7:8', 'g::1', '12345::', '00001::2', '1::00002', '1:2:3:4:5:6:7:00008', '0001:2:3:4:5:6:7:000000008', '-1::', '+1::2', ' 1::2', '0x1::2', '1_0::2', ':1:2', '1:2:', ':1:2:3:4:5:6:7', '1:2:3:4:5:6:7:', '1:2:3:4:5:6:7:8:', ':1:2:3:4:5:6:7:8', None, 5, b'1.2.3.4',
                '1.2.3.4:80', '[::1]', '::1%1', '\u0661.2.3.4', '1.2.3.\u0664', '::ffff:1.2.3.4', '01.2.3.4', '1.2.3.004', '::g', 'localhost', '1.2.3.4\n', '1\n::', '1.2.3.1_0', '::1_0', '1e1.2.3.4']
    if k == 'array':
        good = G.values(t[1], False)[0]
        out = [None, 5, 'xx', b'xx', {}, [None], [good, None], [5.5], [[good]], iter([])]
        if t[3] is not None:
            out.append([good] * (t[3] + 1))
        if t[2]:
            out.append([])
        if t[1][0] in ('struct', 'bytes', 'varstr') and not deep:
            for n in (2, 99, 100, 255, 256, 499, 999, 1000, 1001, 2500):
                out += [[good] * n + [invalid(t[1], True)[0]] + [good] * 2]
        return out + [[good, x] for x in invalid(t[1], True)]
    if k == 'opt':
        return invalid(t[1], deep)
    return [None, 5, 'x', b'', {}, object()]


def refuse(ctx, command):
    """A message that can be constructed from odd values must still be exactly serialisable, otherwise it is refused."""
    name, t = R.MESSAGES.get(command) or R.UNREGISTERED[command]
    cls = getattr(M, name)

    def attempt(cls, t, kw, case, wire):
        ctx.current = case
        ctx.eval()
        try:
            o = cls(**kw)
        except Exception:
            ctx.outcome('refused')
            return
        ctx.outcome('accepted')
        try:
            data = R.encode(t, o)
        except Exception as e:
            ctx.fail(case, 'a value outside the type was accepted (%s)' % e)
        ctx.eq(wire(o), data, case, 'wire bytes')
        ctx.state((cls.__name__, data))
        for n, f in t[1]:
            if f[0] == 'array' and isinstance(kw.get(n), list):
                ctx.eq(len(getattr(o, n)), len(kw[n]), case, 'entries of %s' % n)

    def struct(cls, t, wire):
        base = {n: G.build(f, v) for (n, f), v in zip(t[1], [G.values(f, False)[0] for n, f in t[1]])}
        for n, f in t[1]:
            for bad in invalid(f):
                attempt(cls, t, dict(base, **{n: bad}), dict(cls=cls.__name__, field=n, value=repr(bad)[:300]), wire)
            attempt(cls, t, {k: v for k, v in base.items() if k != n}, dict(cls=cls.__name__, missing=n), wire)
            if f[0] == 'array' and f[2]:
                ctx.raises(lambda: cls(**dict(base, **{n: []})), dict(cls=cls.__name__, entries=0), 'fewer entries than the protocol allows')
            if f[0] == 'array' and f[3] is not None:
                good = base[n][0]
                ctx.eq(len(getattr(cls(**dict(base, **{n: [good] * f[3]})), n)), f[3], dict(cls=cls.__name__, entries=f[3]), 'entries')
                ctx.raises(lambda: cls(**dict(base, **{n: [good] * (f[3] + 1)})), dict(cls=cls.__name__, entries=f[3] + 1), 'more entries than the protocol allows')
            ctx.raises(lambda: cls(**{k: v for k, v in base.items() if k != n}), dict(cls=cls.__name__, missing=n), 'missing field')
        ctx.raises(lambda: cls(**dict(base, bogus=1)), dict(cls=cls.__name__), 'unknown field')
        if base:
            first = t[1][0][0]
            ctx.raises(lambda: cls(base[first], **base), dict(cls=cls.__name__), 'field given twice')
    struct(cls, t, lambda o: o.binary(MAGICS[0])[24:])
    for st in (R.ADDR, R.INV, R.OUTPOINT, R.TXIN, R.TXOUT, R.TX, R.HEAD):
        if command in ('addr', 'inv', 'tx', 'headers'):
            struct(G.CLS[id(st)], st, lambda o: o.binary())
    # floats where times are allowed
    for command2, field in (('version', 'timestamp'), ('block', 'timestamp'), ('merkleblock', 'timestamp')):
        if command2 == command:
            tt = G.schema(command)
            base = {n: G.values(f, False)[0] for n, f in tt[1]}
            for x in (0.0, 1.5, 1400000000.999, 4294967295.0, 4294967295.9):
                one(ctx, command, dict(base, timestamp=x))


def objects(ctx):
    """Values do not alias the caller's lists, fields cannot be changed, equal out-points are equal."""
    for command in R.MESSAGES:
        t = G.schema(command)
        for v in G.values(t, False):
            ctx.current = case = dict(command=command, value=v)
            args = {n: G.build(f, v[n]) for n, f in t[1]}
            m = getattr(M, R.MESSAGES[command][0])(**args)
            want = m.binary(MAGICS[0])
            for a in args.values():
                if isinstance(a, list) and a:
                    a.append(a[0])
                    del a[0]
                    a.reverse()
                    a.append(None)
            args.clear()
            ctx.eq(m.binary(MAGICS[0]), want, case, 'wire bytes after the lists were changed')
            p = M.Message.parse(want, MAGICS[0])
            for n, f in t[1]:
                x = getattr(p, n)
                if isinstance(x, list):
                    q = M.Message.parse(want, MAGICS[0])
                    getattr(q, n).append(None)
                    ctx.eq(R.canon(t, p), R.canon(t, v), case, 'another parsed message')
            ctx.state(want)
            ctx.eval()
    # long lists, and numbers which are truth values
    for command in R.MESSAGES:
        t = G.schema(command)
        base = G.values(t, False)[0]
        for n, f in t[1]:
            if f[0] == 'array':
                one_ = G.values(f[1], False)[0]
                for k in (20, 150, 260, 1000) if command in ('addr', 'block') else (20, 150, 260, 1000, 2001, 5000):
                    ctx.current = case = dict(command=command, field=n, elements=k)
                    v = dict(base, **{n: [one_] * k})
                    args = {m_: G.build(f_, v[m_]) for m_, f_ in t[1]}
                    m = getattr(M, R.MESSAGES[command][0])(**args)
                    want = R.frame(MAGICS[0], command, R.encode(t, v))
                    del args[n][k // 2:]
                    ctx.eq(m.binary(MAGICS[0]) == want, True, case, 'wire bytes after the list was changed')
                    ctx.eq(len(getattr(m, n)), k, case, 'elements')
                    p = M.Message.parse(want, MAGICS[0])
                    x = getattr(p, n)
                    if isinstance(x, list):
                        x.clear()
                    ctx.eq(M.Message.parse(want, MAGICS[0]).binary(MAGICS[0]) == want, True, case, 'parsed again')
                    ctx.eval()
                    ctx.state((command, n, k))
            g = f[1] if f[0] == 'opt' else f
            if g[0] == 'int':
                for b in (False, True):
                    ctx.current = case = dict(command=command, field=n, value=b)
                    args = {m_: G.build(f_, base[m_]) for m_, f_ in t[1]}
                    args[n] = b
                    want = R.frame(MAGICS[0], command, R.encode(t, dict(base, **{n: int(b)})))
                    try:
                        m = getattr(M, R.MESSAGES[command][0])(**args)
                    except Exception:
                        continue    # it may refuse them
                    ctx.eq(m.binary(MAGICS[0]), want, case, 'wire bytes')
                    ctx.eval()
    hs = [bytes(32), b'\1' + bytes(31), bytes(31) + b'\1']
    for (h1, i1), (h2, i2) in itertools.product(itertools.product(hs, (0, 1, 0xffffffff)), repeat=2):
        ctx.current = case = dict(outpoints=(h1, i1, h2, i2))
        a, b = F.OutPoint(h1, i1), F.OutPoint.parse(F.OutPoint(h2, i2).binary())[1]
        ctx.eq(a == b, (h1, i1) == (h2, i2), case, 'equality')
        ctx.eq(a != b, (h1, i1) != (h2, i2), case, 'inequality')
        if a == b:
            ctx.eq(hash(a), hash(b), case, 'hash value')
        ctx.ok(not a == None and not a == 5, case, 'compared with something else')
        ctx.eval()


def interleave(ctx, part, parts):
    """Constructing, serialising and parsing of several messages in every order of types does not mix them."""
    names = sorted(R.MESSAGES)
    base = {}
    for c in names:
        v = G.values(G.schema(c), False)[0]
        base[c] = (v, R.canon(G.schema(c), v), R.frame(MAGICS[0], c, R.encode(G.schema(c), v)))
    k = 0
    for seq in itertools.product(names, repeat=3 if ctx.thorough else 2):
        k += 1
        if k % parts != part:
            continue
        ctx.current = case = dict(sequence=seq)
        ms = [G.message(c, base[c][0]) for c in seq]
        ps = [M.Message.parse(base[c][2], MAGICS[0]) for c in seq]
        for c, m, p in list(zip(seq, ms, ps))[::-1]:
            ctx.eq(m.binary(MAGICS[0]), base[c][2], case, 'wire bytes')
            ctx.eq(m.binary(MAGICS[1]), MAGICS[1] + base[c][2][4:], case, 'wire bytes with another magic')
            ctx.eq(p.binary(MAGICS[0]), base[c][2], case, 'wire bytes of the parsed one')
            ctx.eq(R.canon(G.schema(c), p), base[c][1], case, 'fields')
            ctx.eval()
        ctx.state(seq)


def varints(ctx):
    vals = set(range(0, 70000 if not ctx.thorough else 300000))
    for k in range(1, 65):
        vals |= {(1 << k) + d for d in range(-3, 4)}
    for v in vals:
        if not 0 <= v < 1 << 64:
            continue
        ctx.current = v
        b = R.varint(v)
        if F.FtVarInteger.binary(v) != b or tuple(F.FtVarInteger.parse(b)) != (len(b), v) or tuple(F.FtVarInteger.parse(b + b'\xff\0')) != (len(b), v):
            ctx.fail(dict(varint=v), 'var-int: %r, %r' % (F.FtVarInteger.binary(v), F.FtVarInteger.parse(b)))
        ctx.state(('v', v))
        ctx.eval()
    for n in range(0, 600):
        for raw in (G.PAT[:n],):
            ctx.current = n
            one(ctx, 'reject', dict(message=raw, ccode=1, reason=raw[::-1]))


def contents(t):
    """Values with every byte in every place."""
    k = t[0]
    if k == 'int':
        n = t[1]
        out = []
        for pos in range(n):
            for b in range(256):
                for fill in (0, 0xff, 0x20):
                    raw = bytes([fill] * pos + [b] + [fill] * (n - pos - 1))
                    out.append(int.from_bytes(raw, 'little', signed=bool(t[2])))
        return out
    if k == 'bytes':
        return [G.PAT[:p] + bytes([b]) + G.PAT[p + 1:t[1]] for p in range(t[1]) for b in range(256)]
    if k == 'varstr':
        one_ = [bytes([b]) for b in range(256)]
        return one_ + [x + b'mid' for x in one_] + [b'mid' + x for x in one_] + [b'a' + x + b'c' for x in one_] + [x + x for x in one_] + [x + b'z' + x for x in one_]
    if k == 'ip':
        return ['.'.join(str(b if i == p else 7) for i in range(4)) for p in range(4) for b in range(256)] + [':'.join('%x' % (v if i == p else 0x2001 + i) for i in range(8)) for p in range(8) for v in [b << 8 for b in range(256)] + list(range(256))]
    if k == 'array':
        return [[x] for x in contents(t[1])]
    if k == 'opt':
        return contents(t[1])
    if k != 'struct':
        return []
    base = {n: G.values(f, False)[0] for n, f in t[1]}
    return [dict(base, **{n: v}) for n, f in t[1] for v in contents(f)]


def everywhere(ctx, command, part, parts):
    for k, v in enumerate(contents(G.schema(command))):
        if k % parts == part:
            one(ctx, command, v)


def addresses(ctx, part, parts):
    """every IPv6 address whose groups are each one of a few values, in every class that holds an address"""
    vals = (0, 0xffff, 5) if not ctx.thorough else (0, 0xffff, 5, 0xff00)
    combos = [c for k, c in enumerate(itertools.product(vals, repeat=8)) if k % parts == part]
    for how in (0, 1):
        texts = [':'.join('%x' % g for g in c) if how == 0 else R_text(c) for c in combos]
        for o in range(0, len(texts), 500):
            one(ctx, 'addr', dict(addr_list=[dict(timestamp=k, services=1, address=a, port=k) for k, a in enumerate(texts[o:o + 500])]))
        ctx.eval(len(texts))
        for a in texts:
            ctx.state(a)
            if a.count('0') < 4:
                v = G.values(G.schema('version'), False)[0]
                one(ctx, 'version', dict(v, addr_recv=dict(v['addr_recv'], address=a), addr_from=dict(v['addr_from'], address=texts[0])))


def R_text(groups):
    return str(ipaddress.IPv6Address(b''.join(g.to_bytes(2, 'big') for g in groups)))


def units(tier):
    for p in range(2):
        yield 'addresses %d' % p, addresses, (p, 2)
    for c, n in (('ping', 1), ('version', 4), ('addr', 2), ('inv', 2), ('reject', 1), ('tx', 6), ('headers', 4), ('getblocks', 3), ('alert', 1)):
        for p in range(n):
            yield 'contents %s %d' % (c, p), everywhere, (c, p, n)
    yield 'varints', varints, ()
    yield 'objects', objects, ()
    for c in list(R.MESSAGES) + list(R.UNREGISTERED):
        n = 4 if tier == 'thorough' or c in ('block', 'tx', 'version') else 1
        for p in range(n):
            yield 'fields %s %d' % (c, p), fields, (c, p, n)
        yield 'refuse %s' % c, refuse, (c,)
    for p in range(4):
        yield 'interleave %d' % p, interleave, (p, 4)
