"""C03: the segmentation of the stream does not matter."""
import itertools

from ..nethist import Net, lab, want, snap, peer_of, got, show, kinds, exact

LEVEL = 'model_checking'
BOUNDS = dict(quick='(offset, connection state) graph: streams of up to 5 frames (170..330 bytes), every read size at every offset, to closure; all sequences of 3 out of 24 frame kinds x 5 segmentations; all 2^12 segmentations at field boundaries of 2-frame streams; two peers with all pairs of cuts; frames of 8190..8194, 16383..16385 and 14 KB with every cut within 3 bytes of a boundary; frames of 128 KB to 8 MB and runs of 2000 to 3000 frames in 3 to 7 segmentations; frames announced with 55 lengths up to 2^32 - 1 of which only a part arrives, 3 kinds x 5 segmentations',
              thorough='graph for 11 streams of both directions (up to 900 bytes); sequences of 4 kinds; all pairs of cuts of a long stream; a frame of 33 MB')
ASSUMPTIONS = ['one recv returns at most the number of bytes asked for and at least one (socket semantics)']


def feed(ctx, P, stream, cuts, out=False, peek=None):
    """One history: the stream delivered in those segments, the messages checked after each of them."""
    exp = want(P, stream)
    pos = [0]

    def sc(net):
        if out:
            yield
            net.node.add_peer(('5.5.5.5', 555))
            r = net.w.remotes[-1]
        else:
            r = net.w.connect('1.1.1.1', 1000)
        yield
        for n in cuts:
            r.send(stream[pos[0]:pos[0] + n])
            pos[0] += n
            yield
            g = got(net, r.address)
            e = [(c, v) for end, c, v in exp if end <= pos[0]]
            if g != e:
                ctx.fail(dict(stream=show([stream])[0], cuts=cuts, at=pos[0], outgoing=out),
                         'after %d bytes: handled %s, expected %s' % (pos[0], [c for c, _ in g] if [c for c, _ in g] != [c for c, _ in e] else g, [c for c, _ in e]))
            ctx.trans()
            if peek is not None:
                p = peer_of(net, r)
                peek.append((pos[0], snap(p) if p else None))
        ctx.ok(not r.closed, dict(stream=show([stream])[0], cuts=cuts), 'the connection was closed')
    net = Net(log=None).run(sc)
    ctx.ok(net.done, dict(stream=show([stream])[0], cuts=cuts), 'the event loop stopped')
    ctx.trace()


def streams(P, thorough=False):
    g, j = kinds(P)
    out = [g['ping'] + j['check'] + g['verack'] + g['pong'] + j['unknown'],
           g['version'] + g['verack'] + j['magic'] + g['ping'],
           j['short'] + g['getaddr'] + j['empty'] + g['ping'] + j['nocommand'] + g['verack'],
           j['badinv'] + g['inv'] + g['inv0'] + j['magic0'] + g['mempool']]
    if thorough:
        out += [g['addr'] + j['badname'] + g['reject'] + g['ping'], j['badver'] + g['version'] + j['unknown0'] + g['pong'] + g['pong'],
                g['inv'] * 3 + j['inner'] + g['version'], g['verack'] * 12, (j['check'] + g['ping']) * 4, g['reject'] * 5, j['unknown'] * 6 + g['ping']]
    return out


def graph(ctx, idx, out, part, parts):
    P = lab()
    s = streams(P, ctx.thorough)[idx]
    n = len(s)
    canon = {0: None}
    for o in range(1, n + 1):
        pk = []
        feed(ctx, P, s, [o], out, pk)
        canon[o] = {pk[-1][1]}
    todo = [[o] if o else [] for o in range(n) if o % parts == part]
    extra = 0
    while todo:
        path = todo.pop()
        o = sum(path)
        ctx.state((idx, out, o, tuple(path) if len(path) > 1 else None))
        for size in range(1, n - o + 1):
            pk = []
            feed(ctx, P, s, path + [size], out, pk)
            if pk[-1][1] not in canon[o + size]:
                ctx.count('states_not_merged')
                if extra < (2000 if ctx.thorough else 200) and o + size < n:
                    extra += 1
                    canon[o + size].add(pk[-1][1])
                    todo.append(path + [size])


def cutsets(s, ends):
    """Segmentations of a stream of frames: whole, frame by frame, header and payload apart, one byte early, one byte late."""
    n = len(s)

    def seg(points):
        p = sorted({x for x in points if 0 < x < n})
        return [b - a for a, b in zip([0] + p, p + [n])]
    yield seg([])
    yield seg(ends)
    yield seg([e - 1 for e in ends] + [e + 20 for e in ends] + [20])
    yield seg([e + 1 for e in ends] + [e + 24 for e in ends] + [24])
    yield seg([e + 19 for e in ends] + [19] + [e - 3 for e in ends])


def sequences(ctx, length, part, parts):
    P = lab()
    g, j = kinds(P)
    allk = dict(g, **j)
    for i, seq in enumerate(itertools.product(sorted(allk), repeat=length)):
        if i % parts != part:
            continue
        s = b''.join(allk[k] for k in seq)
        ends = list(itertools.accumulate(len(allk[k]) for k in seq))
        ctx.current = seq
        ctx.state(seq)
        segs = list(cutsets(s, ends))
        for k, cuts in enumerate(segs):
            if k == 2 + i % 3 or (k < 2 if not ctx.thorough else True) or (i % 7 == 0):
                feed(ctx, P, s, cuts, bool(i & 1))
        if i % 53 == 0 and len(s) < 500:
            feed(ctx, P, s, [1] * len(s))


def announced(ctx):
    """A frame announced as larger than what arrives stays incomplete: what follows belongs to it, however it was cut."""
    P = lab()
    g, j = kinds(P)
    tail = g['ping'] + g['verack'] + g['ping'] * 2
    for bits in (8, 15, 16, 20, 23, 24, 25, 28, 31, 32):
        for n in ((1 << bits) - 1, 1 << bits, (1 << bits) + 8, (1 << bits) + len(tail) - 24, (1 << bits) - 24, (3 << bits - 1) + 32):
            if len(tail) + 100 < n < 1 << 32:
                for command in (b'ping', b'block', b'foo'):
                    s = g['verack'] + P.MAGIC + command.ljust(12, b'\0') + n.to_bytes(4, 'little') + P.R.dsha(bytes(8))[:4] + tail
                    for cuts in ([len(s)], [24 + 19] + [len(s) - 43], [24 + 24] + [len(s) - 48], [48, 32, 24, 32, len(s) - 136], [20] * (len(s) // 20)):
                        ctx.current = dict(announced=n, command=command, cuts=cuts)
                        feed(ctx, P, s, cuts, bool(bits & 1))
                        ctx.state((n, command, tuple(cuts)))


def subsets(ctx, a, b, part, parts):
    P = lab()
    g, j = kinds(P)
    allk = dict(g, **j)
    s = allk[a] + allk[b]
    n = len(allk[a])
    pts = [1, 4, 16, 19, 20, 24, n - 1, n, n + 4, n + 20, n + 24, len(s) - 1]
    pts = sorted({p for p in pts if 0 < p < len(s)})
    for m in range(1 << len(pts)):
        if m % parts != part:
            continue
        p = [x for k, x in enumerate(pts) if m >> k & 1]
        ctx.state((a, b, m))
        feed(ctx, P, s, [y - x for x, y in zip([0] + p, p + [len(s)])])


def pairs(ctx, part, parts):
    """Two peers, their segments interleaved or arriving together."""
    P = lab()
    g, j = kinds(P)
    A, B = g['ping'] + j['check'] + g['verack'], g['pong'] + g['getaddr'] + j['unknown']
    ea, eb = want(P, A), want(P, B)
    for i in range(1, len(A)):
        if i % parts != part:
            continue
        for k in range(1, len(B)):
            for together in (False, True):
                case = dict(a=A.hex(), b=B.hex(), cut_a=i, cut_b=k, together=together)
                ctx.state((i, k, together))

                def sc(net):
                    a, b = net.w.connect('1.1.1.1', 1000), net.w.connect('1.1.1.1', 1001)
                    yield
                    for x, y, na, nb in ((A[:i], B[:k], i, k), (A[i:], B[k:], len(A), len(B))):
                        a.send(x)
                        if not together:
                            yield
                        b.send(y)
                        yield
                        ctx.trans(2)
                        for r, e, n in ((a, ea, na), (b, eb, nb)):
                            ctx.eq(got(net, r.address), [(c, v) for end, c, v in e if end <= n], case, 'messages of %s:%d' % r.address)
                ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
                ctx.trace()


def large(ctx, part, parts):
    P = lab()
    g, j = kinds(P)
    tail = g['ping'] + g['verack']
    bodies = [exact(P, n) for n in (8190, 8191, 8192, 8193, 8194, 16383, 16384, 16385)] + [g['big'], exact(P, 8192 - 32) + g['ping'], exact(P, 8192 - 20) + g['ping'], exact(P, 70000)]
    if ctx.thorough:
        bodies += [exact(P, n) for n in range(8100, 8300, 3)] + [exact(P, 300000)]
    k = 0
    for b in bodies:
        s = b + tail
        n = len(b)
        pts = {n + d for d in range(-25, 60)} | {m + d for m in range(8192, len(s), 8192) for d in range(-3, 4)} | set(range(1, 30))
        cutl = [[]] + [[p] for p in sorted(pts) if 0 < p < len(s)] + [[20, n], [24, n - 1], [8192, n + 1], [8191, 8193], [1, 8192, n]]
        for c in cutl:
            k += 1
            if k % parts != part:
                continue
            c = sorted({x for x in c if 0 < x < len(s)})
            ctx.state((n, tuple(c)))
            feed(ctx, P, s, [y - x for x, y in zip([0] + c, c + [len(s)])])
        for size in (1000, 4096, 8191, 8192, 8193):
            k += 1
            if k % parts == part:
                feed(ctx, P, s, [size] * (len(s) // size) + ([len(s) % size] if len(s) % size else []))


def volume(ctx, k):
    """Long frames (to 8 MB, thorough: 33 MB) and long runs of frames, arriving in large and in small pieces."""
    P = lab()
    g, j = kinds(P)
    sizes = [(1 << 20) - 1, (1 << 20) + 25, 1200000, (1 << 17) + 1, (1 << 18) + 24, (1 << 19) - 24, 2000001, 4000000, 4300001, 8400000]
    runs = [g['ping'] * 3000, (g['ping'] + j['check'] + g['verack'] + j['unknown']) * 500, j['unknown'] * 2500 + g['ping'], j['magic'] * 1500 + g['inv'] * 300, g['big'] * 40]
    if k < len(sizes):
        n = sizes[k]
        s = exact(P, n) + g['ping'] + exact(P, 70001) + g['verack']
        cl = ([8192], [65536], [1 << 20], [8191, 1], [n - 1, 1], [n + 20], [20, 4]) if n < 1 << 20 else ([65536], [n - 1, 1], [n + 20]) if n < 4100000 else ([100000],)
    elif k < len(sizes) + len(runs):
        s = runs[k - len(sizes)]
        cl = ([len(s)], [8192, 8192], [1000], [len(g['ping'])], [8000, 300])
    else:
        s = exact(P, 33000000) + g['ping']
        cl = ([1 << 20],)
    for c in cl:
        ctx.current = dict(unit=k, bytes=len(s), segments=c)
        cuts, left = [], len(s)
        for n in itertools.cycle(c):
            if not left:
                break
            n = min(n, left)
            if len(cuts) >= 300 and k < len(sizes):
                n = left
            cuts.append(n)
            left -= n
        feed(ctx, P, s, coarse(cuts), False)
        ctx.state((k, tuple(c)))


def coarse(cuts):
    """At most some 400 segments (each is checked)."""
    while len(cuts) > 400:
        cuts = [sum(cuts[i:i + 2]) for i in range(0, len(cuts), 2)]
    return cuts


def paircuts(ctx, part, parts):
    P = lab()
    s = streams(P, True)[0] + streams(P, True)[2]
    for a in range(1, len(s)):
        if a % parts == part:
            for b in range(a + 1, len(s)):
                ctx.state((a, b))
                feed(ctx, P, s, [a, b - a, len(s) - b])


def units(tier):
    yield ('announced', announced, ())
    N = 8
    for idx in range(4 if tier == 'quick' else 11):
        for out in ((False,) if tier == 'quick' and idx else (False, True)):
            for k in range(4):
                yield ('graph-%d-%s-%d' % (idx, 'out' if out else 'in', k), graph, (idx, out, k, 4))
    for k in range(2 * N):
        yield ('sequences-%d' % k, sequences, (3 if tier == 'quick' else 4, k, 2 * N))
    for a, b in (('ping', 'verack'), ('check', 'ping'), ('unknown', 'getaddr')) if tier == 'quick' else itertools.product(('ping', 'check', 'unknown', 'magic', 'short', 'version'), repeat=2):
        for k in range(2):
            yield ('subsets-%s-%s-%d' % (a, b, k), subsets, (a, b, k, 2))
    for k in range(15 if tier == 'quick' else 16):
        yield ('volume-%d' % k, volume, (k,))
    for k in range(N):
        yield ('pairs-%d' % k, pairs, (k, N))
        yield ('large-%d' % k, large, (k, N))
        if tier != 'quick':
            yield ('paircuts-%d' % k, paircuts, (k, N))
