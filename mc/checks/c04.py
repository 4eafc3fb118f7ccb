"""C04: outgoing bytes complete, once, in order, whatever the socket accepts."""
import itertools

from ..nethist import Net, lab, snap, peer_of

LEVEL = 'model_checking'
BOUNDS = dict(quick='one connection, both directions: every state (queueing step, bytes accepted) of up to 4 steps and 250 bytes x every accepted size, would-block, next step, to closure; two connections: all pairs of 3 short writes out of {would-block, 1, 7, all}; a 30 KB reply with all sequences of 3 limits out of 8; delayed outgoing connects; 100 KB to 40 MB and up to 4000 messages queued x 11 ways the kernel takes them',
              thorough='7 step scripts; two connections with 4 short writes each; sequences of 5 limits for the large reply')
ASSUMPTIONS = ['a socket accepts a prefix of what it is offered (possibly nothing, as would-block)']


class Run(object):
    """A history of one connection; steps queue messages, the window limits what the kernel takes."""

    def __init__(self, P, script, out):
        self.P, self.script, self.out = P, script, out

    def start(self, net):
        net.w.policy = lambda a: 'accept'
        if self.out:
            net.node.add_peer(('5.5.5.5', 555))
            r = net.w.remotes[-1]
        else:
            r = net.w.connect('1.1.1.1', 1000)
        r.window = 0
        return r

    def step(self, net, r, k):
        P = self.P
        what = self.script[k]
        if what == 'ping':
            r.send(P.msg('ping', nonce=b'nonce%03d' % k))
        elif what == 'version':
            r.send(P.version() + P.VERACK)
        elif what == 'getaddr':
            r.send(P.msg('getaddr'))
        elif what == 'two':
            r.send(P.msg('ping', nonce=b'first%03d' % k) + P.msg('ping', nonce=b'secnd%03d' % k))
        elif what == 'local':
            p = peer_of(net, r)
            p.send_message(P.protocol.Ping(b'local%03d' % k))


def reference(ctx, P, script, out):
    """The bytes without any limit: their meaning is checked here, the limited runs must repeat them."""
    marks = []

    def sc(net):
        run = Run(P, script, out)
        yield
        r = run.start(net)
        r.window = None
        yield
        marks.append(len(r.got))
        for k in range(len(script)):
            run.step(net, r, k)
            yield
            marks.append(len(r.got))
        marks.append(r.got)
    net = Net(log=None).run(sc)
    data = marks.pop()
    exp = [('version', None)]
    for k, w in enumerate(script):
        exp += {'ping': [('pong', b'nonce%03d' % k)], 'version': [('verack', None)], 'getaddr': [('addr', None)], 'two': [('pong', b'first%03d' % k), ('pong', b'secnd%03d' % k)],
                'local': [('ping', b'local%03d' % k)]}[w]
    have = [(c, v.get('nonce') if c in ('ping', 'pong') else None) for c, v in P.decode(data)]
    ctx.eq(have, exp, dict(script=script, out=out), 'messages sent')
    return marks, data


def history(ctx, P, script, out, q, o, act, marks, data, peek):
    """Queue q steps, let o bytes go, then act: ('take', n), 'block' or 'step'."""
    case = dict(script=script, outgoing=out, steps=q, accepted=o, action=act)

    def check(net, r, total, queued):
        ctx.trans()
        if r.got != data[:total]:
            ctx.fail(case, 'after %d of %d bytes accepted the stream differs: %s instead of %s' % (total, queued, r.got.hex(), data[:total].hex()))
        p = peer_of(net, r)
        ctx.ok(p is not None and not r.closed, case, 'the connection was closed')
        asked = r.sock.fd in net.w.asked[1]
        ctx.eq(asked, total < queued, case, 'asks to write with %d of %d bytes sent' % (total, queued))
        ctx.eq(p.tx_bytes, total, case, 'sent bytes counter')
        ctx.eq(getattr(net.node, '_tx_bytes', total), total, case, 'sent bytes counter of the node')

    def sc(net):
        run = Run(P, script, out)
        yield
        r = run.start(net)
        yield
        for k in range(q):
            run.step(net, r, k)
            yield
        check(net, r, 0, marks[q])
        if o:
            r.window += o
            yield
            check(net, r, o, marks[q])
        total, queued = o, marks[q]
        if act == 'block':
            r.window += 1
            r.quota = [0, 1]
            yield
            total += 1
        elif act == 'step':
            run.step(net, r, q)
            yield
            queued = marks[q + 1]
        elif act is not None:
            n = act[1]
            r.window += n
            if act[0] == 'bits':
                r.quota = [1] * (n - 1) + [1]
            yield
            total += n
        check(net, r, total, queued)
        peek.append(((q + 1 if act == 'step' else q), total, snap(peer_of(net, r))))
        # the rest flows
        r.window = None
        yield
        for k in range(q + (act == 'step'), len(script)):
            run.step(net, r, k)
            yield
        ctx.ok(r.got == data, case, 'the complete stream differs: %s instead of %s' % (r.got.hex(), data.hex()))
        ctx.eq(r.sock.fd in net.w.asked[1], False, case, 'asks to write with nothing pending')
    net = Net(log=None)
    net.run(sc)
    ctx.ok(net.done, case, 'the event loop stopped')
    ctx.trace()


SCRIPTS = [('version', 'ping', 'local'), ('ping', 'two', 'getaddr'), ('local', 'version', 'ping'), ('two', 'local', 'two'), ('getaddr', 'getaddr', 'ping', 'local'), ('local', 'local', 'local', 'local'), ('ping', 'version', 'getaddr', 'ping')]


def graph(ctx, idx, out, part, parts):
    P = lab()
    script = SCRIPTS[idx]
    marks, data = reference(ctx, P, script, out)
    canon = {}
    for q in range(len(script) + 1):
        for o in range(marks[q] + 1):
            pk = []
            if part == (q + o) % parts or True:
                history(ctx, P, script, out, q, o, None, marks, data, pk)
                canon[q, o] = pk[-1][2]
    k = 0
    for (q, o) in sorted(canon):
        k += 1
        if k % parts != part:
            continue
        ctx.state((idx, out, q, o))
        acts = [('take', n) for n in range(1, marks[q] - o + 1)]
        if q and not ctx.thorough:
            acts = [a for a in acts if a[1] < 40 or a[1] % 3 == o % 3 or o + a[1] >= marks[q] - 3]
        if o < marks[q]:
            acts.append('block')
            acts.append(('bits', min(5, marks[q] - o)))
        if q < len(script):
            acts.append('step')
        for a in acts:
            pk = []
            history(ctx, P, script, out, q, o, a, marks, data, pk)
            if pk[-1][2] != canon[pk[-1][:2]]:
                ctx.count('states_not_merged')


def two(ctx, length, part, parts):
    """Two connections with short writes of their own; nothing crosses over."""
    P = lab()
    full = {}
    sizes = (0, 1, 7, 100000)
    combos = list(itertools.product(itertools.product(sizes, repeat=length), repeat=2))
    for i, (qa, qb) in enumerate([(None, None)] + combos):
        if i and i % parts != part:
            continue
        case = dict(accepts_a=qa, accepts_b=qb)
        res = []

        def sc(net):
            a, b = net.w.connect('1.1.1.1', 1000), net.w.connect('2.2.2.2', 1001)
            for r, q in ((a, qa), (b, qb)):
                r.quota = list(q) + [0, 3] if q else None
            yield 'once'
            a.send(P.version() + P.VERACK)
            yield 'once'
            b.send(P.msg('ping', nonce=b'bbbbbbbb'))
            a.send(P.msg('ping', nonce=b'aaaaaaaa'))
            yield 'once'
            b.send(P.version())
            yield 'once'
            b.send(P.msg('ping', nonce=b'bbbbbbb2') + P.msg('pong', nonce=b'12345678'))
            yield
            res[:] = [a.got, b.got]
            ctx.trans(8)
            ctx.eq(sum(p.tx_bytes for p in net.node.peers), len(a.got) + len(b.got), case, 'sent bytes counters')
            ctx.eq(getattr(net.node, '_tx_bytes', len(a.got) + len(b.got)), len(a.got) + len(b.got), case, 'sent bytes counter of the node')
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()
        ctx.state((qa, qb))
        if not i:
            full = list(res)
            ctx.eq([P.commands(x) for x in full], [['version', 'verack', 'pong'], ['version', 'pong', 'verack', 'pong']], case, 'messages')
        for x, y in zip(res, full):
            ctx.ok(x == y, case, 'the stream differs from the one without short writes: %s instead of %s' % (x.hex(), y.hex()))


def large(ctx, length, part, parts):
    P = lab()
    sizes = (0, 1, 4095, 8191, 8192, 8193, 16384, 30000)
    ref = []
    addrs = [dict(timestamp=1400000000 + i, services=1, address='9.%d.%d.1' % (i // 250, i % 250), port=1000) for i in range(1000)]
    for i, q in enumerate([None] + list(itertools.product(sizes, repeat=length))):
        if i and i % parts != part:
            continue
        case = dict(accepts=q)

        def sc(net):
            a = net.w.connect('1.1.1.1', 1000)
            a.send(P.msg('addr', addr_list=addrs))
            yield
            a.quota = list(q) if q else None
            a.send(P.msg('getaddr') + P.msg('ping', nonce=b'aaaaaaaa'))
            yield 'once'
            a.send(P.msg('ping', nonce=b'aaaaaaa2'))
            yield
            ctx.trans(3)
            if not i:
                ref.append(a.got)
                ctx.eq([(c, len(v.get('addr_list', ()))) for c, v in P.decode(a.got)], [('version', 0), ('addr', 1000), ('pong', 0), ('pong', 0)], case, 'messages')
            ctx.ok(a.got == ref[0], case, 'the stream differs from the one without short writes')
            ctx.eq(peer_of(net, a).tx_bytes, len(a.got), case, 'sent bytes counter')
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()
        ctx.state(q)


def volume(ctx, k):
    """Megabytes and thousands of messages queued; the kernel takes them in large and small pieces."""
    P = lab()
    queues = [('reject', 600000, 5), ('reject', 100000, 12), ('reject', 3000000, 1), ('ping', 0, 4000), ('reject', 1 << 16, 4), ('reject', 30000, 40), ('same', 300, 60), ('same', 30000, 20), ('same', 400000, 4), ('same', 0, 900)]
    kind, size, count = queues[k]
    for takes in ((4095,), (16384,), (65535,), (65536,), (65537,), (70000, 1), (1 << 20,), (1 << 20, 0, 7), (1 << 30,), (131072, 3), (212992,)):
        if kind == 'ping' and takes[0] > 1 << 17:
            takes = (takes[0] >> 10,) + takes[1:]
        if size * count / sum(takes) * count * size > 4e9:
            continue
        ctx.current = case = dict(message=kind, payload=size, messages=count, accepts=takes)

        def sc(net):
            a = net.w.connect('1.1.1.1', 1000)
            yield
            start = len(a.got)
            p = peer_of(net, a)
            a.window = 0
            exp = []
            for i in range(count):
                if kind == 'same':            # the same message again and again
                    exp.append(P.msg('reject', message=b'm', ccode=1, reason=b'r' * size))
                    p.send_message(P.protocol.Reject(b'm', 1, b'r' * size))
                    if i in (count // 3, count // 2):
                        yield 'once'
                    continue
                m = P.protocol.Ping(b'%08d' % i) if kind == 'ping' else P.protocol.Reject(b'm', i % 256, bytes([i % 251]) * size)
                exp.append(P.msg('ping', nonce=b'%08d' % i) if kind == 'ping' else P.msg('reject', message=b'm', ccode=i % 256, reason=bytes([i % 251]) * size))
                p.send_message(m)
                if i in (count // 3, count // 2):
                    yield 'once'
            exp = b''.join(exp)
            yield 'once'
            a.got = b''
            a.window = None
            a.quota = list(takes) * (len(exp) // sum(takes) + 1)
            yield
            ctx.trans(len(a.sends))
            if a.got != exp:
                at = next((i for i, (x, y) in enumerate(zip(a.got, exp)) if x != y), min(len(a.got), len(exp)))
                ctx.fail(case, '%d bytes sent instead of %d, the first difference at %d' % (len(a.got), len(exp), at))
            ctx.eq(p.tx_bytes, start + len(exp), case, 'sent bytes counter')
            ctx.eq(a.sock.fd in net.w.asked[1], False, case, 'asks to write with nothing pending')
            ctx.ok(not a.closed, case, 'the connection was closed')
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()
        ctx.state((k, takes))


def late(ctx):
    """Outgoing connections which are established late, at once, or by the first data from the other side."""
    P = lab()
    for how in ('accept', 'immediate', 'hang'):
        for early in range(3):          # local messages queued before it is established
            for first in ('none', 'data', 'partial'):
                case = dict(connect=how, queued=early, first=first)

                def sc(net):
                    net.w.policy = lambda a: how
                    yield
                    ctx.ok(net.node.add_peer(('5.5.5.5', 555)), case, 'add_peer failed')
                    r = net.w.remotes[-1]
                    p = peer_of(net, r)
                    for k in range(early):
                        p.send_message(P.protocol.Ping(b'early00%d' % k))
                    if how == 'hang':
                        yield 12
                        ctx.eq(r.got, b'', case, 'sent before established')
                        ctx.ok(not r.closed, case, 'connection given up')
                        r.sock.state = 'established'
                    if first == 'data':
                        r.send(P.msg('ping', nonce=b'12345678'))
                    elif first == 'partial':
                        r.quota = [0, 5, 1]
                    yield
                    exp = ['version'] + ['ping'] * early + ['pong'] * (first == 'data')
                    ctx.eq([c for c in P.commands(r.got) if c != 'getaddr'], exp, case, 'messages')
                    ctx.eq(p.tx_bytes, len(r.got), case, 'sent bytes counter')
                    ctx.eq(r.sock.fd in net.w.asked[1], False, case, 'asks to write with nothing pending')
                    ctx.trans(3)
                ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
                ctx.trace()
                ctx.state(case)


def long(ctx, size, total, stall):
    """Much is sent in one connection, with the other side stopping in between; nothing gets lost at any total."""
    P = lab()
    ctx.current = case = dict(message=size, total=total, stops_after=stall)

    def sc(net):
        a = net.w.connect('1.1.1.1', 1000)
        yield
        p = peer_of(net, a)
        done = len(a.got)
        n = 0
        while done < total:
            a.got = b''
            exp = b''
            for k in range(3):
                n += 1
                exp += P.msg('reject', message=b'm', ccode=n % 256, reason=bytes([n % 251]) * size)
                p.send_message(P.protocol.Reject(b'm', n % 256, bytes([n % 251]) * size))
            a.quota = [stall, 0, stall * 7, 0, 0]
            yield
            done += len(exp)
            ctx.ok(a.got == exp, case, '%d bytes instead of %d, after %d' % (len(a.got), len(exp), done))
            ctx.eq(p.tx_bytes, done, case, 'sent bytes counter')
            ctx.trans(3)
            ctx.state((size, stall, n))
        ctx.ok(not a.closed, case, 'the connection was closed')
    ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
    ctx.trace()


def units(tier):
    N = 8
    for idx in range(2 if tier == 'quick' else len(SCRIPTS)):
        for k in range(N):
            yield ('graph-%d-%s-%d' % (idx, 'out' if idx & 1 else 'in', k), graph, (idx, bool(idx & 1), k, N))
            if tier != 'quick':
                yield ('graph-%d-%s-%d' % (idx, 'in' if idx & 1 else 'out', k), graph, (idx, not idx & 1, k, N))
    for k in range(N):
        yield ('two-%d' % k, two, (3 if tier == 'quick' else 4, k, N))
        yield ('large-%d' % k, large, (3 if tier == 'quick' else 5, k, N))
    for k in range(10):
        yield ('volume-%d' % k, volume, (k,))
    yield ('late', late, ())
    for size, total, stall in ((100000, 20 << 20, 70000), (400000, 40 << 20, 65536)) + (((1000, 3 << 20, 100), (300000, 300 << 20, 65537)) if tier != 'quick' else ()):
        yield ('long-%d-%d' % (size, stall), long, (size, total, stall))
