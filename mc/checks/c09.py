"""C09: keep-alive pings and the three hour limit."""
import itertools

from ..nethist import Net, lab, peer_of

LEVEL = 'model_checking'
BOUNDS = dict(quick='every sequence of 2 out of 9 time steps x 5 events (ping, message without answer, part of a message, local message, nothing) at the 5 s pace of the loop; 3 of 7 steps x 4 events with a loop that wakes every 60 s; blocked and slowly draining connections, until they are dropped; two connections with different histories; both directions',
              thorough='sequences of 3 at the 5 s pace, of 4 at 60 s')
ASSUMPTIONS = ['the loop wakes at least every 5 (60) s; deadlines are claimed up to that much plus 6 s late', 'the node knows at least 50 addresses, so that no getaddr is sent']


def setup(net, P):
    h = net.w.connect('99.9.9.9', 9)
    h.send(P.msg('addr', addr_list=[dict(timestamp=1, services=1, address='8.8.8.%d' % k, port=1) for k in range(60)]))
    yield
    h.eof = True
    yield


class Monitor(object):
    def __init__(self, ctx, net, P, r, case):
        self.ctx, self.net, self.P, self.r, self.case = ctx, net, P, r, case
        self.start = net.w.now
        self.heard = [net.w.now]
        self.answers = 0
        self.slack = 5 * net.w.oversleep + 6
        self.local = []

    def send(self, data, answer=0):
        if self.r.closed or self.net.w.now - self.heard[-1] > 10800:     # too late
            return
        self.r.send(data)
        self.heard.append(self.net.w.now)
        self.answers += answer

    def times(self):
        """[(time the last byte was accepted, command, nonce)]"""
        out, pos, ends = [], 0, []
        for t, n in self.r.sends:
            pos += n
            ends.append((pos, t))
        off = 0
        for c, v in self.P.decode(self.r.got):
            if c == '?':
                break
            off += 24 + int.from_bytes(self.r.got[off + 16:off + 20], 'little')
            out.append(([t for p, t in ends if p >= off][0], c, v.get('nonce')))
        return out

    def check(self, closed_ok=True):
        ctx, case, now = self.ctx, self.case, self.net.w.now
        end = now
        if self.r.closed:
            end = [t for a, t in self.net.gone if a == self.r.address][-1]
            ctx.ok(end - self.heard[-1] > 10800, case, 'closed %.1f s after something was heard' % (end - self.heard[-1]))
        ctx.ok(end - self.heard[-1] <= 10800 + self.slack, case, 'still open %.1f s after something was heard' % (end - self.heard[-1]))
        ts = self.times()
        pings = [(t, n) for t, c, n in ts if c == 'ping' and n not in self.local]
        if self.r.window is None and not getattr(self, 'blocked', False):
            sent = [self.start] + [t for t, n in self.r.sends if n]
            for a, b in zip(sent, sent[1:] + [end]):
                ctx.ok(b - a <= 1800 + self.slack, case, 'nothing was sent for %.1f s' % (b - a))
            for t, n in pings:
                last = max(x for x in sent if x < t) if t > self.start else self.start
                ctx.ok(t - last > 1800, case, 'ping %.1f s after something was sent' % (t - last))
        for (a, _), (b, _) in zip(pings, pings[1:]):
            if not getattr(self, 'blocked', False):
                ctx.ok(b - a > 300, case, 'pings %.1f s apart' % (b - a))
        ctx.eq(len({n for _, n in pings}), len(pings), case, 'different nonces of pings')
        ctx.eq(sum(c not in ('ping', 'version') for _, c, _ in ts), self.answers, case, 'other messages')
        ctx.state((case.get('events'), round(end - self.start), self.r.closed, len(pings)))
        ctx.trans()


def connect(net, way, ip, port):
    if way == 'in':
        return net.w.connect(ip, port)
    net.node.add_peer((ip, port))
    return net.w.remotes[-1]


def act(m, P, what, k):
    if what == 'ping':
        m.send(P.msg('ping', nonce=b'ping%04d' % k), 1)
    elif what == 'quiet':
        m.send(P.msg('pong', nonce=b'pong%04d' % k))
    elif what == 'part':
        m.send(b'\xf9')     # the rest never comes
    elif what == 'local' and not m.r.closed:
        n = b'local%03d' % k
        m.local.append(n)
        peer_of(m.net, m.r).send_message(P.protocol.Ping(n))


def timed(ctx, depth, steps, acts, oversleep, way, part, parts):
    P = lab()
    for i, seq in enumerate(itertools.product(itertools.product(steps, acts), repeat=depth)):
        if i % parts != part:
            continue
        if any(a == 'part' for _, a in seq[:-1]) and seq[-1][1] in ('ping',):
            continue    # the stream would be garbled
        case = dict(events=seq, way=way, loop=5 * oversleep)
        ctx.current = case

        def sc(net):
            for x in setup(net, P):
                yield x
            net.w.oversleep = oversleep
            r = connect(net, way, '1.1.1.1', 1000)
            m = Monitor(ctx, net, P, r, case)
            yield
            garbled = False
            for k, (dt, a) in enumerate(seq):
                yield dt
                m.check()
                if garbled and a in ('ping', 'quiet'):
                    a = 'part'
                garbled |= a == 'part'
                act(m, P, a, k)
                yield
                m.check()
            yield 2200
            m.check()
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def blocked(ctx, oversleep):
    """The kernel accepts nothing, little, or would-block for a while."""
    P = lab()
    for how, span, heard in itertools.product(('zero', 'later', 'eagain', 'part'), (1700, 1900, 1990, 2095, 2100, 2390, 2500, 2695, 4000, 9000), (0, 1)):
        case = dict(blocked=how, seconds=span, heard=heard, loop=5 * oversleep)
        ctx.current = case

        def sc(net):
            for x in setup(net, P):
                yield x
            net.w.oversleep = oversleep
            r = net.w.connect('1.1.1.1', 1000)
            m = Monitor(ctx, net, P, r, case)
            m.blocked = True
            if how == 'part':
                r.window = 40
            elif how == 'zero':
                r.window = 0
            t = net.w.now
            yield
            if how in ('later', 'eagain'):
                r.window = 0
                m.start = t = net.w.now
            if heard:
                yield 10
                m.send(P.msg('pong', nonce=b'12345678'))
            yield span
            ctx.ok(not r.closed, case, 'closed')
            if how == 'eagain':
                r.quota = [0, 0, 3]
            r.window = None
            yield
            pings = [x for x in m.times() if x[1] == 'ping']
            lo = 1 if span > 1800 + 10 + m.slack else 0
            hi = 0 if span < 1800 else int((span + 10 * heard - 1800) // 300) + 1
            ctx.ok(lo <= len(pings) <= hi, case, '%d pings were waiting after %d s without a write' % (len(pings), span))
            m.check()
            if how in ('later', 'eagain') and span < 1800:
                return      # nothing was waiting
            # now it was sent something: quiet for half an hour again
            n = len(pings)
            m.send(P.msg('pong', nonce=b'12345679'))
            yield 1790
            ctx.eq(len([x for x in m.times() if x[1] == 'ping']), n, case, 'pings within half an hour of the last write')
            yield 10 + m.slack
            ctx.eq(len([x for x in m.times() if x[1] == 'ping']), n + 1, case, 'pings after half an hour')
            ctx.state((how, span, heard))
            ctx.trans(4)
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def drip(ctx, oversleep):
    """The kernel takes a little of what waits every now and then: something was sent, so no ping; half an hour after the last of it one."""
    P = lab()
    for gap, size, times, way in itertools.product((250, 700, 1700), (1, 31, 100), (3, 9), ('in', 'out')):
        case = dict(accepted=size, every=gap, times=times, loop=5 * oversleep, way=way)
        ctx.current = case

        def sc(net):
            for x in setup(net, P):
                yield x
            net.w.oversleep = oversleep
            r = connect(net, way, '1.1.1.1', 1000)
            m = Monitor(ctx, net, P, r, case)
            yield
            m.blocked = True
            r.window = 0
            for k in range(40):
                act(m, P, 'local', k)
            for k in range(times):
                yield gap
                r.window = size
                if not k % 3:
                    m.send(P.msg('pong', nonce=b'12345678'))
                yield
                ctx.eq(r.window, 0, case, 'bytes still accepted')
            yield gap
            r.window = None
            yield
            ctx.eq([c for _, c, _ in m.times() if c == 'ping'], ['ping'] * 40, case, 'messages')
            ctx.eq([n for _, c, n in m.times() if c == 'ping'], m.local, case, 'messages sent, without any keep-alive ping')
            yield 1790
            ctx.eq(len(m.times()), 41 + m.answers, case, 'messages within half an hour of the last byte')
            yield 10 + m.slack
            ctx.eq(len(m.times()), 42 + m.answers, case, 'messages after half an hour')
            ctx.state((gap, size, times, way))
            ctx.trans(times)
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def dead(ctx, oversleep):
    """A peer which is silent for three hours is dropped, also while something waits to be sent to it; one heard from is not."""
    P = lab()
    for how, waits, last, way in itertools.product(('zero', 'part', 'free'), ('version', 'ping', 'local', 'many', 'large'), (0, 100, 5000), ('in', 'out')):
        case = dict(blocked=how, waiting=waits, heard_after=last, loop=5 * oversleep, way=way)
        ctx.current = case

        def sc(net):
            for x in setup(net, P):
                yield x
            net.w.oversleep = oversleep
            r = connect(net, way, '1.1.1.1', 1000)
            m = Monitor(ctx, net, P, r, case)
            m.blocked = True
            if waits != 'version':
                yield
            if how != 'free':
                r.window = 0 if how == 'zero' else 30
            m.start = net.w.now
            yield
            if last:
                yield last
                m.send(P.msg('ping', nonce=b'12345678'))
                yield
            if waits == 'many':
                for k in range(300):
                    act(m, P, 'local', k)
            elif waits != 'version':
                act(m, P, 'local' if waits == 'local' else 'ping', 1)
            yield 3500
            if waits == 'large':
                for n in (2, 500, 1, 20000, 60000):
                    peer_of(net, r).send_message(P.protocol.Reject(b'x' * n, 1, b''))
                    yield 30
            ctx.ok(not r.closed, case, 'closed')
            yield 10700 - (net.w.now - m.heard[-1])
            ctx.ok(not r.closed, case, 'closed %.1f s after something was heard' % (net.w.now - m.heard[-1]))
            yield 100 + m.slack
            ctx.ok(r.closed, case, 'still open %.1f s after something was heard' % (net.w.now - m.heard[-1]))
            ctx.ok(peer_of(net, r) is None, case, 'still a peer')
            end = [t for a, t in net.gone if a == r.address][-1]
            ctx.ok(10800 < end - m.heard[-1] <= 10800 + m.slack, case, 'closed %.1f s after something was heard' % (end - m.heard[-1]))
            ctx.state(tuple(sorted(case.items())))
            ctx.trans(3)
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def two(ctx, oversleep, part, parts):
    """Two connections: what happens on one does not count for the other."""
    P = lab()
    acts = ('ping', 'quiet', 'local', 'none')
    for i, (a, b, d1, d2) in enumerate(itertools.product(acts, acts, (700, 1750, 5300, 10700), (30, 400, 1100, 5600))):
        if i % parts != part:
            continue
        case = dict(events=(a, b, d1, d2), loop=5 * oversleep)
        ctx.current = case

        def sc(net):
            for x in setup(net, P):
                yield x
            net.w.oversleep = oversleep
            ms = [Monitor(ctx, net, P, connect(net, w, ip, 1000), case) for w, ip in (('in', '1.1.1.1'), ('out', '1.1.1.2'))]
            yield
            for k in range(2):
                yield d1
                act(ms[0], P, a, k)
                yield
                yield d2
                act(ms[1], P, b, k)
                yield
                for m in ms:
                    m.check()
            yield 1900
            for m in ms:
                m.check()
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def units(tier):
    q = tier == 'quick'
    N = 16
    full = (4, 299, 306, 1795, 1806, 3600, 9000, 10795, 10806)
    short = (301, 1795, 1810, 4000, 7000, 10790, 10860)
    for k in range(N):
        yield ('pace5-%d' % k, timed, (2 if q else 3, full if q else short, ('ping', 'quiet', 'part', 'local', 'none'), 1, 'in', k, N))
        yield ('pace60-%d' % k, timed, (3 if q else 4, short, ('ping', 'quiet', 'local', 'none') if q else ('ping', 'quiet', 'none'), 12, 'out', k, N))
        yield ('two-%d' % k, two, (4, k, N))
    for o in (1, 4):
        yield ('blocked-%d' % o, blocked, (o,))
        yield ('dead-%d' % o, dead, (o,))
        yield ('drip-%d' % o, drip, (o,))
