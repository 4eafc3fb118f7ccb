"""C08: penalties, forgiveness, bans."""
import itertools

from ..nethist import Net, lab, peer_of

LEVEL = 'model_checking'
BOUNDS = dict(quick='every history of 12 punishments/heartbeats of one peer, 8 of two peers of the same and of different IPs, incoming and outgoing; penalties of several points; after a ban every sequence of 3 out of 12 (time step, connect from same/other port, other IP, second ban), with the hour at 1 s resolution around its end; 20 to 257 peers with different points at once; peers which share an address with the node or tell it any external address',
              thorough='histories of 16, 10; sequences of 4')
ASSUMPTIONS = ['the instant of exactly one hour is not tested', 'heartbeats are counted by the getaddr messages they send']


def beats(net, P):
    return sum(P.commands(r.got).count('getaddr') for r in net.w.remotes)


IPA = '1.1.1.1'


def score(ctx, kinds, depth, way, part, parts):
    """A: punish the first peer, B: the second one (same IP), C: one of another IP, H: wait for a heartbeat, 3: a penalty of 3 points for A, R: reduce A."""
    P = lab()
    for i, seq in enumerate(itertools.product(kinds, repeat=depth)):
        if i % parts != part:
            continue
        case = dict(events=''.join(seq), way=way)
        ctx.current = case

        def sc(net):
            rem = {}
            yield
            for k, a in (('A', (IPA, 1000)), ('B', (IPA, 1001)), ('C', ('1.1.1.2', 1000))):
                if k not in 'A' + ''.join(kinds):
                    continue
                if way == 'in':
                    rem[k] = net.w.connect(*a)
                else:
                    net.node.add_peer(a)
                    rem[k] = net.w.remotes[-1]
                yield
            sc_ = dict.fromkeys(rem, 0)
            open_ = dict.fromkeys(rem, True)
            done = beats(net, P)
            for n, e in enumerate(seq):
                p = peer_of(net, rem[e if e in rem else 'A'])
                if e in rem:
                    if not open_[e]:
                        continue
                    net.node.punish_peer(p, 'test')
                    sc_[e] += 1
                    if sc_[e] > 5:
                        open_[e] = False
                elif e == '3':
                    if not open_['A']:
                        continue
                    p.add_banscore(3)
                    sc_['A'] += 3
                elif e == 'R':
                    if not open_['A']:
                        continue
                    p.reduce_banscore(2)
                    sc_['A'] = max(0, sc_['A'] - 2)
                else:
                    yield 10.5
                yield
                b = beats(net, P)
                for k in sc_:
                    sc_[k] = max(0, sc_[k] - (b - done))
                if e == 'H' and any(open_.values()):
                    ctx.ok(b > done, case, 'no heartbeat for more than ten seconds')
                done = b
                for k in rem:
                    ctx.eq(not rem[k].closed, open_[k], dict(case, at=n), 'peer %s with %d points connected' % (k, sc_[k]))
                    if open_[k]:
                        ctx.eq(peer_of(net, rem[k]).banscore, sc_[k], dict(case, at=n), 'points of peer %s' % k)
                ctx.trans()
                ctx.state((kinds, way, tuple(sorted(sc_.items())), tuple(sorted(open_.items()))))
            banned = {rem[k].address[0] for k in rem if not open_[k]}
            for ip in (IPA, '1.1.1.2', '1.1.1.3'):
                for port in (1000, 1001, 7):
                    if any(open_[k] and rem[k].address == (ip, port) for k in rem):
                        continue
                    r = net.w.connect(ip, port)
                    yield
                    ctx.eq(r.closed, ip in banned, case, 'connection from %s:%d refused' % (ip, port))
                    ctx.eq(bool(r.got), ip not in banned, case, 'anything sent to %s:%d' % (ip, port))
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()
        ctx.distinct()


STEPS = ['same', 'port', 'other', 'reban', 'b', '+1', '+1800', '+3598', '+3599.5', '+3600.5', '+3602', '+7200']


def after(ctx, depth, way, part, parts):
    """What happens to connections after a ban."""
    P = lab()
    for i, seq in enumerate(itertools.product(STEPS, repeat=depth)):
        if i % parts != part:
            continue
        case = dict(events=seq, way=way)
        ctx.current = case

        def sc(net):
            yield
            net.w.policy = lambda a: way if way != 'in' else 'accept'

            def conn(ip, port):
                if way == 'in':
                    return net.w.connect(ip, port)
                net.node.add_peer((ip, port))
                return net.w.remotes[-1]
            first, second = conn(IPA, 1000), net.w.connect(IPA, 2000)
            for r in (first, second):
                r.send(P.version() + P.VERACK)
            yield
            bans = {}
            port = [3000]
            live = [second]

            def ban(r):
                p = peer_of(net, r)
                for k in range(6):
                    net.node.punish_peer(p, 'test')
                bans[r.address[0]] = net.w.now
                if r in live:
                    live.remove(r)
                yield
                ctx.ok(r.closed, case, 'a peer with 6 points is still connected')

            def attempt(ip, prt):
                ref = net.w.now - bans.get(ip, -1e9) < 3600
                r = net.w.connect(ip, prt)
                yield
                ctx.eq(r.closed, ref, case, '%.1f s after the ban: connection from %s:%d refused' % (net.w.now - bans.get(ip, 0), ip, prt))
                if not ref:
                    ctx.eq(P.commands(r.got)[:1], ['version'], case, 'greeting')
                    live.append(r)
                ctx.trans()
            for x in ban(first):
                yield x
            for e in seq + ('port', 'other'):
                if e == 'same':
                    if not any(r.address == (IPA, 1000) for r in live):
                        for x in attempt(IPA, 1000):
                            yield x
                elif e in ('port', 'other'):
                    port[0] += 1
                    for x in attempt(IPA if e == 'port' else '1.1.1.%d' % (port[0] % 200 + 2), port[0]):
                        yield x
                elif e in ('reban', 'b'):
                    c = [r for r in live if (r is second) == (e == 'b') and r.address[0] == IPA]
                    if c:
                        for x in ban(c[-1]):
                            yield x
                else:
                    for r in live:      # nobody shall be dropped for silence
                        r.send(P.VERACK)
                    yield float(e[1:])
                for r in live:
                    ctx.ok(not r.closed, case, '%s:%d was disconnected' % r.address)
                ctx.state((seq, len(live), round(net.w.now - bans[IPA])))
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def told(ctx):
    """Whatever a peer says about our address, and whoever is the peer, six points are a ban."""
    P = lab()
    own = ('10.9.8.7', 20303)
    for ip, seen, way, when, heart in itertools.product((IPA, own[0], '127.0.0.1', '0.0.0.0'), (IPA, own[0], '9.9.9.9', '127.0.0.1'), ('in', 'out'), ('hello', 'late', 'nothing'), (False, True)):
        ctx.current = case = dict(peer=ip, sees_us_as=seen, way=way, version=when, heartbeat=heart)

        def sc(net):
            net.w.policy = lambda a: 'accept'
            yield
            if way == 'in':
                r = net.w.connect(ip, 1000)
            else:
                net.node.add_peer((ip, 1000))
                r = net.w.remotes[-1]
            yield
            if when == 'hello':
                r.send(P.version(seen=seen) + P.VERACK)
                yield
            if heart:
                yield 16
            p = peer_of(net, r)
            for k in range(6):
                ctx.ok(not r.closed and p in net.node.peers, case, 'closed with %d points' % k)
                if k == 3 and when == 'late':
                    r.send(P.version(seen=seen))
                    yield
                net.node.punish_peer(p, 'test')
                ctx.trans()
            yield
            ctx.ok(r.closed, case, 'connected with six points')
            for a in ((ip, 1000), (ip, 1001), ('8.8.4.4', 1000), (seen, 1002)):
                n = net.w.connect(*a)
                yield
                ctx.eq((n.closed, bool(n.got)), (a[0] == ip, a[0] != ip), dict(case, then=a), 'refused, greeted')
            ctx.state(tuple(case.values()))
        ctx.ok(Net(listen=own, log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def several(ctx):
    """Bans of many addresses, each with its own hour."""
    P = lab()
    for step in (1, 60, 601):
        case = dict(bans=40, apart=step)

        def sc(net):
            when = {}
            yield
            for k in range(40):
                r = net.w.connect('1.2.3.%d' % k, 1000)
                yield
                for j in range(6):
                    net.node.punish_peer(peer_of(net, r), 'test')
                when[r.address[0]] = net.w.now
                yield step
            for t in range(60):
                for ip in sorted(when):
                    if abs(net.w.now - when[ip] - 3600) < .01:
                        continue
                    r = net.w.connect(ip, 2000 + t)
                    yield
                    ref = net.w.now - when[ip] < 3600
                    ctx.eq(r.closed, ref, case, '%.1f s after the ban: connection from %s refused' % (net.w.now - when[ip], ip))
                    r.eof = True
                    ctx.trans()
                yield 97
                ctx.state((step, t))
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def many(ctx, n, apart):
    """So many addresses are banned, all of them stay so."""
    P = lab()
    case = dict(bans=n, apart=apart)
    ctx.current = case

    def sc(net):
        when = {}
        yield
        for k in range(n):
            r = net.w.connect('1.%d.%d.3' % (2 + k // 200, k % 200), 1000)
            yield
            for j in range(6):
                net.node.punish_peer(peer_of(net, r), 'test')
            when[r.address[0]] = net.w.now
            yield apart
        for k, ip in enumerate(list(when) * 2):
            r = net.w.connect(ip, 2000 + k)
            yield
            if abs(net.w.now - when[ip] - 3600) > .01:
                ctx.eq(r.closed, net.w.now - when[ip] < 3600, case, '%.1f s after the ban: connection from %s (number %d) refused' % (net.w.now - when[ip], ip, k % n))
            r.eof = True
            yield 3 if k < n else 30
            ctx.trans()
            ctx.state((n, apart, k))
    ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
    ctx.trace()


def crowd(ctx):
    """Every peer of many is forgiven one point per heartbeat, and dropped on its own account."""
    P = lab()
    for n in (20, 101, 130, 257):
        ctx.current = case = dict(peers=n)

        def sc(net):
            rem = []
            yield
            for k in range(n):
                rem.append(net.w.connect('1.2.%d.%d' % (k // 250, k % 250), 1000 + k))
                if k % 4 == 3:
                    yield
            yield 16
            peers = [peer_of(net, r) for r in rem]
            for k, p in enumerate(peers):
                for j in range(k % 6):
                    net.node.punish_peer(p, 'test')
            pts = [k % 6 for k in range(n)]
            for h in range(7):
                b = beats(net, P)
                yield 16
                b = beats(net, P) - b
                pts = [max(0, x - b) for x in pts]
                for k, p in enumerate(peers):
                    ctx.eq(p.banscore, pts[k], dict(case, peer=k, heartbeat=h), 'points')
                if h == 2:
                    for k in range(0, n, 7):
                        while pts[k] < 5:
                            net.node.punish_peer(peers[k], 'test')
                            pts[k] += 1
                ctx.ok(b >= 1, case, 'no heartbeat in 16 s')
                ctx.trans(n)
                ctx.state((n, h))
            for k in range(0, n, 5):
                for j in range(6 - pts[k]):
                    ctx.ok(not rem[k].closed, dict(case, peer=k), 'closed with %d points' % (pts[k] + j))
                    net.node.punish_peer(peers[k], 'test')
                ctx.ok(peers[k] not in net.node.peers, dict(case, peer=k), 'still there with six points')
            yield
            for k, r in enumerate(rem):
                ctx.eq(r.closed, k % 5 == 0, dict(case, peer=k), 'closed')
                ctx.trans()
        ctx.ok(Net(log=None, max_peers=300).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def units(tier):
    q = tier == 'quick'
    for k in range(4):
        yield ('one-%d' % k, score, ('AH', 12 if q else 16, 'in', k, 4))
        yield ('same-%d' % k, score, ('ABH', 8 if q else 10, 'in', k, 4))
        yield ('other-%d' % k, score, ('ACH', 8 if q else 10, 'in', k, 4))
        yield ('points-%d' % k, score, ('A3HR', 6 if q else 8, 'in', k, 4))
    for k in range(2):
        yield ('out-%d' % k, score, ('ABCH', 6 if q else 8, 'out', k, 2))
        yield ('long-%d' % k, score, ('A', 7, ('in', 'out')[k], 0, 1))
    for way in ('in', 'accept'):
        for k in range(8):
            yield ('after-%s-%d' % (way, k), after, (3 if q else 4, way, k, 8))
    yield ('several', several, ())
    for n, apart in ((130, 1), (300, 2)) if q else ((130, 1), (300, 2), (130, 20), (1100, 1)):
        yield ('many-%d-%d' % (n, apart), many, (n, apart))
    yield ('crowd', crowd, ())
    yield ('told', told, ())
