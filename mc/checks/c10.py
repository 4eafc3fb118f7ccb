"""C10: outbound connections."""
import errno
import itertools

from ..nethist import Net, lab
from ..explore import choices

LEVEL = 'model_checking'
OWN = ('10.9.8.7', 20303)
BOUNDS = dict(quick='1150 configurations (seek 0..7, known addresses 0..7 with the own and connected ones among them, 0..3 bootstrap addresses) x 5 connect results x every outcome of the first 5 random choices, 3 rounds each; every sequence of 4 out of 12 events (round, announcements, departures, forced and unforced adds) x 6 limits; 17 addresses which share the host or the port with others, alone and in pairs; 1 or 2 bootstrap addresses tried again after every pair of 8 ends of a connection to them; 10 to 125 known and connected addresses with another one announced; add_peer for 20 targets x 8 connect results x limits x forced',
              thorough='3900 configurations, the first 12 choices; sequences of 5 events')
ASSUMPTIONS = ['the functions of the random module return any value of their range (200 cases of the bootstrap lottery taken as two)', 'a node bound to a particular address: the own address is that one']


class Watch(object):
    """Checks every outbound attempt the node makes by itself."""

    def __init__(self, ctx, net, case, seek, known, seeds):
        self.ctx, self.net, self.case, self.seek, self.known, self.seeds = ctx, net, case, seek, set(known), set(seeds)
        self.rounds = []
        self.manual = False
        self.n = 0
        policy = net.w.policy

        def attempt(address):
            out = policy(address)
            if not self.manual:
                self.rounds.append((net.w.now, address, self.open(), set(self.connected()), out))
            return out
        net.w.policy = attempt

    def open(self):
        return len([r for r in self.net.w.remotes if not r.closed])

    def connected(self):
        return {r.address for r in self.net.w.remotes if not r.closed}

    def check(self, before):
        """Attempts since the last call are one round which started with that many peers."""
        ctx, case = self.ctx, self.case
        new, self.n = self.rounds[self.n:], len(self.rounds)
        ctx.ok(len(new) <= min(5, max(0, self.seek - before)), case, '%d connects in a round with %d of %d peers' % (len(new), before, self.seek))
        ctx.ok(len({t for t, *_ in new}) <= 1, case, 'several rounds within ten seconds')
        for t, a, n, conn, out in new:
            ctx.ok(n < self.seek, case, 'connect to %s:%d with %d peers of %d' % (a + (n, self.seek)))
            ctx.ok(a in self.known or a in self.seeds, case, 'connect to the unknown address %s:%d' % a)
            ctx.ok(a not in conn, case, 'connect to %s:%d which is connected' % a)
            ctx.ok(a != OWN, case, 'connect to the own address')
        ctx.trans(len(new) + 1)
        return new


POLICIES = ('accept', 'immediate', 'refuse', 'hang', 'error', 'mixed')


def policy(name):
    if name == 'error':
        return lambda a: errno.EHOSTUNREACH
    if name == 'mixed':
        return lambda a: (errno.ECONNREFUSED, 'accept', 'refuse')[a[1] % 3]
    return lambda a: name


KNOWN = [('7.0.0.%d' % k, 7000 + k) for k in range(9)]
SEEDS = [[], [('6.0.0.1', 6001)], [('6.0.0.1', 6001), OWN], [OWN], [('6.0.0.1', 6001), ('6.0.0.2', 6002), KNOWN[1]]]


def lottery(choose):
    def f(n, what):
        if what in ('randint', 'randrange', 'random') and n > 1:
            return choose(2 if n > 20 else n, what)
        return 0
    return f


def announce(P, r, addresses):
    if addresses:
        r.send(P.msg('addr', addr_list=[dict(timestamp=1000 + k, services=1, address=a[0], port=a[1]) for k, a in enumerate(addresses)]))


def rounds(ctx, part, parts):
    P = lab()
    i = 0
    sizes = ((0, 1, 2, 5, 6, 7), (0, 1, 2, 6, 8)) if ctx.thorough else ((0, 1, 2, 7), (0, 1, 2, 7))
    for seek, nknown, own, nconn, seeds, pol in itertools.product(*(sizes + ((None, 0, 1), (0, 1), range(len(SEEDS)), POLICIES if ctx.thorough else POLICIES[1:]))):
        if nconn > nknown or (own is not None and own > nknown):
            continue
        i += 1
        if i % parts != part:
            continue
        known = KNOWN[:nknown]
        if own is not None:
            known.insert(own, OWN)
        case = dict(seek=seek, known=known, connected=nconn, seeds=SEEDS[seeds], connects=pol)

        def run(choose):
            picks = []

            def sc(net):
                net.w.policy = lambda a: 'accept'
                h = net.w.connect('99.9.9.9', 9)
                yield
                for k in range(nconn):
                    net.node.add_peer(KNOWN[k])
                if (seek + nknown) % 3 != 1:
                    h.send(P.version(seen='99.1.1.1'))      # the peer sees us under another address
                    yield
                announce(P, h, known)
                yield
                net.w.policy = policy(pol)
                watch = Watch(ctx, net, case, seek, known, SEEDS[seeds])
                net.w.choose = lottery(lambda n, what: picks.append(choose(n, what)) or picks[-1])
                for k in range(3):
                    before = watch.open()
                    free = [a for a in watch.known if a not in watch.connected() and a != OWN]
                    if k == (2 if ctx.thorough else 1):
                        net.w.choose = lambda n, what: 0
                    yield 10.5 if k else 16
                    new = watch.check(before)
                    if before < seek and not seeds and not any(picks):
                        ctx.eq(bool(new), bool(free), case, 'attempts in round %d with %d other addresses known' % (k, len(free)))
                    if before < seek and not watch.known and SEEDS[seeds] == [('6.0.0.1', 6001)] and ('6.0.0.1', 6001) not in watch.connected() and before == watch.open():
                        ctx.ok(new, case, 'no attempt though a bootstrap address is there')
                    for t, a, n, conn, out in new:
                        if isinstance(out, int) or out == 'refuse':
                            watch.known.discard(a)
                    if seek > before and not seeds and not any(picks) and pol in ('accept', 'immediate', 'hang'):
                        ctx.eq(len(new), min(5, seek - before, len(free)), case, 'attempts in round %d' % k)
            net = Net(listen=OWN, seek=seek, bootstrap=True, seeds=SEEDS[seeds], log=None).run(sc)
            ctx.ok(net.done, case, 'the event loop stopped')
            ctx.trace()
            ctx.state((sorted(case.items()), tuple(picks)))
        for c in choices(run, 100000, 12 if ctx.thorough else 5):
            pass


EVENTS = ['round', 'short', 'ann1', 'ann3', 'annown', 'told', 'leave', 'in', 'add', 'add-soft', 'add-fail', 'add-known']


def events(ctx, depth, part, parts):
    P = lab()
    i = 0
    for (seek, mx), boot, seq in itertools.product(((0, 2), (2, 2), (3, 2), (2, 5), (1, 1), (6, 125)), (False, True), itertools.product(EVENTS, repeat=depth)):
        i += 1
        if i % parts != part or (boot and i // parts % 4):
            continue
        case = dict(seek=seek, max_peers=mx, bootstrap=boot, events=seq)
        ctx.current = case

        def sc(net):
            node, w = net.node, net.w
            seeds = [('6.0.0.1', 6001)]
            w.policy = lambda a: 'accept'
            watch = Watch(ctx, net, case, seek, [], seeds if boot else [])
            port = [100]
            h = w.connect('99.9.9.9', 9)
            yield
            watch.check(0)
            for e in seq + ('round',):
                before = watch.open()
                if e == 'round':
                    yield 10.5
                elif e == 'short':
                    yield 4
                elif e.startswith('ann'):
                    a = dict(ann1=[KNOWN[0]], ann3=KNOWN[1:4], annown=[OWN])[e]
                    if not h.closed:
                        announce(P, h, a)
                        watch.known |= set(a)
                elif e == 'told':         # a peer says how it sees us
                    if not h.closed:
                        h.send(P.version(seen='99.1.1.1'))
                elif e == 'leave':
                    for r in w.remotes:
                        if r is not h and not r.closed:
                            r.eof = True
                            watch.known.discard(r.address)
                            break
                elif e == 'in':
                    port[0] += 1
                    r = w.connect('5.5.5.5', port[0])
                    yield
                    ctx.eq(r.closed, before >= mx, case, 'incoming connection with %d of %d peers refused' % (before, mx))
                else:
                    port[0] += 1
                    target = KNOWN[0] if e == 'add-known' else ('4.4.4.4', port[0])
                    force = e != 'add-soft'
                    n = watch.open()
                    dup = target in watch.connected()
                    watch.manual = True
                    pol, w.policy = w.policy, (lambda a: errno.ENETUNREACH) if e == 'add-fail' else w.policy
                    res = node.add_peer(target, force)
                    w.policy = pol
                    watch.manual = False
                    want = not dup and e != 'add-fail'
                    if not force and n >= mx:
                        want = False
                    if force or n + 1 < mx or n >= mx:     # the last place may be kept free
                        ctx.eq(bool(res), want, case, 'result of adding a peer with %d of %d' % (n, mx))
                    ctx.eq(bool(res), watch.open() == n + 1, case, 'result of adding a peer, and one more connection')
                    ctx.ok(force or watch.open() <= max(mx, n), case, '%d peers of at most %d after an unforced add' % (watch.open(), mx))
                    if e == 'add-known' and not dup and not res:
                        watch.known.discard(target)
                yield
                watch.check(before)
                ctx.state((seek, mx, boot, seq))
        net = Net(listen=OWN, seek=seek, max_peers=mx, bootstrap=boot, seeds=[('6.0.0.1', 6001)], log=None).run(sc)
        ctx.ok(net.done, case, 'the event loop stopped')
        ctx.trace()


TARGETS = [('1.2.3.4', 80), ('1.2.3.4', 0), ('1.2.3.4', 65535), ('1.2.3.4', 65536), ('1.2.3.4', -1), ('host.example', 80), ('localhost', 80), ('', 80), ('1.2.3', 80), ('999.1.1.1', 80), ('::1', 80),
           ('1.2.3.4', '80'), ('1.2.3.4', None), (None, 80), ('8.8.8.8', 53), ('5.5.5.5', 555), ('5.5.5.5', 556), ('0.0.0.0', 1), ('255.255.255.255', 1), OWN]


def adding(ctx):
    P = lab()
    for target, pol, force, mx, emfile in itertools.product(TARGETS, POLICIES[:5] + ('exception',), (True, False), (0, 1, 2, 3), (False, True)):
        case = dict(target=target, connect=pol, force=force, max_peers=mx, no_socket=emfile)
        ctx.current = case

        def sc(net):
            node, w = net.node, net.w
            w.policy = lambda a: 'accept'
            yield
            node.add_peer(('5.5.5.5', 555))
            yield
            n = len(node.peers)
            fds = len(w.fds)
            w.policy = policy(pol)
            if pol == 'exception':
                def boom(a):
                    raise ValueError('no such thing')
                w.policy = boom
            if emfile:
                w.fail['socket'] = [errno.EMFILE]
            res = node.add_peer(target, force)
            w.fail.clear()
            made = len(node.peers) - n
            ctx.eq(bool(res), made == 1, case, 'result, with %d new connections' % made)
            ctx.eq(len(w.fds) - fds, made, case, 'new sockets')
            ctx.ok(made in (0, 1) and (force or len(node.peers) <= max(mx, n)), case, '%d peers' % len(node.peers))
            if emfile or pol in ('error', 'exception') or target == ('5.5.5.5', 555):
                ctx.eq(made, 0, case, 'connections')
            elif target in (('1.2.3.4', 80), ('8.8.8.8', 53), ('5.5.5.5', 556)) and (force or n + 1 < mx):
                ctx.eq(made, 1, case, 'connections')
            yield
            late = made and pol == 'refuse'
            ctx.eq(len(node.peers), n + (0 if late else made), case, 'peers afterwards')
            yield 30
            ctx.trans(2)
        net = Net(listen=OWN, max_peers=mx, log=None).run(sc)
        ctx.ok(net.done, case, 'the event loop stopped')
        ctx.trace()
        ctx.state(case)


LIKE = [('7.7.7.7', OWN[1]), (OWN[0], OWN[1] + 1), (OWN[0], 1), ('99.9.9.9', 10), ('99.9.9.9', OWN[1]), ('5.5.5.5', 556), ('5.5.5.5', OWN[1]), ('7.7.7.7', 555), ('10.9.8.70', OWN[1]), ('7.7.7.7', 1), ('7.7.7.7', 65535),
        ('8.1.1.1', 7001), ('127.0.0.1', OWN[1]), ('127.0.0.1', 5), ('192.168.1.1', OWN[1]), ('0.0.0.1', 8333), ('223.255.255.255', 9)]


def like(ctx):
    """Only the very address counts: one which shares the host or the port with the node, its external address, a peer or a neighbour is tried."""
    P = lab()
    for first, second, services, age, told in itertools.product(range(len(LIKE)), (None,) + tuple(range(0, len(LIKE), 3)), (0, 1), (0, 1 << 31), ('8.1.1.1', '10.9.8.7')):
        known = [LIKE[first]] + ([LIKE[second]] if second not in (None, first) else [])
        case = dict(known=known, services=services, age=age, external=told)
        ctx.current = case

        def sc(net):
            w = net.w
            w.policy = lambda a: 'accept'
            h = w.connect('99.9.9.9', 9)
            yield
            net.node.add_peer(('5.5.5.5', 555))
            h.send(P.msg('version', version=70001, services=1, timestamp=0, addr_recv=dict(timestamp=0, services=1, address=told, port=OWN[1]), addr_from=dict(timestamp=0, services=1, address='99.9.9.9', port=9), nonce=b'12345678', user_agent=b'', start_height=1, relay=1))
            h.send(P.msg('addr', addr_list=[dict(timestamp=age + k, services=services, address=a[0], port=a[1]) for k, a in enumerate(known)]))
            yield
            w.choose = lambda n, what: 0
            n = len(w.attempts)
            yield 16
            tried = [a for t, a, o in w.attempts[n:]]
            ctx.eq(sorted(tried), sorted(known), case, 'addresses tried')
            ctx.trans(len(tried))
        net = Net(listen=OWN, seek=8, bootstrap=False, log=None).run(sc)
        ctx.ok(net.done, case, 'the event loop stopped')
        ctx.trace()
        ctx.state(case)


def pace(ctx):
    """Rounds are at least ten seconds apart, and keep coming, at any pace of the loop."""
    P = lab()
    for over, busy in itertools.product((.1, 1, 3), (0, 1, 3, 7)):
        case = dict(loop=5 * over, traffic_every=busy)

        def sc(net):
            net.w.oversleep = over
            net.w.policy = lambda a: errno.ECONNREFUSED
            h = net.w.connect('99.9.9.9', 9)
            announce(P, h, [('7.1.%d.%d' % (k // 200, k % 200), 5) for k in range(400)])
            start = net.w.now
            for k in range(60):
                if busy:
                    h.send(P.VERACK)
                yield busy or 7
            times = sorted({t for t, a, o in net.w.attempts})
            for a, b in zip(times, times[1:]):
                ctx.ok(b - a >= 10, case, 'rounds %.2f s apart' % (b - a))
                ctx.ok(b - a <= 10 + 5 * over + 3, case, 'rounds %.2f s apart' % (b - a))
            ctx.ok(len(times) >= (net.w.now - start) / (15 + 5 * over) - 1, case, '%d rounds in %d s' % (len(times), net.w.now - start))
            for t in times:
                ctx.ok(len([1 for x, a, o in net.w.attempts if x == t]) <= 5, case, 'more than five in a round')
            ctx.trans(len(times))
            ctx.state((over, busy))
        net = Net(listen=OWN, seek=100, log=None).run(sc)
        ctx.ok(net.done, case, 'the event loop stopped')
        ctx.trace()


def crowd(ctx):
    """However many are known and connected, another address is tried; however many are known, all are, in the end."""
    P = lab()
    for n, back in itertools.product((10, 63, 64, 65, 99, 100, 101, 125), (0, 1)):
        ctx.current = case = dict(connected=n, answers=('accept', 'immediate')[back])

        def sc(net):
            w = net.w
            w.policy = lambda a: case['answers']
            h = w.connect('99.9.9.9', 9)
            yield
            book = [('7.1.%d.%d' % (k // 200, k % 200 + 1), 70 + k) for k in range(n)]
            announce(P, h, book)
            for k in range(2 * (n // 5 + 4)):
                yield 10.5
                for r in w.remotes:
                    if not r.closed:
                        r.send(P.VERACK)
                if len([r for r in w.remotes if not r.closed]) == n + 1:
                    break
            ctx.eq(sorted(a for t, a, o in w.attempts), sorted(book), case, 'addresses tried')
            ctx.trans(n)
            for last in (('8.8.8.8', 8), ('6.6.6.6', 70), ('9.8.8.8', 9)):
                announce(P, h, [last])
                yield 16
                ctx.eq([a for t, a, o in w.attempts[n:]][-1:], [last], case, 'address tried with all others connected')
                ctx.trans()
            ctx.eq(len(w.attempts), n + 3, case, 'attempts')
        net = Net(listen=OWN, seek=130, max_peers=140, log=None).run(sc)
        ctx.ok(net.done, case, 'the event loop stopped')
        ctx.trace()
        ctx.state(case)


def seeds(ctx):
    """The bootstrap list stays what it is, whatever becomes of the connections to it."""
    P = lab()
    for n, fates in itertools.product((1, 2), itertools.product(('refused', 'error', 'left', 'reset', 'banned', 'removed', 'silent', 'garbage'), repeat=2)):
        ctx.current = case = dict(seeds=n, fates=fates)
        first = [('6.0.0.1', 6001), ('6.0.0.2', 6002)][:n]

        def sc(net):
            w, node = net.w, net.node
            w.policy = policy('error')
            yield
            for k, fate in enumerate(fates + ('left',)):
                w.policy = policy(dict(refused='refuse', error='error').get(fate, 'accept'))
                at = len(w.attempts)
                w.choose = lambda m, what: k % m if m <= 20 else 0       # every member of the list in turn
                yield 11 if k else 16
                tried = [a for t, a, o in w.attempts[at:]]
                ctx.eq(tried[:1], [first[k % n]], dict(case, round=k), 'bootstrap address tried')
                ctx.ok(set(tried) <= set(first), case, 'attempts %s' % tried)
                ctx.trans()
                for r in [r for r in w.remotes if not r.closed]:
                    if fate in ('left', 'reset'):
                        setattr(r, dict(left='eof', reset='reset')[fate], True)
                    elif fate == 'banned':
                        for p in [p for p in node.peers if p.address == r.address]:
                            for _ in range(6):
                                node.punish_peer(p)
                    elif fate == 'garbage':
                        r.send(b'garbage' * 9)
                        yield 1
                        r.eof = True
                    elif fate == 'silent':
                        yield 31
                        r.eof = True
                    elif fate == 'removed':
                        node.remove_peer(r.address)
                yield .01
            ctx.state((n, fates))
        net = Net(listen=OWN, seek=1, bootstrap=True, seeds=first, log=None).run(sc)
        ctx.ok(net.done, case, 'the event loop stopped')
        ctx.trace()


def units(tier):
    q = tier == 'quick'
    for k in range(16):
        yield ('rounds-%d' % k, rounds, (k, 16))
        yield ('events-%d' % k, events, (4 if q else 5, k, 16))
    yield ('adding', adding, ())
    yield ('pace', pace, ())
    yield ('like', like, ())
    yield ('crowd', crowd, ())
    yield ('seeds', seeds, ())
