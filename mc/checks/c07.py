"""C07: the address book."""
import errno
import itertools

from ..nethist import Net, lab
from ..netenv import EPOCH

LEVEL = 'model_checking'
BOUNDS = dict(quick='every sequence of 4 out of 16 events (announcements new, updated, repeated, without services; version, verack, disconnect and reconnect of two peers; time), getaddr from every open peer after each or only at the end; 15 fill levels around 1000 and 2500 x 5 timestamp orders (one around every power of 2^8 and 2^31) x 3 ways of filling, then updates, additions, own addresses and departures; the own address of a peer announced with 7 timestamps x 3 services at 11 places around its handshakes; the book emptied through failing connects',
              thorough='sequences of 5 events; all fill levels 990..1010 and 2490..2510')
ASSUMPTIONS = ['among equal timestamps any order and selection is right', 'a full book ignores new addresses and updates known ones']

A1, A2, A3 = ('9.9.9.1', 1), ('9.9.9.1', 2), ('2001:db8::5', 65535)
PP, QQ, OO = ('1.1.1.1', 1000), ('2.2.2.2', 2000), ('3.3.3.3', 3000)
MAX, ASK = 2500, 1000


def ann(items):
    return [dict(timestamp=t, services=s, address=a[0], port=a[1]) for a, t, s in items]


def key(P, a):
    return (P.R.ip16(a[0]), a[1])


class Book(object):
    """Reference."""

    def __init__(self, P):
        self.P, self.d = P, {}

    def put(self, a, t, s):
        k = key(self.P, a)
        if k in self.d or len(self.d) < MAX:
            self.d[k] = (t, s)

    def drop(self, a):
        self.d.pop(key(self.P, a), None)

    def check(self, ctx, case, reply):
        have = [(dict(x)['address'], dict(x)['port'], dict(x)['timestamp'], dict(x)['services']) for x in reply]
        known = {k: v for k, v in self.d.items() if v[1] is not None}
        times = sorted((v[0] for v in known.values()), reverse=True)[:ASK]
        ctx.ok(len(have) <= ASK, case, '%d addresses in a reply' % len(have))
        for ip, port, t, s in have:
            k = (ip, port)
            ctx.ok(k in known, case, 'reply lists %s:%d which is not known%s' % (ip.hex(), port, ' (services unknown)' if k in self.d else ''))
            ctx.eq((t, s), known[k], case, 'timestamp and services of %s:%d' % (ip.hex(), port))
        ctx.eq(len(set(x[:2] for x in have)), len(have), case, 'different addresses in the reply')
        ctx.eq([x[2] for x in have], times, case, 'timestamps, most recent first')


EVENTS = {
    'p:a1': ('P', [(A1, 10, 1)]), 'q:a1': ('Q', [(A1, 30, 5)]), 'p:a2': ('P', [(A2, 20, 1)]), 'p:a2-0': ('P', [(A2, 25, 0)]), 'q:a3': ('Q', [(A3, 20, 2 ** 63)]),
    'p:many': ('P', [(A1, 5, 1), (A2, 35, 3), (A1, 50, 7)]), 'q:p': ('Q', [(PP, 40, 9)]), 'q:q': ('Q', [(QQ, 45, 2)]), 'q:none': ('Q', []),
    'p:version': None, 'p:verack': None, 'q:version': None, 'q:verack': None, 'p:leave': None, 'p:back': None, 'time': None, 'p:out': None}


def events(ctx, depth, each, part, parts):
    P = lab()
    for i, seq in enumerate(itertools.product(sorted(EVENTS), repeat=depth)):
        if i % parts != part:
            continue
        ctx.current = case = dict(events=seq, asked='each' if each else 'end')
        book = Book(P)

        def sc(net):
            rem = dict(P=net.w.connect(*PP), Q=net.w.connect(*QQ), O=net.w.connect(*OO))
            serv = dict(P=None, Q=None)
            yield
            net.w.policy = lambda a: errno.ECONNREFUSED

            def ask():
                for o in [rem[k] for k in sorted(rem) if not rem[k].closed]:
                    n = len(o.got)
                    o.send(P.msg('getaddr'))
                    yield
                    d = [(c, v) for c, v in P.decode(o.got[n:]) if c not in ('getaddr', 'version', 'verack')]
                    ctx.eq([c for c, _ in d], ['addr'], case, 'answer to getaddr')
                    book.check(ctx, dict(case, asks=o.address), d[0][1]['addr_list'])
            for e in seq:
                ctx.trans()
                if EVENTS[e]:
                    who, items = EVENTS[e]
                    if rem[who].closed:
                        continue
                    rem[who].send(P.msg('addr', addr_list=ann(items)))
                    for a, t, s in items:
                        book.put(a, t, s)
                elif e == 'time':
                    yield 7
                elif e == 'p:leave':
                    if not rem['P'].closed:
                        rem['P'].eof = True
                        book.drop(PP)
                elif e == 'p:back':
                    if rem['P'].closed:
                        rem['P'] = net.w.connect(*PP)
                        serv['P'] = None
                elif e == 'p:out':       # a connect to a known address fails
                    net.node.add_peer(A1)
                    book.drop(A1)
                else:
                    who = e[0].upper()
                    if rem[who].closed:
                        continue
                    a = PP if who == 'P' else QQ
                    if e.endswith('version'):
                        rem[who].send(P.version(services=1 if who == 'P' else 4))
                        serv[who] = 1 if who == 'P' else 4
                    else:
                        rem[who].send(P.VERACK)
                        book.put(a, int(net.w.now), serv[who])
                yield
                if each:
                    for x in ask():
                        yield x
                ctx.state((seq, each, tuple(sorted(book.d.items(), key=repr))))
            for x in ask():
                yield x
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def addrs(n, order, base=0):
    """n announcements; timestamps in several orders."""
    out = []
    for i in range(n):
        j = i + base
        t = {'up': 1000 + j, 'down': 100000 - j, 'same': 5000, 'mixed': 1000 + (j * 7919) % 4001,
             'wide': (0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff00)[j % 10] ^ j // 10 % 3}[order]
        out.append((('10.%d.%d.%d' % (j // 62500, j // 250 % 250, j % 250), 1 + j % 60000), t, 0 if j % 5 == 3 else 1 + j % 7))
    return out


def send(P, r, items, chunk):
    for i in range(0, len(items), chunk):
        r.send(P.msg('addr', addr_list=ann(items[i:i + chunk])))


def fill(ctx, n, order, how):
    P = lab()
    ctx.current = case = dict(addresses=n, order=order, filled=how)
    book = Book(P)

    def sc(net):
        p, q, o = net.w.connect(*PP), net.w.connect(*QQ), net.w.connect(*OO)
        yield

        def ask(what):
            k = len(o.got)
            o.send(P.msg('getaddr'))
            yield
            d = [(c, v) for c, v in P.decode(o.got[k:]) if c != 'getaddr']
            ctx.eq([c for c, _ in d], ['addr'], case, 'answer to getaddr ' + what)
            book.check(ctx, dict(case, after=what), d[0][1]['addr_list'])
            known = getattr(net.node, '_addresses', None)
            ctx.ok(known is None or len(known) <= MAX, case, 'more than %d addresses remembered' % MAX)
            ctx.trans()
            ctx.state((n, order, how, what))
        items = addrs(n, order)
        if how == 'one':
            send(P, p, items, 1000)
        elif how == 'two':
            send(P, p, items[:n // 2], 333)
            yield
            send(P, q, items[n // 2:], 77)
        else:
            send(P, p, items + items[:n // 3], 1000)
            items = items + items[:n // 3]
        for a, t, s in items:
            book.put(a, t, s)
        yield
        for x in ask('filling'):
            yield x
        # own addresses
        q.send(P.version(services=3) + P.VERACK)
        book.put(QQ, int(net.w.now), 3)
        yield
        for x in ask('verack'):
            yield x
        # more: an update of the first, the middle and the last, then new ones
        up = [(items[k][0], 300000 + k, 6) for k in (0, n // 2, n - 1) if n] if n else []
        new = [(('11.0.0.%d' % k, 7), 400000 + k, 1) for k in range(3)]
        for a, t, s in up + new:
            book.put(a, t, s)
        send(P, p, up + new, 1000)
        yield
        for x in ask('updates'):
            yield x
        # places become free
        q.eof = True
        net.w.policy = lambda a: errno.ECONNREFUSED
        gone = [items[k][0] for k in (1, n // 2, n - 1)] if n > 3 else []
        for a in gone:
            net.node.add_peer(a)
            book.drop(a)
        yield
        book.drop(QQ)
        for x in ask('departures'):
            yield x
        new = [(('12.0.0.%d' % k, 7), 500000 + k, 1) for k in range(6)] + [(('11.0.0.1', 7), 1, 0)]
        for a, t, s in new:
            book.put(a, t, s)
        send(P, p, new, 1000)
        p.send(P.version(services=1) + P.VERACK)
        book.put(PP, int(net.w.now), 1)
        yield
        for x in ask('additions'):
            yield x
    ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
    ctx.trace()


def drain(ctx, n):
    """The number of remembered addresses, counted by connecting to each (all fail, and are forgotten)."""
    P = lab()
    ctx.current = case = dict(addresses=n)

    def sc(net):
        net.w.policy = lambda a: errno.ECONNREFUSED
        p = net.w.connect(*PP)
        yield
        items = addrs(n, 'mixed')
        send(P, p, items, 1000)
        p.send(P.msg('getaddr'))
        yield
        for k in range(min(n, MAX) // 5 + 3):
            yield 15
        tried = [a for t, a, o in net.w.attempts]
        ctx.ok(len(tried) <= MAX, case, '%d addresses were remembered' % len(tried))
        ctx.eq(len(set(tried)), len(tried), case, 'addresses forgotten after a failed connect: different ones of all attempts')
        ctx.eq(sorted(tried), sorted(a for a, t, s in items[:MAX]), case, 'remembered addresses')
        ctx.trans(len(tried))
        ctx.state(n)
    ctx.ok(Net(log=None, seek=6).run(sc).done, case, 'the event loop stopped')
    ctx.trace()


def heard(ctx):
    """A peer's own address: whatever was announced about it, the handshake says when it was heard of and what it serves."""
    P = lab()
    for t, s, order in itertools.product((0, EPOCH - 1, EPOCH, EPOCH + 2, EPOCH + 3600, 1 << 31, 0xffffffff), (0, 1, 9), ('aVK', 'VaK', 'VKa', 'aVKVK', 'VKaVK', 'VKaK', 'aVtK', 'VtKtK', 'VKta', 'aaVK', 'VKVtK')):
        ctx.current = case = dict(announced=(t, s), order=order)
        book = Book(P)

        def sc(net):
            q, o = net.w.connect(*QQ), net.w.connect(*OO)
            p = net.w.connect(*PP)
            yield
            serv = None
            for k, c in enumerate(order):
                if c == 'a':
                    q.send(P.msg('addr', addr_list=ann([(PP, t, s)])))
                    book.put(PP, t, s)
                elif c == 'V':
                    serv = 1 + 4 * k
                    p.send(P.version(services=serv))
                elif c == 'K':
                    p.send(P.VERACK)
                    book.put(PP, int(net.w.now), serv)
                else:
                    yield 5
                yield
                n = len(o.got)
                o.send(P.msg('getaddr'))
                yield
                d = [v for c, v in P.decode(o.got[n:]) if c == 'addr']
                ctx.eq(len(d), 1, case, 'answers to getaddr')
                book.check(ctx, dict(case, at=k), d[0]['addr_list'])
                ctx.trans()
            ctx.state((t, s, order))
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def fills(ctx, jobs):
    for j in jobs:
        fill(ctx, *j)


def units(tier):
    N = 8
    for d in (1, 2, 3):
        yield ('events%d' % d, events, (d, True, 0, 1))
    d = 4 if tier == 'quick' else 5
    for each in ((False,) if tier == 'quick' else (False, True)):
        for k in range(2 * N):
            yield ('events%d-%s-%d' % (d, each, k), events, (d, each, k, 2 * N))
    levels = [0, 1, 2, 998, 999, 1000, 1001, 1999, 2497, 2498, 2499, 2500, 2501, 2504, 3500]
    if tier != 'quick':
        levels = sorted(set(levels) | set(range(990, 1011)) | set(range(2490, 2511)) | {2600, 4999, 5000, 5001})
    jobs = [(n, o, h) for n in levels for o in ('up', 'down', 'same', 'mixed', 'wide') for h in ('one', 'two', 'again')]
    for k in range(2 * N):
        yield ('fill-%d' % k, fills, (jobs[k::2 * N],))
    for n in (3, 2499, 2500, 2501, 3100):
        yield ('drain-%d' % n, drain, (n,))
    yield ('heard', heard, ())
