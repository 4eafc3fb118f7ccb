"""C13: logging has no influence; everything can be printed."""
import errno
import hashlib
import io
import itertools

from ..nethist import Net, lab, kinds, peer_of

LEVEL = 'model_checking'
BOUNDS = dict(quick='every boundary value of every field of all message types (21 types, up to 600 values each), received and sent, and histories of 3 out of 16 events, under 11 log settings (levels 0..4 and beyond, no log, logs which fail in different ways, closed and ASCII-only logs) against the silent node; backlogs of 0 to 3 MB in one or many messages under 3 windows; str() and debug text of each message, parsed and built with lists, tuples, and positional arguments',
              thorough='histories of 4 events, all settings for every value')
ASSUMPTIONS = ['the text of the log is not specified']


class Failing(object):
    def write(self, x):
        raise OSError(28, 'No space left on device')

    def flush(self):
        raise OSError(28, 'No space left on device')


class Odd(object):
    """A log of the user's own, which fails in its own ways."""
    n = 0

    def write(self, x):
        Odd.n += 1
        raise (RuntimeError, KeyError, TypeError, LookupError, EOFError, AssertionError, StopIteration, type('Own', (Exception,), {}))[Odd.n % 8]('log')

    def flush(self):
        self.write('')


def closed():
    f = io.StringIO()
    f.close()
    return f


SETTINGS = [(0, io.StringIO), (1, io.StringIO), (2, io.StringIO), (4, io.StringIO), (0, lambda: io.TextIOWrapper(io.BytesIO(), 'ascii')), (0, Failing), (1, closed), (0, lambda: None), (-1, io.StringIO), (9, io.StringIO), (0, Odd)]
MORE = [(1, lambda: None), (2, lambda: None), (3, io.StringIO)]
SILENT = (4, lambda: None)


def outcome(net):
    return dict(sent=[r.got for r in net.w.remotes], closed=[r.closed for r in net.w.remotes], handled=net.dispatched, gone=net.gone, attempts=net.w.attempts,
                rounds=None, errors=net.w.errors, ended=net.done, external=net.node.external_ip,
                peers=[(p.address, p.banscore, p.rx_bytes, p.tx_bytes) for p in getattr(net, 'last', net.node.peers)])


def compare(ctx, case, setting, make, base=None):
    level, log = setting
    net = Net(log=log(), level=level)
    make(net)
    o = outcome(net)
    if base is not None:
        for k in base:
            if base[k] != o[k]:
                d = next((i for i, (a, b) in enumerate(zip(base[k], o[k])) if a != b), 'length') if isinstance(base[k], list) else ''
                ctx.fail(case, '%s differs from the silent node at %s: %s instead of %s' % (k, d, repr(o[k][d])[:300] if isinstance(d, int) else len(o[k]) if isinstance(o[k], list) else o[k], repr(base[k][d])[:300] if isinstance(d, int) else len(base[k]) if isinstance(base[k], list) else base[k]))
    ctx.trace()
    return o


def values(ctx, command, part, parts):
    P = lab()
    from .. import msgs as G
    R = P.R
    t = G.schema(command)
    vals = [v for v in G.values(t, True)]
    if command == 'alert':
        inner = [R.encode(R.ALERT, v) for v in G.values(R.ALERT, True)]
        inner += [x[:k] for x in inner[:2] for k in range(len(x))]
        vals += [dict(payload=x, signature=b'sig') for x in inner if len(x) < 3000]
    good = []
    for v in vals:
        try:
            data = R.encode(t, v)
        except R.Bad:
            continue
        good.append((v, data))
    good = good[part::parts]
    # every one alone: printed, whichever way it was made
    for v, data in good:
        case = dict(command=command, value=v)
        ctx.current = case
        made = [lambda: G.message(command, v), lambda: G.message(command, v, 'pos', tuple)]
        if command in R.MESSAGES:
            made.append(lambda: P.protocol.Message.parse(R.frame(P.MAGIC, command, data), P.MAGIC))
        for f in made:
            m = f()
            for what in (lambda: str(m), lambda: m._debug() if hasattr(m, '_debug') else '', lambda: '%s' % m, lambda: repr(m)):
                ctx.ok(isinstance(what(), str), case, 'text')
        ctx.state((command, hashlib.sha1(data).digest()))
    if command not in R.MESSAGES:
        return
    # received by nodes with all log settings
    for lo in range(0, len(good), 40):
        batch = good[lo:lo + 40]
        case = dict(command=command, values=[v for v, d in batch])
        ctx.current = case

        def received(net):
            def sc(net):
                a = net.w.connect('1.1.1.1', 1000)
                yield
                for k, (v, data) in enumerate(batch):
                    a.send(R.frame(P.MAGIC, command, data))
                    if k % 3 == 2:
                        yield
                    a.send(P.msg('ping', nonce=b'%08d' % k))
                yield
                b = net.w.connect('1.1.1.2', 1000)
                b.send(P.msg('getaddr'))
                yield
            net.run(sc)

        def sent(net):
            def sc(net):
                a = net.w.connect('1.1.1.1', 1000)
                yield
                for v, data in batch:
                    for p in net.node.peers:
                        p.send_message(G.message(command, v))
                    yield
            net.run(sc)
        for way in (received, sent):
            base = compare(ctx, case, SILENT, way)
            if way is received:
                n = [c for _, c, *_ in base['handled']].count(command)
                ctx.eq(n, len(batch) if command not in ('ping', 'getaddr') else n, case, 'messages handled by the silent node')
            else:
                ctx.eq(P.commands(base['sent'][0])[1:], [command] * len(batch), case, 'messages sent by the silent node')
            settings = SETTINGS if ctx.thorough or lo == 0 else SETTINGS[:2]
            for s in settings:
                compare(ctx, dict(case, level=s[0], log=getattr(s[1], '__name__', '')), s, way, base)
                ctx.trans(len(batch))


EVENTS = ['version', 'ping', 'getaddr', 'inv', 'unknown', 'badcheck', 'short', 'alert', 'garbage', 'eof', 'reset', 'refuse', 'unreachable', 'punish', 'unprintable', 'time']


def histories(ctx, depth, part, parts):
    P = lab()
    g, j = kinds(P)
    data = dict(version=g['version'] + g['verack'], ping=g['ping'], getaddr=g['getaddr'] + g['addr'], inv=g['inv'], unknown=j['unknown'], badcheck=j['check'], short=j['badver'],
                alert=P.msg('alert', payload=b'\xff' * 20, signature=b'\0'), garbage=b'\xe9' * 40,
                unprintable=P.version(user_agent=b'\xff\xfe\x80\0\x1b') + P.msg('reject', message=b'\xe9', ccode=1, reason=b'\x80\n') + P.R.frame(P.MAGIC, 'x' * 12, b''))
    for i, seq in enumerate(itertools.product(EVENTS, repeat=depth)):
        if i % parts != part:
            continue
        ctx.current = case = dict(events=seq)

        def make(net):
            def sc(net):
                a, b = net.w.connect('1.1.1.1', 1000), net.w.connect('1.1.1.2', 1000)
                yield
                for e in seq:
                    if e in data:
                        if not a.eof and not a.reset:
                            a.send(data[e])
                    elif e == 'eof':
                        a.eof = True
                    elif e == 'reset':
                        a.reset = True
                    elif e == 'refuse':
                        net.w.policy = lambda x: 'refuse'
                        net.node.add_peer(('7.7.7.7', 7))
                    elif e == 'unreachable':
                        net.w.policy = lambda x: ('fail', errno.EHOSTUNREACH)
                        net.node.add_peer(('7.7.7.8', 7))
                    elif e == 'punish':
                        first = 'punished' not in vars(net)
                        net.punished = True
                        for p in net.node.peers[:1]:
                            for k in range(4 if first else 1):
                                net.node.punish_peer(p, 'r')
                    elif e == 'time':
                        yield 16
                    yield
                    b.send(P.msg('ping', nonce=b'bbbbbbbb'))
                    yield
                net.last = list(net.node.peers)
            net.run(sc)
        base = compare(ctx, case, SILENT, make)
        ctx.ok(base['ended'], case, 'the event loop stopped')
        for s in ((SETTINGS[0], SETTINGS[1], SETTINGS[5], SETTINGS[7], SETTINGS[9], SETTINGS[10], (1, lambda: None)) if not ctx.thorough else SETTINGS + MORE):
            compare(ctx, dict(case, level=s[0]), s, make, base)
            ctx.trans(depth)
        ctx.state(seq)


def backlog(ctx, kind, part, parts):
    """So much is waiting to be sent, the log changes nothing."""
    P = lab()
    sizes = [0, 4096, 8192, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3 << 20]
    for i, (n, window, how) in enumerate(itertools.product(sizes, (0, 1, 5000), ('one', 'two', 'many'))):
        if i % parts != part:
            continue
        ctx.current = case = dict(bytes=n, window=window, sent_as=how, messages=kind)

        def make(net):
            def sc(net):
                a, b = net.w.connect('1.1.1.1', 1000), net.w.connect('1.1.1.2', 1000)
                yield
                a.window = window
                p = peer_of(net, a)
                for k in range(dict(one=1, two=2, many=40)[how]):
                    size = n // dict(one=1, two=2, many=40)[how]
                    p.send_message(P.protocol.Reject(b'tx', 1, b'\xe9' * size) if kind == 'sent' else P.protocol.Inventory([P.protocol.InventoryVector(1, bytes(32))] * min(size // 36, 50000)))
                yield
                for k in range(3):
                    a.send(P.msg('ping', nonce=b'%08d' % k) + P.msg('getaddr'))
                    b.send(P.msg('ping', nonce=b'%08d' % k))
                    yield 16 if k == 1 else None
                a.window = None
                yield
                yield
                for r in (a, b):
                    r.send(P.msg('ping', nonce=b'lastping'))
                for k in range(60):
                    yield
                net.last = list(net.node.peers)
            net.run(sc)
        base = compare(ctx, case, SILENT, make)
        ctx.ok(base['ended'], case, 'the event loop stopped')
        for r in base['sent']:
            ctx.ok('pong' == P.commands(r)[-1], case, 'the last ping is not answered: %s' % P.commands(r)[-3:])
        for s in SETTINGS[:2] + [SETTINGS[5]] + SETTINGS[9:]:
            compare(ctx, dict(case, level=s[0]), s, make, base)
            ctx.trans(8)
        ctx.state(tuple(case.values()))


def units(tier):
    from ..ref import wire as R
    big = ('version', 'block', 'tx', 'alert', 'headers')
    for c in list(R.MESSAGES) + list(R.UNREGISTERED):
        n = 6 if c in big else 1
        for k in range(n):
            yield ('values-%s-%d' % (c, k), values, (c, k, n))
    for k in range(4):
        for kind in ('sent', 'inv'):
            yield ('backlog-%s-%d' % (kind, k), backlog, (kind, k, 4))
    for k in range(8):
        yield ('histories-%d' % k, histories, (3 if tier == 'quick' else 4, k, 8))
