"""C40: the table of the node is its live sockets; a node is what it was told to be; startServer serves in the background."""
import errno
import io
import itertools
import os
import threading

from ..nethist import Net, lab, peer_of

LEVEL = 'model_checking'
EVENTS = ['in', 'in again', 'in two', 'gone at once', 'out', 'out now', 'out refused', 'out unreachable', 'out again', 'out hangs', 'no socket', 'hello', 'eof', 'reset', 'remove', 'remove first', 'remove other', 'ban', 'half', 'time']
BOUNDS = dict(quick='every sequence of 4 of 20 events, and of 3 without a round of the loop between them (connections in both directions that succeed, fail, hang, come twice; ends from either side; bans; failing system calls), the whole table compared after each; the same on a node that does not listen; every prefix of the constructor arguments of both node classes by position and by name; startServer with 4 situations',
              thorough='every sequence of 5 events, and of 4 without a round between them')
ASSUMPTIONS = ['the table is compared with the sockets of the harness that are not closed', 'startServer is run with the thread executed at once in place of start()']


def table(ctx, net, case):
    node, w = net.node, net.w
    live = dict(w.fds)
    for r in w.remotes:
        if r.sock is not None and r.sock in [s for l in w.listeners.values() for s, a in l.backlog]:
            live.pop(r.sock.fd, None)         # not accepted yet
    fds = sorted(live)
    ctx.eq(sorted(node.keys()), fds, case, 'keys')
    ctx.eq(sorted(iter(node)), fds, case, 'iteration')
    ctx.eq(len(node), len(fds), case, 'length')
    vals = list(node.values())
    ctx.eq(len(vals), len(fds), case, 'values')
    conns = []
    for fd in fds:
        o = node[fd]
        ctx.ok(fd in node, case, '%r is not in the table' % fd)
        ctx.ok(node.get(fd) is o and node.get(fd, 1) is o and any(o is v for v in vals), case, 'get, [] and values differ for %r' % fd)
        if live[fd].state == 'listen':
            ctx.ok(o is node, case, 'the listening socket belongs to %r' % (o,))
        else:
            conns.append(o)
            ctx.eq((o.address, o.node), (live[fd].remote.address, node), case, 'the owner of %r' % fd)
    for fd in (max(fds or [3]) + 1, -1, 0, None, 'x', 10 ** 6):
        ctx.ok(fd not in node and node.get(fd) is None and node.get(fd, 'd') == 'd', case, '%r is in the table' % (fd,))
        try:
            node[fd]
            ctx.fail(case, 'the table has %r' % (fd,))
        except KeyError:
            pass
    peers = list(node.peers)
    ctx.eq(sorted(map(id, peers)), sorted(map(id, conns)), case, 'peers')
    for p in peers:
        a = p.address
        ctx.ok(p == p and not (p != p) and p != 'x' and not (p == None) and p != a and p != node, case, 'equality of a peer')         # noqa
        t = str(p)
        ctx.ok(a[0] in t and str(a[1]) in t, case, 'text %r of %r' % (t, a))
        ctx.ok(isinstance(repr(p), str), case, 'repr')
        for q in peers:
            ctx.eq((p == q, p != q), (a == q.address, a != q.address), case, 'equality of %r and %r' % (a, q.address))
            if a == q.address:
                ctx.eq(hash(p), hash(q), case, 'hash')
        ctx.ok(p in {q: 1 for q in peers} and p in set(peers), case, 'a peer as a key')


def event(net, e, n):
    w, node = net.w, net.node
    last = w.remotes[-1] if w.remotes else None
    up = last is not None and not last.closed and last.sock.state in ('open', 'established')
    out = dict(out='accept')
    if e == 'in':
        w.connect('1.0.0.%d' % (n + 1), 1000 + n)
    elif e == 'in again':
        w.connect(*(last.address if last else ('1.0.0.9', 9)))
    elif e == 'in two':
        w.connect('1.0.1.%d' % (n + 1), 1000)
        w.connect('1.0.1.%d' % (n + 1), 1001)
    elif e == 'gone at once':
        w.connect('1.0.2.1', 2000 + n, reset=True)
    elif e == 'no socket':
        w.fail['socket'] = [errno.EMFILE]
        r = node.add_peer(('2.0.2.1', 2000 + n))
        w.fail.clear()
        return r, False
    elif e.startswith('out'):
        how = dict(now='immediate', refused='refuse', unreachable=errno.ENETUNREACH, hangs='hang').get(e[4:], 'accept')
        w.policy = lambda a: how
        if e == 'out again':
            a = last.address if last else ('2.0.0.9', 9)
            want = a not in [p.address for p in node.peers]
        else:
            a, want = ('2.0.0.%d' % (n + 1), 3000 + n), how != errno.ENETUNREACH
        return node.add_peer(a), want
    elif e == 'remove other':
        have = [p.address for p in node.peers]
        for a in [('9.9.9.9', 9)] + [(ip, port + d) for ip, port in have for d in (-1, 1)] + [('9.9.9.9', port) for ip, port in have]:
            if a not in have:
                node.remove_peer(a)
        return sorted(p.address for p in node.peers), sorted(have)
    elif e == 'time':
        return 30
    elif e in ('remove', 'remove first'):
        if last is not None:
            address = last.address if e == 'remove' else w.remotes[0].address
            before = sorted(p.address for p in node.peers)
            if address in before:
                before.remove(address)
            node.remove_peer(address)
            return sorted(p.address for p in node.peers), before
    elif e == 'ban':
        for p in node.peers[-1:]:
            for _ in range(6):
                node.punish_peer(p)
    elif up:
        if e == 'hello':
            last.send(net.p.version() + net.p.VERACK)
        elif e == 'half':
            last.send(net.p.version()[:30])
        elif e == 'eof':
            last.eof = True
        elif e == 'reset':
            last.reset = True


def u_table(ctx, depth, part, parts, together, where=('10.9.8.7', 20303)):
    P = lab()
    quiet()
    for i, seq in enumerate(itertools.product(EVENTS, repeat=depth)):
        if i % parts != part:
            continue
        case = dict(events=seq, together=together, address=where)
        if where is None and any(e in ('in', 'in again', 'in two', 'gone at once') for e in seq):
            continue
        ctx.current = case

        def sc(net):
            yield
            table(ctx, net, case)
            for n, e in enumerate(seq):
                r = event(net, e, n)
                if isinstance(r, tuple):
                    ctx.eq(r[0], r[1], case, 'peers after %s' % e if e.startswith('remove') else 'answer of add_peer')
                if not together or n == depth - 1:
                    table(ctx, net, case)
                    yield 30 if r == 30 else None
                    table(ctx, net, case)
                    for p in net.node.peers:
                        ctx.ok(getattr(p.socket, 'state', '') != 'closed', case, 'a closed peer is listed')
                    ctx.trans()
        net = Net(log=None, listen=where).run(sc)
        ctx.ok(net.done, case, 'the loop stopped')
        ctx.eq((len(net.node), list(net.node.peers), net.w.fds), (0, [], {}), case, 'after the end')
        ctx.trace()
        ctx.state((seq, together, where))


def quiet():
    import sys
    sys.stdout = io.StringIO()


def u_settings(ctx, cls, k):
    """The first k constructor arguments by position, the others by name or left out."""
    P = lab()
    quiet()
    base = P.basenode.BaseNode if cls == 'BaseNode' else P.raw.RawNode
    N = len(ORDER)
    for mask in range(1 << (N - k)):
        named = [ORDER[k + j] for j in range(N - k) if mask >> j & 1]
        given = set(ORDER[:k]) | set(named)
        log = io.StringIO()
        coin = type('Other', (P.coins.Newbitcoin,), dict(name='othercoin', magic=b'\xaa\xbb\xcc\xdd', protocol_version=70099, dns_seeds=[('8.8.1.1', 81), ('8.8.1.2', 82)]))
        vals = dict(data_dir='/data//here/', address=('10.1.2.3', 4567), seek_peers=3, max_peers=5, bootstrap=base is not P.basenode.BaseNode, log=log, coin=coin)
        case = dict(node=cls, by_position=ORDER[:k], by_name=named)
        ctx.current = case
        net = Build(P, base, [vals[a] for a in ORDER[:k]], {a: vals[a] for a in named})
        node, w = net.node, net.w
        addr = vals['address'] if 'address' in given else ('127.0.0.1', list(w.listeners)[0])
        ctx.eq((node.address, node.ip, node.port), (addr, addr[0], addr[1]), case, 'address')
        ctx.ok(addr[1] in w.listeners, case, 'not listening on the port')
        ctx.eq(node.data_dir, '/data//here/' if 'data_dir' in given else os.path.expanduser('~/.newbitcoin/data'), case, 'data_dir')
        c = coin if 'coin' in given else P.coins.Newbitcoin
        ctx.ok(node.coin is c, case, 'coin %r' % (node.coin,))
        ctx.eq(node.external_ip, addr[0], case, 'external address')
        ctx.ok(c.name in node.user_agent and node.user_agent[0] == node.user_agent[-1] == '/', case, 'user agent %r' % node.user_agent)
        boot = vals['bootstrap'] if 'bootstrap' in given else base is P.basenode.BaseNode
        seek = 3 if 'seek_peers' in given else 16
        most = 5 if 'max_peers' in given else 125
        accepts = 'address' in given
        if 'log' in given:
            node.log('something', level=node.LOG_LEVEL_FATAL)
            ctx.ok('something' in log.getvalue(), case, 'the log got %r' % log.getvalue())

        def sc(net):
            w.policy = lambda a: 'accept'
            yield
            if boot:
                ctx.ok(w.attempts and set(a for t, a, o in w.attempts) <= set(c.dns_seeds), case, 'connected to %r at start' % (w.attempts,))
            else:
                ctx.eq(w.attempts, [], case, 'connected at start')
            # a seed, when reached, closes at once
            for r in w.remotes:
                r.reset = True
            yield
            r = w.connect('5.5.5.5', 55)
            yield
            ctx.eq(r.closed, not accepts, case, 'an incoming connection is refused')
            if accepts:
                ctx.eq(r.got[:4], c.magic, case, 'network')
                v = int.from_bytes(r.got[24:28], 'little')
                ctx.eq(v, c.protocol_version, case, 'protocol version')
                rs = [r] + [w.connect('5.5.6.%d' % (j % 250), 100 + j) for j in range(130)]
                yield
                ctx.eq(len([x for x in rs if not x.closed]), most, case, 'incoming connections served')
                for x in rs:
                    x.reset = True
                yield
            # addresses learnt: the node connects to as many as it seeks
            ctx.ok(node.add_peer(('7.7.7.7', 7)), case, 'add_peer')
            w.remotes[-1].send(b''.join(P.R.frame(c.magic, m, P.R.encode(P.R.MESSAGES[m][1], kw)) for m, kw in (
                ('verack', {}), ('addr', dict(addr_list=[dict(timestamp=1500000000, services=1, address='6.6.6.%d' % j, port=600 + j) for j in range(40)])))))
            yield 90
            ctx.eq(len(node.peers), seek, case, 'connections sought')
            ctx.ok(all(p.ip[:6] == '6.6.6.' or p.ip == '7.7.7.7' for p in node.peers), case, 'peers %s' % [p.address for p in node.peers])
            ctx.trans(4)
        net.run(sc)
        ctx.ok(net.done, case, 'the loop stopped')
        ctx.trace()
        ctx.state((cls, k, mask))


ORDER = ['data_dir', 'address', 'seek_peers', 'max_peers', 'bootstrap', 'log', 'coin']


class Build(Net):
    """A node made by its own constructor call."""

    def __init__(self, P, base, args, kw):
        from .. import netenv
        self.w = netenv.WORLD[0] = netenv.World()
        self.p = P
        self.gen, self.done, self.crash = None, False, None
        me = self

        class Mine(base):
            def begin_loop(self):
                me.begin()
        self.node = Mine(*args, **kw)


def u_server(ctx):
    P = lab()
    quiet()
    started = []

    def start(t):
        started.append(t)
        t.run()
    for base, how, again, where in itertools.product((P.basenode.BaseNode, P.raw.RawNode), ('nothing', 'a peer', 'messages', 'out'), (False, True), (('10.9.8.7', 20303), ('localhost', 20303), ('', 0), ('10.9.8.7', 0), ('localhost', 0), None)):
        if where is None and how in ('a peer', 'messages'):
            continue
        case = dict(node=base.__name__, situation=how, twice=again, address=where)
        ctx.current = case
        del started[:]
        net = Build(P, base, [], dict(address=where, bootstrap=False, log=None, seek_peers=0))
        if where and where[1]:
            ctx.eq(net.node.address, where, case, 'address')
            ctx.eq((net.node.ip, net.node.port), where, case, 'ip and port')
        elif where:
            ctx.eq((net.node.address[1], net.node.port), (list(net.w.listeners)[0],) * 2, case, 'port, when any was asked for')
            ctx.eq(net.node.address, net.node.socket.getsockname(), case, 'address')
        seen = []

        def sc(net):
            yield
            if how in ('a peer', 'messages'):
                r = net.w.connect('1.1.1.1', 1)
                if how == 'messages':
                    r.send(P.version() + P.VERACK + P.msg('ping', nonce=b'12345678'))
                yield
                seen.append(P.commands(r.got)[:1] + [x for x in P.commands(r.got) if x in ('verack', 'pong')])
            elif how == 'out':
                net.w.policy = lambda a: 'accept'
                net.node.add_peer(('3.3.3.3', 3))
                yield
                seen.append(P.commands(net.w.remotes[-1].got)[:1])
        net.gen, net.mode, net.until = sc(net), 'once', 0
        real = threading.Thread.start
        threading.Thread.start = start
        try:
            P.basenode.startServer(net.node)
        finally:
            threading.Thread.start = real
        ctx.eq(len(started), 1, case, 'threads')
        ctx.ok(started[0].daemon, case, 'the thread keeps the process alive')
        ctx.ok(net.done, case, 'the node was not served')
        ctx.eq(seen, {'nothing': [], 'a peer': [['version']], 'messages': [['version', 'verack', 'pong']], 'out': [['version']]}[how], case, 'messages')
        ctx.eq(net.w.fds, {}, case, 'sockets left')
        ctx.trans()
        ctx.trace()
        ctx.state((base.__name__, how, again, where))


def units(tier):
    th = tier != 'quick'
    for together in (False, True):
        for d in (1, 2):
            yield 'table%d-%s' % (d, together), u_table, (d, 0, 1, together)
        for k in range(6):
            yield 'table3-%s-%d' % (together, k), u_table, (3, k, 6, together)
        for d in (1, 2, 3) + (() if together and not th else (4,)):
            for k in range(1 if d < 4 else 4):
                yield 'alone%d-%s-%d' % (d, together, k), u_table, (d, k, 1 if d < 4 else 4, together, None)
        if th or not together:
            for k in range(16):
                yield 'table4-%s-%d' % (together, k), u_table, (4, k, 16, together)
        if th and not together:
            for k in range(64):
                yield 'table5-%d' % k, u_table, (5, k, 64, together)
    for cls in ('BaseNode', 'RawNode'):
        for k in range(len(ORDER) + 1):
            yield 'settings-%s-%d' % (cls, k), u_settings, (cls, k)
    yield 'server', u_server, ()
