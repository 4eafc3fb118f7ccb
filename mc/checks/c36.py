"""C36: nodes stop cleanly and do not share state."""
import errno
import io
import itertools
import random

LEVEL = 'model_checking'
BOUNDS = dict(quick='16 situations x 6 ways the loop ends x 0..3 further rounds, then a second node on the same port; close() of the node in 15 situations x 3 places (in the loop, while a message is handled, while a connection ends) x 4 ends of its peers, another node on the port at once; nodes that do not listen; all failures of socket, bind, listen and getsockname while creating a node; two nodes: all sequences of up to 3 of 12 actions on one node, placed at each of 10 points of a fixed history of the other, the other one created before or after',
              thorough='sequences of up to 4 actions; two sequences of 2 at two different points')
ASSUMPTIONS = ['a socket is closed when close() is called on it (harness)', 'the loop is stopped through begin_loop(), the hook the code offers']


def quiet():
    import sys
    sys.stdout = io.StringIO()


def rounds(seat, n=6):
    for _ in range(n):
        seat.step()


def lab():
    from ..multi import Lab
    L = Lab()
    if not hasattr(L.w, '_quiet'):
        quiet()
    return L


A = ('10.0.0.1', 2001)
B = ('10.0.0.2', 2002)


def hello(L, s, ip='1.1.1.1', port=1000, **kw):
    r = L.w.connect(ip, port, to=s.node.address[1])
    r.send(L.p.version(**kw))
    r.send(L.p.VERACK)
    rounds(s, 4)
    return r


def situations(L, s, what):
    """Brings the node into a state; returns the number of connections it is serving."""
    w = L.w
    if what == 'idle':
        rounds(s, 1)
    elif what == 'not started':
        pass
    elif what == 'waiting':           # in the backlog only
        rounds(s, 1)
        w.connect('1.1.1.1', 1, to=A[1])
    elif what == 'accepted':
        rounds(s, 1)
        w.connect('1.1.1.1', 1, to=A[1])
        rounds(s, 2)
    elif what == 'handshake':
        hello(L, s)
    elif what == 'many':
        for i in range(4):
            hello(L, s, '1.1.1.%d' % i, 1000 + i)
    elif what == 'half message':
        hello(L, s).send(L.p.msg('ping', nonce=b'12345678')[:-1])
        rounds(s, 2)
    elif what == 'unread':
        hello(L, s).send(L.p.msg('ping', nonce=b'12345678'))
    elif what == 'backlog of output':
        r = hello(L, s)
        r.window = 3
        r.send(L.p.msg('ping', nonce=b'12345678') * 3)
        rounds(s, 3)
    elif what == 'reset':
        hello(L, s).reset = True
    elif what == 'connecting':
        w.policy = lambda a: 'hang'
        s.node.add_peer(('9.9.9.9', 9))
        rounds(s, 2)
    elif what == 'outbound':
        w.policy = lambda a: 'accept'
        s.node.add_peer(('9.9.9.9', 9))
        w.remotes[-1].send(L.p.version() + L.p.VERACK)
        rounds(s, 4)
    elif what == 'both ways':         # we connected to the peer, and the peer to us from the port it listens on
        w.policy = lambda a: 'accept'
        s.node.add_peer(('9.9.9.9', 9))
        w.remotes[-1].send(L.p.version() + L.p.VERACK)
        rounds(s, 4)
        hello(L, s, '9.9.9.9', 9)
    elif what == 'close fails':       # close() of the first and the last reports an error
        for i in range(3):
            hello(L, s, '1.1.1.%d' % i, 1000 + i).close_err = (errno.ECONNRESET, None, errno.EIO)[i]
    elif what == 'banned':
        r = hello(L, s)
        p = s.node.peers[0]
        for _ in range(6):
            s.node.punish_peer(p)
        rounds(s, 1)
    elif what == 'banned, more of the address':        # one of the connections from an address misbehaves; those it does not reach stay
        for i in range(3):
            hello(L, s, '1.1.1.1', 1000 + i)
        hello(L, s, '1.1.1.2', 1000)
        p = [p for p in s.node.peers if p.address == ('1.1.1.1', 1001)][0]
        for _ in range(6):
            s.node.punish_peer(p)


WHAT = ['idle', 'not started', 'waiting', 'accepted', 'handshake', 'many', 'half message', 'unread', 'backlog of output', 'reset', 'connecting', 'outbound', 'both ways', 'close fails', 'banned', 'banned, more of the address']


def ways(P):
    class Mine(P.StopNode):
        pass
    return [('StopNode', P.StopNode(), True), ('subclass', Mine('x'), True), ('RuntimeError', RuntimeError('x'), False), ('OSError', OSError(errno.EIO, 'x'), False),
            ('KeyboardInterrupt', KeyboardInterrupt(), False), ('SystemExit', SystemExit(3), False)]


def u_stop(ctx, what):
    L = lab()
    for name, exc, clean in ways(L.p):
        for more in range(4):
            case = dict(situation=what, ended_by=name, rounds=more)
            ctx.current = case
            L = lab()
            w = L.w
            s = L.add(A)
            situations(L, s, what)
            for _ in range(more if what != 'not started' else 0):
                s.step()
            peers = [p.address for p in s.node.peers]
            gone = list(s.gone)
            s.stop(exc)
            if clean:
                ctx.eq(s.end, ('returned',), case, 'end of serve_forever')
            else:
                ctx.ok(s.end[0] == 'raised' and s.end[1] is exc, case, 'serve_forever ended with %r' % (s.end,))
            ctx.ok(A[1] not in w.listeners, case, 'still listening')
            served = [x for x in w.remotes if x.sock is not None and not x.closed]
            waiting = 1 if what == 'waiting' and not more else 0
            ctx.eq([x.address for x in served][waiting:], [], case, 'connections left open')
            ctx.eq(len(w.fds), waiting, case, 'sockets left open')
            ctx.eq(sorted(a for a, t in s.gone[len(gone):] if a in peers), sorted(peers), case, 'connections reported as disconnected')
            ctx.eq(w.errors, [], case, 'operations on closed sockets')
            ctx.eq(list(s.node.peers), [], case, 'peers after the end')
            # a new node takes over the port at once, with nothing remembered
            L.seats.remove(s)
            n = L.add(A)
            n.start()
            r = hello(L, n, '2.2.2.2', 22)
            ctx.eq(L.p.commands(r.got)[:2], ['version', 'getaddr'] if 'getaddr' in L.p.commands(r.got)[:2] else ['version', 'verack'], case, 'answer of the next node')
            ctx.eq(sorted(c for a, c, f, t in n.dispatched), ['verack', 'version'], case, 'messages of the next node')
            ctx.eq(dict(n.node._addresses) if hasattr(n.node, '_addresses') else {r.address: 0}, {r.address: (w.now, 1)} if hasattr(n.node, '_addresses') else {r.address: 0}, case, 'addresses of the next node')
            n.stop()
            ctx.eq(n.end, ('returned',), case, 'end of the next node')
            ctx.trans(3)
            ctx.trace()
            ctx.state((what, name, more))
    ctx.sample(case)


def u_deaf(ctx):
    """A node that does not listen for connections (no address given) ends like any other."""
    for what in ('idle', 'connecting', 'refused', 'outbound', 'handshake', 'close fails', 'knock'):
        for name, exc, clean in ways(lab().p):
            for more in range(3):
                case = dict(situation=what, listening=False, ended_by=name, rounds=more)
                ctx.current = case
                L = lab()
                w = L.w
                s = L.add(None)
                w.policy = lambda a: {'connecting': 'hang', 'refused': 'refuse'}.get(what, 'accept')
                s.start()
                n = 0 if what in ('idle', 'knock') else 3
                for i in range(n):
                    s.node.add_peer(('9.9.9.%d' % i, 9))
                    r = w.remotes[-1]
                    if what in ('outbound', 'close fails'):
                        r.send(L.p.version() + L.p.VERACK)
                    if what == 'close fails':
                        r.close_err = errno.ECONNRESET
                if what == 'knock':
                    w.connect('1.1.1.1', 1, to=s.node.address[1])
                rounds(s, 1 + more)
                peers = [p.address for p in s.node.peers]
                had = len(s.gone)
                s.stop(exc)
                if clean:
                    ctx.eq(s.end, ('returned',), case, 'end of serve_forever')
                else:
                    ctx.ok(s.end[0] == 'raised' and s.end[1] is exc, case, 'serve_forever ended with %r' % (s.end,))
                ctx.eq([r.address for r in w.remotes if r.sock is not None and not r.closed], [], case, 'connections left open')
                ctx.eq(len(w.fds), 0, case, 'sockets left open')
                ctx.eq(w.listeners, {}, case, 'still listening')
                ctx.eq(sorted(a for a, t in s.gone[had:]), sorted(peers), case, 'connections reported as disconnected')
                ctx.eq(list(s.node.peers), [], case, 'peers after the end')
                ctx.eq(w.errors, [], case, 'operations on closed sockets')
                ctx.trans(n + more)
                ctx.trace()
                ctx.state((what, name, more))
    ctx.sample(case)


def u_close(ctx, what, where):
    """close() of the node: it listens no more, serves the peers it has to their end, and then serve_forever returns."""
    for more, twice, last in itertools.product(range(3), (False, True), ('eof', 'reset', 'removed', 'stop')):
        case = dict(situation=what, close_called=where, rounds=more, twice=twice, end_of_peers=last)
        ctx.current = case
        L = lab()
        w = L.w
        s = L.add(A)
        situations(L, s, what)
        for _ in range(more):
            s.step()
        n = s.node

        def shut(*a, **kw):
            for _ in range(1 + twice):
                n.close()
        live = [r for r in w.remotes if r.sock is not None and not r.closed and not r.reset and r.sock.state == 'open' and n.get(r.sock.fileno()) is not None]
        if where == 'loop' or not live:
            shut()
        elif where == 'message':           # while a message is handled
            s.on_dispatch = lambda p, c, k: c == 'ping' and shut()
            live[0].window = None
            live[0].send(L.p.msg('ping', nonce=b'12345678')[-1:] if what == 'half message' else L.p.msg('ping', nonce=b'shut-now'))
            s.step(), s.step()
            s.on_dispatch = None
        elif where == 'after a peer':      # while a connection ends
            real = n.disconnected
            n.disconnected = lambda peer: (real(peer), shut())[0]
            live.pop().eof = True
            s.step(), s.step()
            n.disconnected = real
        ctx.ok(A[1] not in w.listeners, case, 'still listening')
        gone = list(s.gone)
        # the port is free for another node at once
        t = L.add(A)
        t.start()
        hello(L, t, '2.2.2.2', 22)
        for r in live:
            r.window = None
            if r.closed or n.get(r.sock.fileno()) is None:
                continue
            had = L.p.commands(r.got).count('pong')
            if what == 'half message' and where != 'message':
                r.send(L.p.msg('ping', nonce=b'12345678')[-1:])
            else:
                r.send(L.p.msg('ping', nonce=b'after-it'))
            rounds(s, 3)
            ctx.eq(s.end, None, case, 'the loop ended with a peer to serve')
            ctx.ok(L.p.commands(r.got).count('pong') > had, case, 'no answer for %r after close()' % (r.address,))
        peers = [p.address for p in n.peers]
        if last == 'stop':
            s.stop()
        else:
            for r in [r for r in w.remotes if r.sock is not None and not r.closed]:
                if r.sock.state == 'connecting':
                    r.sock.connect_err = errno.ETIMEDOUT
                if last != 'removed':
                    setattr(r, last, True)
            if last == 'removed':
                for p in list(n.peers):
                    n.remove_peer(p.address)
            rounds(s, 4)
        ctx.eq(s.end, ('returned',), case, 'end of serve_forever')
        ctx.eq(sorted(a for a, _ in s.gone[len(gone):] if a in peers), sorted(peers), case, 'connections reported as disconnected')
        ctx.eq(list(n.peers), [], case, 'peers after the end')
        # nothing of the other node was touched
        ctx.ok(A[1] in w.listeners, case, 'the listening socket of the next node is gone')
        r = hello(L, t, '3.3.3.3', 33)
        ctx.eq([c for a, c, f, at in t.dispatched if a == r.address], ['version', 'verack'], case, 'messages of the next node')
        t.stop()
        ctx.eq(t.end, ('returned',), case, 'end of the next node')
        ctx.eq(w.errors, [], case, 'operations on closed sockets')
        ctx.trans(4)
        ctx.trace()
        ctx.state((what, where, more, twice, last))
    ctx.sample(case)


def u_create(ctx):
    L = lab()
    for op in ('socket', 'bind', 'listen', 'getsockname'):
        for e in (errno.EADDRINUSE, errno.EACCES, errno.EADDRNOTAVAIL, errno.EMFILE, errno.ENOBUFS, errno.EINVAL):
            for port in (A[1], 0):
                for times in (1, 2):
                    case = dict(failing=op, errno=errno.errorcode[e], port=port, times=times)
                    ctx.current = case
                    L = lab()
                    w = L.w
                    made = None
                    for t in range(times):
                        w.fail[op] = [e]
                        try:
                            made = L.add((A[0], port))
                        except L.p.AddrInUseError:
                            ctx.eq(e, errno.EADDRINUSE, case, 'reported as port in use')
                        except OSError as x:
                            ctx.eq(x.errno, e, case, 'reported error')
                            ctx.ok(e != errno.EADDRINUSE, case, 'port in use reported as OSError')
                        if made:
                            break
                        ctx.eq(len(w.fds), 0, case, 'sockets left open')
                        ctx.eq(w.listeners, {}, case, 'still listening')
                    w.fail.clear()
                    n = made or L.add((A[0], port))
                    n.start()
                    r = hello(L, n)
                    ctx.eq([c for a, c, f, t in n.dispatched], ['version', 'verack'], case, 'messages of the node created afterwards')
                    n.stop()
                    ctx.eq(len(w.fds), 0, case, 'sockets left open')
                    ctx.trans(2)
                    ctx.trace()
                    ctx.state(repr(case))
    # a second node on a port in use leaves the first alone
    for extra in (None, 'peer'):
        case = dict(second_node=True, first=extra)
        L = lab()
        s = L.add(A)
        s.start()
        if extra:
            r = hello(L, s)
        try:
            L.add(A)
            ctx.fail(case, 'a second node on the port')
        except L.p.AddrInUseError:
            pass
        r = hello(L, s, '3.3.3.3', 3)
        ctx.eq([c for a, c, f, t in s.dispatched if a == r.address], ['version', 'verack'], case, 'messages of the first node')
        s.stop()
        ctx.eq(len(L.w.fds), 0, case, 'sockets left open')


# ---- independence

def act_hello(L, s, k):
    s.mem.append(hello(L, s, '1.1.1.%d' % k, 1000 + k, seen='7.7.7.%d' % k))


def act_addr(L, s, k):
    r = s.mem[-1] if s.mem else hello(L, s, '1.2.1.%d' % k, 1000)
    r.send(L.p.msg('addr', addr_list=[dict(timestamp=1500000000 + k, services=1, address='4.4.4.%d' % k, port=44)]))
    rounds(s, 2)


def act_ban(L, s, k):
    hello(L, s, '5.5.5.5', 1000 + k)
    for p in list(s.node.peers):
        if p.address == ('5.5.5.5', 1000 + k):
            for _ in range(6):
                s.node.punish_peer(p)
    rounds(s, 1)


def act_half(L, s, k):
    r = hello(L, s, '1.3.1.%d' % k, 1000)
    r.send(L.p.msg('ping', nonce=b'abcdefgh')[:20])
    rounds(s, 2)


def act_stuck(L, s, k):
    r = hello(L, s, '1.4.1.%d' % k, 1000)
    r.window = 5
    r.send(L.p.msg('ping', nonce=b'abcdefgh') * 2)
    rounds(s, 2)


def act_out(L, s, k):
    s.node.add_peer(('9.9.9.%d' % k, 9))
    L.w.remotes[-1].send(L.p.version(seen='7.7.8.%d' % k) + L.p.VERACK)
    rounds(s, 3)


def act_refused(L, s, k):
    s.node.add_peer(('9.9.8.%d' % k, 9))
    rounds(s, 3)


def act_agent(L, s, k):
    s.node.user_agent = '/other:%d/' % k
    s.node.external_ip = '8.8.8.%d' % k
    s.node.blockchain_height = 1000 + k


def act_level(L, s, k):
    s.node.log_level = s.node.LOG_LEVEL_PROTOCOL


def act_junk(L, s, k):
    r = hello(L, s, '1.5.1.%d' % k, 1000)
    r.send(L.p.msg('inv', inventory=[])[:-1] + b'\xff' + b'\0' * 80)
    rounds(s, 2)


def act_lose(L, s, k):
    if s.mem:
        s.mem[-1].eof = True
    rounds(s, 2)


def act_beat(L, s, k):
    s.node.heartbeat()
    rounds(s, 2)


ACTS = [act_hello, act_addr, act_ban, act_half, act_stuck, act_out, act_refused, act_agent, act_level, act_junk, act_lose, act_beat]


def observer(L, s):
    """The other node's history; yields between its steps."""
    w = L.w
    w.now += 11
    yield
    r = hello(L, s, '5.5.5.5', 55, seen='6.6.6.6')
    w.now += 11
    yield
    r.send(L.p.msg('getaddr'))
    rounds(s, 3)
    w.now += 11
    yield
    r.send(L.p.msg('addr', addr_list=[dict(timestamp=1500000009, services=1, address='4.4.4.200', port=44)]))
    rounds(s, 3)
    w.now += 11
    yield
    r.send(L.p.msg('ping', nonce=b'obs-half')[:15])
    rounds(s, 2)
    w.now += 11
    yield
    r.send(L.p.msg('ping', nonce=b'obs-half')[15:])
    rounds(s, 3)
    w.now += 11
    yield
    s.node.heartbeat()
    rounds(s, 2)
    s.node.add_peer(('9.9.9.200', 9))
    w.remotes[-1].send(L.p.version(seen='6.6.6.7') + L.p.VERACK)
    rounds(s, 3)
    w.now += 11
    yield
    q = hello(L, s, '5.5.5.5', 56, seen='6.6.6.7')
    q.send(L.p.msg('getaddr'))
    rounds(s, 3)
    w.now += 11
    yield
    s.node.remove_peer(('5.5.5.5', 55))
    rounds(s, 2)
    for i in range(3):
        for p in s.node.peers:
            s.node.punish_peer(p)
    w.now += 11
    yield
    hello(L, s, '1.1.1.1', 77)


def plain(c, f):
    f = dict(f)
    if c == 'version':
        f.pop('nonce')
    return c, sorted(f.items(), key=repr)


def view(L, s, mine):
    return dict(sent=[(r.address, [plain(c, f) for c, f in L.p.decode(r.got)], r.closed) for r in mine],
                dispatched=[(a, plain(c, f), t) for a, c, f, t in s.dispatched], gone=s.gone, ip=s.node.external_ip, agent=s.node.user_agent,
                peers=[(p.address, p.banscore, p.verack, p.tx_bytes, p.rx_bytes, p.external_ip) for p in s.node.peers],
                level=s.node.log_level, log=s.log.getvalue(), bytes=(getattr(s.node, '_tx_bytes', 0), getattr(s.node, '_rx_bytes', 0)), height=s.node.blockchain_height)


def together(seq, at, first, late=((), -1)):
    """seq: actions on A; at: observer step before which they run; late: (actions, at) for a second batch."""
    L = lab()
    w = L.w
    w.policy = lambda a: 'refuse' if a[0].startswith('9.9.8') else 'accept'
    owner = {}
    nodes = {}

    def make(which):
        s = L.add(A if which == 'a' else B, log=io.StringIO())
        s.log = s.node._log if hasattr(s.node, '_log') else io.StringIO()
        s.mem = []
        nodes[which] = s
        s.start()
    if seq is not None and first:
        make('a')
    make('b')
    if seq is not None and not first:
        make('a')
    b = nodes['b']
    k = 0
    for i, _ in enumerate(observer(L, b)):
        for acts, when in ((seq or (), at), late):
            if when == i:
                for a in acts:
                    n = len(w.remotes)
                    ACTS[a](L, nodes['a'], k)
                    k += 1
                    for r in w.remotes[n:]:
                        owner[len(owner)] = r
    theirs = set(map(id, owner.values()))
    v = view(L, b, [r for r in w.remotes if id(r) not in theirs])
    b.stop()
    if seq is not None:
        nodes['a'].stop()
    return v, L, nodes


def u_pairs(ctx, depth, part, parts, two):
    alone = together(None, 0, True)[0]
    ctx.ok(sum(len(x[1]) for x in alone['sent']) > 8, 'alone', 'the observer sees nothing')
    i = 0
    jobs = [(seq, at, ((), -1)) for n in range(depth + 1) for seq in itertools.product(range(len(ACTS)), repeat=n) for at in (range(10) if n < 3 else (0, 4, 9) if n == 3 else (5,))]
    if two:
        jobs += [(x, a, (y, b)) for x in itertools.product(range(len(ACTS)), repeat=1) for y in itertools.product(range(len(ACTS)), repeat=2) for a, b in ((0, 3), (1, 7), (3, 8))]
    for seq, at, late in jobs:
        i += 1
        if i % parts != part:
            continue
        for first in (True, False):
            case = dict(actions=[ACTS[a].__name__[4:] for a in seq], before_step=at, later=([ACTS[a].__name__[4:] for a in late[0]], late[1]), other_created_first=first)
            ctx.current = case
            v, L, nodes = together(seq, at, first, late)
            for x in alone:
                ctx.eq(v[x], alone[x], case, 'second node, ' + x)
            ctx.eq(L.w.errors, [], case, 'operations on closed sockets')
            ctx.eq(len(L.w.fds), 0, case, 'sockets left open')
            ctx.trans(10 + len(seq))
            ctx.trace()
            ctx.state((seq, at, late, first))
    ctx.sample(case)


def units(tier):
    q = tier == 'quick'
    for x in WHAT:
        yield 'stop ' + x, u_stop, (x,)
        if x not in ('waiting',):
            for y in ('loop', 'message', 'after a peer'):
                yield 'close %s %s' % (x, y), u_close, (x, y)
    yield 'deaf', u_deaf, ()
    yield 'create', u_create, ()
    for k in range(16):
        yield 'pairs-%d' % k, u_pairs, (3 if q else 4, k, 16, not q)
