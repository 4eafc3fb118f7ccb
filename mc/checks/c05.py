"""C05: no peer stops the node or disturbs others."""
import errno
import itertools

from ..nethist import Net, lab, frame

LEVEL = 'model_checking'
BOUNDS = dict(quick='every sequence of 2 out of 42 and 3 out of 26 events of a misbehaving peer (connects of 5 kinds, data good and bad, half-close, reset, errors of recv, send, accept, getpeername, socket, punishment, removal, closing while messages are pending), one after another and all in one round of the loop, next to a well-behaved peer; every event 1100 times; 1100 connections; connections which fail in 17 ways while the node has 0 to 9 other peers',
              thorough='every sequence of 3 out of 42 and of 4 out of 26 events; every event 6000 times')
ASSUMPTIONS = ['socket calls fail with the errors listed in netenv.py and the check; a maximum of peers which select() can handle']

PEER_B, PEER_D = ('2.2.2.2', 2000), ('4.4.4.4', 4000)


class Hist(object):
    def __init__(self, ctx, P, events, together, seek=0, every=0):
        self.ctx, self.P, self.events, self.together, self.seek, self.every = ctx, P, events, together, seek, every
        self.n = 0
        self.cur = None       # the remote of the misbehaving peer
        self.alive = False    # the node has to keep serving it
        self.pongs = []       # pongs it has to get
        self.late = []
        self.port = 1000

    def ping(self, r, tag):
        self.n += 1
        nonce = b'%s%07d' % (tag, self.n)
        r.send(self.P.msg('ping', nonce=nonce))
        return nonce

    def incoming(self, net, ok=True, **kw):
        self.port += 1
        self.cur = net.w.connect('1.1.%d.%d' % (self.port // 250, self.port % 250 + 1), self.port, **kw)
        self.alive, self.pongs = ok, []

    def outgoing(self, net, how, ok):
        self.port += 1
        n = len(net.w.remotes)
        net.w.policy = lambda a: how
        net.node.add_peer(('3.3.3.3', self.port))
        self.cur = net.w.remotes[-1] if len(net.w.remotes) > n else None
        self.alive, self.pongs = ok and self.cur is not None, []

    def event(self, net, e):
        P, w, r = self.P, net.w, self.cur
        if e == 'in':
            return self.incoming(net)
        if e == 'in-name':
            return self.incoming(net, None, name_err=errno.ENOTCONN)
        if e == 'in-fault':
            return self.incoming(net, None, name_err=errno.ENOBUFS)
        if e == 'in-gone':
            return self.incoming(net, False, reset=True)
        if e == 'in-eof':
            return self.incoming(net, False, eof=True)
        if e in ('accept-emfile', 'accept-aborted', 'accept-eagain'):
            w.fail['accept'] = [dict(emfile=errno.EMFILE, aborted=errno.ECONNABORTED, eagain=errno.EAGAIN)[e[7:]]]
            return self.incoming(net)
        if e == 'out':
            return self.outgoing(net, 'accept', True)
        if e == 'out-now':
            return self.outgoing(net, 'immediate', True)
        if e == 'out-refuse':
            return self.outgoing(net, 'refuse', False)
        if e == 'out-noroute':
            return self.outgoing(net, ('late', errno.EHOSTUNREACH), False)
        if e == 'out-timeout':
            return self.outgoing(net, ('late', errno.ETIMEDOUT), False)
        if e == 'out-reset':
            return self.outgoing(net, ('late', errno.ECONNRESET), False)
        if e == 'out-hang':
            return self.outgoing(net, 'hang', None)
        if e == 'out-unreach':
            return self.outgoing(net, errno.ENETUNREACH, False)
        if e == 'out-name':
            self.outgoing(net, 'accept', True)
            self.alive = None
            self.cur.name_err = errno.EINVAL
            return
        if e == 'out-emfile':
            w.fail['socket'] = [errno.EMFILE]
            try:
                self.outgoing(net, 'accept', False)
            finally:
                w.fail.pop('socket', None)
            return
        if r is None or r.closed or r.sock.state == 'connecting':
            if e == 'punish':
                net.node.remove_peer(('9.9.9.9', 9))
            return
        quiet = r.eof or r.reset
        if e == 'version':
            quiet or r.send(P.version() + P.VERACK)
        elif e == 'ping':
            if not quiet:
                n = self.ping(r, b'a')
                if self.alive and r.window is None and not r.dead:
                    self.pongs.append(n)
        elif e == 'junk':
            quiet or r.send(frame(P, 'ping', b'12345678', check=b'abcd') + frame(P, 'what', b'12') + frame(P, 'version', b'short'))
        elif e == 'garbage':
            if not quiet:
                r.send(bytes(range(200, 256)) + b'\xff' * 40)
                self.alive = None       # an endless frame: nothing more is understood
        elif e == 'text':
            if not quiet:
                r.send(b'GET / HTTP/1.1\r\nHost: localhost\r\n\r\n')
                self.alive = None
        elif e == 'half':
            if not quiet:
                r.send(P.msg('inv', inventory=[dict(object_type=1, hash=bytes(32))] * 30)[:777])
                self.alive = None
        elif e == 'flood':
            quiet or r.send(P.msg('mempool') * 4000)
        elif e == 'eof':
            r.eof, self.alive = True, False
        elif e == 'data-eof':
            quiet or self.ping(r, b'a')
            r.eof, self.alive = True, False
        elif e == 'reset':
            del r.inbound[:]
            r.reset, self.alive = True, False
        elif e == 'close-fail':
            w.fail['close'] = [errno.EIO]
            del r.inbound[:]
            r.reset, self.alive = True, False
        elif e == 'data-reset':
            quiet or r.send(P.version() + P.VERACK)
            r.reset, self.alive = True, False
        elif e == 'epipe':
            r.dead = errno.EPIPE
            self.alive = None
        elif e == 'send-timeout':
            r.send_errs = [errno.ETIMEDOUT]
            if not quiet:
                self.ping(r, b'a')
            self.alive = None
        elif e == 'send-eagain':
            r.send_errs = [errno.EAGAIN]
            if not quiet:
                n = self.ping(r, b'a')
                if self.alive and r.window is None and not r.dead:
                    self.pongs.append(n)
        elif e == 'recv-timeout':
            r.recv_errs, self.alive = [errno.ETIMEDOUT], False
        elif e == 'recv-eagain':
            r.recv_errs = [errno.EAGAIN]
        elif e == 'spurious':
            w.spurious.add(r.sock.fd)
        elif e == 'full':
            r.window = 0
        elif e == 'full-pings':
            r.window = 0
            quiet or r.send(P.msg('ping', nonce=b'zzzzzzzz') * 300)
        elif e == 'punish':
            for p in net.node.peers:
                if p.address == r.address:
                    for k in range(6):
                        net.node.punish_peer(p, 'test')
            self.alive = False
        elif e == 'remove':
            net.node.remove_peer(r.address)
            self.alive = False
        elif e == 'suicide':        # the handler of a message removes the peer while more messages are there
            quiet or r.send(P.msg('verack') + P.msg('mempool') + P.msg('getblocks', version=1, block_locator_hashes=[bytes(32)], hash_stop=bytes(32)) + P.msg('ping', nonce=b'toolate!'))
            self.alive = False if not quiet and self.alive else self.alive
        elif e == 'suicide-punish':
            quiet or r.send(P.msg('pong', nonce=b'punishme') * 6 + P.msg('ping', nonce=b'toolate!'))
            self.alive = False if not quiet and self.alive else self.alive

    def case(self):
        return dict(events=[self.events[0], len(self.events)] if self.every else self.events, together=self.together)

    def check(self, net, r_b):
        ctx, w, case = self.ctx, net.w, self.case()
        ctx.trans()
        ctx.ok(20303 in w.listeners, case, 'the listening socket was closed')
        ctx.ok(not self.late, case, 'messages handled after the connection was closed: %s' % self.late)
        ctx.ok(not w.errors, case, 'closed socket used: %s' % w.errors[:2])
        n = self.ping(r_b, b'b')
        r = self.cur
        alive = bool(r is not None and self.alive)
        if alive and r.window is None and not r.closed and not r.eof:
            self.pongs.append(self.ping(r, b'a'))
        yield None
        self.expect.append(n)
        ctx.ok(not r_b.closed, case, 'the other peer was disconnected')
        have = [v['nonce'] for c, v in self.P.decode(r_b.got) if c == 'pong']
        ctx.eq(have, self.expect, case, 'pongs to the other peer')
        ctx.eq([c for c in self.P.commands(r_b.got) if c not in ('pong', 'getaddr')], ['version', 'verack'], case, 'messages to the other peer')
        ctx.ok(not w.errors, case, 'closed socket used: %s' % w.errors[:2])
        peers = {p.address for p in net.node.peers}
        for x in w.remotes:
            if x.closed:
                ctx.ok(x.address not in peers or any(y.address == x.address and not y.closed for y in w.remotes), case, 'a closed connection is still listed as a peer: %s:%d' % x.address)
            elif x.sock.state == 'open' or x.way == 'in':
                ctx.ok(x.address in peers, case, 'an open connection is not listed: %s:%d' % x.address)
            if x.eof or x.reset:
                ctx.ok(x.closed, case, 'a connection closed by the peer is still open: %s:%d' % x.address)
        ctx.eq(len(w.fds), len([x for x in w.remotes if not x.closed]) + 1, case, 'open sockets')
        if alive and r.window is None and not r.dead and not r.eof:
            have = [v['nonce'] for c, v in self.P.decode(r.got) if c == 'pong']
            ctx.ok(not r.closed, case, 'the peer was disconnected without a reason')
            ctx.eq(have, self.pongs, case, 'pongs to the peer itself')
        elif self.alive is False and r is not None and not r.closed:
            ctx.fail(case, 'the connection was not closed')
        ctx.state((self.events[:1], self.done, self.every) if self.every else (self.events[:self.done], self.together, len(peers), bool(r and r.closed)))

    def scenario(self, net):
        ctx = self.ctx
        node = net.node
        self.expect = []

        def on_dispatch(peer, command, kw):
            s = getattr(peer, 'socket', None)
            if getattr(s, 'state', '') == 'closed':
                self.late.append((peer.address, command))
            if command == 'getblocks':
                node.remove_peer(peer.address)
            elif command == 'pong' and kw['nonce'] == b'punishme':
                node.punish_peer(peer, 'test')
        net.on_dispatch = on_dispatch
        b = net.w.connect(*PEER_B)
        b.send(self.P.version() + self.P.VERACK)
        yield
        self.done = 0
        for e in self.events:
            if self.every and self.cur is not None and not self.cur.closed and e.startswith(('in', 'out', 'accept')):
                if self.cur.sock.state == 'connecting':
                    node.remove_peer(self.cur.address)
                else:
                    self.cur.reset = True
                yield
            if (self.done == 0 or (self.every and (self.cur is None or self.cur.closed))) and not e.startswith(('in', 'out', 'accept')):
                self.incoming(net)
                yield
            self.event(net, e)
            self.done += 1
            if not self.together:
                yield
                if self.every and self.done % self.every:
                    continue
                for x in self.check(net, b):
                    yield x
        if self.together:
            n = self.ping(b, b'b')
            self.expect.append(n)
            self.pongs = []
            alive, self.alive = self.alive, None
            yield
            for x in self.check(net, b):
                yield x
        net.w.fail.clear()
        d = net.w.connect(*PEER_D)
        d.send(self.P.version() + self.P.msg('ping', nonce=b'dddddddd'))
        yield
        case = self.case()
        ctx.eq([c for c in self.P.commands(d.got) if c != 'getaddr'], ['version', 'verack', 'pong'], case, 'messages to a new peer')
        for x in self.check(net, b):
            yield x
        yield 21
        for x in self.check(net, b):
            yield x


EVENTS = ['in', 'in-name', 'in-gone', 'in-fault', 'in-eof', 'accept-emfile', 'accept-aborted', 'accept-eagain', 'out', 'out-now', 'out-refuse', 'out-noroute', 'out-timeout', 'out-reset', 'out-hang', 'out-unreach', 'out-name', 'out-emfile',
          'version', 'ping', 'junk', 'garbage', 'text', 'half', 'flood', 'eof', 'data-eof', 'reset', 'close-fail', 'data-reset', 'epipe', 'send-timeout', 'send-eagain', 'recv-timeout', 'recv-eagain', 'spurious',
          'full', 'full-pings', 'punish', 'remove', 'suicide', 'suicide-punish']
CORE = ['in', 'in-name', 'in-gone', 'accept-emfile', 'out', 'out-refuse', 'out-noroute', 'out-hang', 'out-unreach', 'out-name', 'version', 'ping', 'garbage', 'half', 'eof', 'data-eof', 'reset', 'data-reset', 'epipe',
        'send-eagain', 'recv-timeout', 'full-pings', 'punish', 'remove', 'suicide', 'flood']


def events(ctx, depth, together, part, parts, alphabet=None):
    P = lab()
    i = 0
    for seq in itertools.product(alphabet or EVENTS, repeat=depth):
        if 'flood' in seq[:-1]:
            continue
        i += 1
        if i % parts != part:
            continue
        ctx.current = dict(events=seq, together=together)
        h = Hist(ctx, P, seq, together)
        net = Net(log=None)
        net.run(h.scenario)
        ctx.ok(net.done, ctx.current, 'the event loop stopped')
        ctx.ok(not net.w.fds or all(x.closed or x.way for x in net.w.remotes), ctx.current, 'sockets')
        ctx.trace()


def repeat(ctx, e, times):
    """One event again and again; every tenth of the way, and at the end, everything still works."""
    P = lab()
    ctx.current = dict(events=(e, times))
    h = Hist(ctx, P, (e,) * times, False, every=max(times // 10, 1))
    net = Net(log=None)
    net.run(h.scenario)
    ctx.ok(net.done, ctx.current, 'the event loop stopped')
    ctx.trace()


def alone(ctx, how, before, times):
    """Connections which fail while the node has no other peer at all, or only a few, before, between and after others."""
    P = lab()
    case = dict(event=how, other_peers=before, times=times)

    def sc(net):
        w = net.w
        rs = [w.connect('2.2.2.%d' % (k + 1), 2000) for k in range(before)]
        for r in rs:
            r.send(P.version() + P.VERACK)
        yield
        bad = []
        for i in range(times):
            kw = dict()
            if how in ACCEPT:
                w.fail['accept'] = [ACCEPT[how]]
                kw = dict(reset=True)
            elif how == 'in-name':
                kw = dict(name_err=errno.ENOTCONN)
            elif how == 'in-fault':
                kw = dict(name_err=errno.ENOBUFS)
            elif how == 'in-eof':
                kw = dict(eof=True)
            elif how == 'in-gone':
                kw = dict(reset=True)
            if how.startswith('out'):
                w.policy = lambda a: how[4:]
                net.node.add_peer(('3.3.3.%d' % (i + 1), 3000))
                yield
                net.node.remove_peer(('3.3.3.%d' % (i + 1), 3000))
            else:
                bad.append(w.connect('1.1.1.%d' % (i + 1), 1000, **kw))
            yield
            ctx.trans()
            ctx.ok(20303 in w.listeners, case, 'the listening socket was closed')
        w.fail.clear()
        yield
        for r in bad:
            r.reset = True
        yield
        rs += [w.connect('4.4.4.4', 4000)]
        rs[-1].send(P.version() + P.VERACK)
        yield
        ctx.ok(20303 in w.listeners, case, 'the listening socket was closed')
        for r in rs:
            r.send(P.msg('ping', nonce=b'alone-01'))
        yield
        for r in rs:
            ctx.ok(not r.closed and 'pong' in P.commands(r.got), case, 'peer %s:%d not served' % r.address)
        ctx.eq(sorted(p.address for p in net.node.peers), sorted(r.address for r in rs), case, 'peers')
        ctx.eq(len(w.fds), len(rs) + 1, case, 'open sockets')
        ctx.state((how, before, times))
    net = Net(log=None)
    net.run(sc)
    ctx.ok(net.done, case, 'the event loop stopped')
    ctx.trace()


ACCEPT = dict([('accept-emfile', errno.EMFILE), ('accept-enfile', errno.ENFILE), ('accept-nobufs', errno.ENOBUFS), ('accept-aborted', errno.ECONNABORTED), ('accept-eagain', errno.EAGAIN), ('accept-proto', errno.EPROTO), ('accept-perm', errno.EPERM)])


def all_alone(ctx, times):
    for how in sorted(ACCEPT) + ['in-name', 'in-fault', 'in-eof', 'in-gone', 'out-refuse', 'out-noroute', 'out-timeout', 'out-reset', 'out-hang', 'out-unreach']:
        for before in (0, 1, 2, 3, 5, 9):
            ctx.current = dict(event=how, other_peers=before, times=times)
            alone(ctx, how, before, times)


def many(ctx, how, limit):
    """Far more connections than allowed; the oldest stay served, places that become free are used."""
    P = lab()

    def sc(net):
        first = net.w.connect('2.2.2.2', 2000)
        first.send(P.version())
        yield
        rs = []
        for i in range(1100):
            rs.append(net.w.connect('1.%d.%d.1' % (i // 200, i % 200), 1000 + i))
            if how == 'each':
                yield
        yield
        case = dict(connections=1101, max_peers=limit)
        ctx.trans(1101)
        free = min(3, limit - 1)
        open_ = [r for r in [first] + rs if not r.closed]
        ctx.eq(len(open_), limit, case, 'open connections')
        ctx.eq(len(net.node.peers), limit, case, 'peers')
        ctx.ok(not first.closed, case, 'the first peer was disconnected')
        for r in open_:
            r.send(P.msg('ping', nonce=b'12345678'))
        yield
        for r in open_:
            ctx.ok('pong' in P.commands(r.got), case, 'peer %s:%d not served' % r.address)
        for r in open_[1:1 + free]:
            r.reset = True
        yield
        late = [net.w.connect('7.7.7.%d' % k, 7) for k in range(6)]
        yield
        ctx.eq([r.closed for r in late], [False] * free + [True] * (6 - free), case, 'new peers after some left')
        ctx.ok(20303 in net.w.listeners, case, 'the listening socket was closed')
        ctx.state((how, limit))
    net = Net(log=None, max_peers=limit).run(sc)
    ctx.ok(net.done, None, 'the event loop stopped')
    ctx.trace()


def units(tier):
    N = 8
    for together in (False, True):
        for k in range(N):
            yield ('events2-%s-%d' % (together, k), events, (2, together, k, N))
            yield ('events3-%s-%d' % (together, k), events, (3, together, k, N, CORE if tier == 'quick' else None))
    for e in EVENTS:
        if e != 'flood':
            yield ('repeat-' + e, repeat, (e, 60 if e == 'full-pings' else 1100 if tier == 'quick' else 6000))
    if tier != 'quick':
        for together in (False, True):
            for k in range(32):
                yield ('events4-%s-%d' % (together, k), events, (4, together, k, 32, CORE))
    for times in (1, 2, 7) if tier == 'quick' else (1, 2, 3, 7, 20, 120):
        yield ('alone-%d' % times, all_alone, (times,))
    for how in ('each', 'burst'):
        for limit in (1, 125, 900):
            yield ('many-%s-%d' % (how, limit), many, (how, limit))
