"""C37: nodes of this code talk to each other: handshake, gossip, restart."""
import collections
import itertools

from .c36 import rounds, quiet

LEVEL = 'model_checking'
BOUNDS = dict(quick='two nodes: all reachable states of {round of A, round of B, carry everything or 13 bytes of either direction, 11 s pass} with one time step or at most 2 partial carries, and of two connections opened from both sides; each state completed fairly; 2 to 4 nodes: all connected topologies of initial links (n-1 or n of them), each way round, over 12-20 heartbeats, for 3 nodes every choice sequence with up to 1 deviation from a fair one; the same on one host; restart of each node',
              thorough='at most 3 partial carries of 13 or 24 bytes together with a time step, two time steps; 1 deviation with 4 nodes, 5 nodes')
ASSUMPTIONS = ['the network between the nodes carries bytes in order and refuses connections to ports nobody listens on']


def lab():
    from ..multi import Lab
    quiet()
    lab.now = Lab()
    return lab.now


def pair():
    L = lab()
    a = L.add(('10.0.0.1', 2001))
    b = L.add(('10.0.0.2', 2002))
    a.bad, b.bad = [], []
    for s in (a, b):
        s.node.invalid_command = lambda peer, payload, e, s=s: s.bad.append((payload, e))
        s.start()
    L.cur = a
    assert a.node.add_peer(('10.0.0.2', 2002))
    L.scan()
    return L, a, b


def apply(L, e):
    a, b = L.seats[:2]
    if e == 'A':
        a.step()
    elif e == 'B':
        b.step()
    elif e == 'tick':
        L.w.now += 11
    elif e == 'cross':
        L.cur = b
        b.node.add_peer(('10.0.0.1', 2001))
        L.scan()
    else:
        k, side, n = e
        if k >= len(L.links):
            return False
        return L.links[k].carry(side, n)
    return True


def plain(P, c, f):
    return c, tuple(f.items())


def safety(ctx, L, case):
    """What arrived is what was sent, so far, in order."""
    P = L.p
    for l in L.links:
        for side in (0, 1):
            (src, rs), (dst, rd) = l.ends[side], l.ends[1 - side]
            sent = [plain(P, c, f) for c, f in P.decode(rs.got) if c != '?']
            seen = [(c, f) for a, c, f, t in dst.dispatched if a == rd.address]
            ctx.eq(seen, sent[:len(seen)], case, 'messages from node %d to node %d' % (src.index, dst.index))
    for s in L.seats:
        ctx.eq(s.bad, [], case, 'messages refused by node %d' % s.index)
        ctx.ok(all(p.banscore == 0 for p in s.node.peers), case, 'node %d punishes its peer' % s.index)
        ctx.eq(s.end, None, case, 'node %d ended' % s.index)
    ctx.eq(L.w.errors, [], case, 'socket errors')


def final(ctx, L, case):
    ctx.ok(L.settle(), case, 'the nodes never become quiet')
    safety(ctx, L, case)
    for l in L.links:
        for side in (0, 1):
            (s, rs), (d, rd) = l.ends[side], l.ends[1 - side]
            sent = [plain(L.p, c, f) for c, f in L.p.decode(rs.got)]
            seen = [(c, f) for a, c, f, t in d.dispatched if a == rd.address]
            ctx.eq(seen, sent, case, 'messages from node %d to node %d at the end' % (s.index, d.index))
            names = [c for c, f in sent]
            ctx.eq((names[:1], names.count('version'), names.count('verack')), (['version'], 1, 1), case, 'handshake of node %d' % s.index)
            ps = [p for p in d.node.peers if p.address == rd.address]
            ctx.eq(len(ps), 1, case, 'connections of node %d to the other' % d.index)
            p, v = ps[0], dict(sent[0][1])
            ctx.eq((p.verack, p.version, p.services, p.start_height, p.user_agent), (True, v['version'], v['services'], v['start_height'], s.node.user_agent.encode() if not isinstance(p.user_agent, str) else s.node.user_agent), case, 'what node %d knows of its peer' % d.index)
            ctx.eq(p.external_ip, d.ip, case, 'address node %d is told' % d.index)
            ctx.eq(d.node.external_ip, d.ip, case, 'external address of node %d' % d.index)
    # each knows the other now
    for l in L.links:
        for side in (0, 1):
            (s, rs), (d, rd) = l.ends[side], l.ends[1 - side]
            n = len(rd.got)
            L.w.now += 1
            rd.send(L.p.msg('getaddr'))     # as if the other asked
            rounds(d, 4)
            more = L.p.decode(rd.got[n:])
            book = [(x['address'], x['port']) for c, f in more if c == 'addr' for x in map(dict, dict(f)['addr_list'])]
            ctx.ok(any(pt == rd.address[1] for ip, pt in book), case, 'node %d does not hand out its peer %r: %r' % (d.index, rd.address, book))


def u_pair(ctx, budget, sizes, ticks, cross):
    """budget: partial carries allowed from either side."""
    from ..multi import key
    seen = set()
    stack = collections.deque([()])
    while stack:
        path = stack.popleft()
        L, a, b = pair()
        ok = True
        case = dict(events=[str(e) for e in path])
        ctx.current = case
        for e in path:
            ok = apply(L, e)
        k = key(L) if ok else None
        left = [budget[side] - sum(1 for e in path if isinstance(e, tuple) and e[1] == side and e[2]) for side in (0, 1)]
        k = k and (k, tuple(left), path.count('tick'), path.count('cross'))
        if k is None or k in seen:
            L.close()
            continue
        seen.add(k)
        safety(ctx, L, case)
        ctx.state(hash(k))
        ctx.trans()
        ev = ['A', 'B']
        for i in range(len(L.links)):
            for side in (0, 1):
                if L.links[i].waiting(side):
                    ev.append((i, side, None))
                    if left[side]:
                        ev += [(i, side, n) for n in sizes if n < L.links[i].waiting(side)]
        if path.count('tick') < ticks:
            ev.append('tick')
        if cross and 'cross' not in path:
            ev.append('cross')
        final(ctx, L, case)
        ctx.trace()
        L.close()
        for e in ev:
            stack.append(path + (e,))
    ctx.sample(case)


def at(host, i):
    return host % (i + 1) if '%' in host else host


def mesh(n, links, choose, seek, host='10.0.0.%d'):
    """n nodes (on hosts of their own or one), initial links (i opens to j), heartbeats; returns the lab."""
    L = lab()
    L.w.choose = choose
    for i in range(n):
        s = L.add((at(host, i), 2001 + i), seek=seek)
        s.bad = []
        s.node.invalid_command = lambda peer, payload, e, s=s: s.bad.append((payload, e))
        s.start()
    for i, j in links:
        L.cur = L.seats[i]
        L.seats[i].node.add_peer((at(host, j), 2001 + j))
        L.scan()
    return L


def out_links(L, i):
    """Open connections of node i: (other node, which way)."""
    out = []
    for l in L.links:
        for side in (0, 1):
            if l.ends[side][0].index == i and not l.ends[side][1].closed:
                out.append((l.ends[1 - side][0].index, 'out' if side == 0 else 'in'))
    return sorted(out)


def beats(L, k, ctx=None, case=None):
    for _ in range(k):
        L.w.now += 11
        if not L.settle():
            raise AssertionError('the nodes never become quiet')
        if ctx is not None:
            check_mesh(ctx, L, case)


def check_mesh(ctx, L, case):
    for s in L.seats:
        if s.end:
            continue
        mine = out_links(L, s.index)
        ctx.ok(all(j != s.index for j, w in mine), case, 'node %d is connected to itself' % s.index)
        outs = [j for j, w in mine if w == 'out']
        ctx.eq(len(outs), len(set(outs)), case, 'node %d opened two connections to one address' % s.index)
        ctx.eq(s.bad, [], case, 'messages refused by node %d' % s.index)
    ctx.eq(L.w.errors, [], case, 'socket errors')


def topologies(n):
    """Connected sets of initial links, one way each, not more than n of them; up to the first few per shape."""
    edges = list(itertools.combinations(range(n), 2))
    for k in range(n - 1, n + 1):
        for es in itertools.combinations(edges, k):
            comp = {0}
            for _ in range(n):
                for i, j in es:
                    if i in comp or j in comp:
                        comp |= {i, j}
            if len(comp) < n:
                continue
            for flip in itertools.product((0, 1), repeat=k):
                yield tuple((j, i) if f else (i, j) for (i, j), f in zip(es, flip))


def deviating(run, bound):
    """All choice sequences with at most `bound` choices other than those of a fair source (each option in turn)."""
    todo = [()]
    while todo:
        dev = todo.pop()
        log, turn = [], {}

        def choose(n, what='', dev=dict(dev)):
            k = len(log)
            log.append(n)
            who = lab.now.cur.index, n, what
            turn[who] = turn.get(who, -1) + 1
            return (turn[who] + dev.get(k, 0)) % n
        run(choose)
        last = dev[-1][0] if dev else -1
        if len(dev) < bound:
            for k in range(last + 1, len(log)):
                if 1 < log[k] <= 8:
                    for v in range(1, log[k]):
                        todo.append(dev + ((k, v),))
        yield dev


def u_mesh(ctx, n, part, parts, bound, ticks, host='10.0.0.%d'):
    tops = list(topologies(n))
    for t, links in enumerate(tops):
        if t % parts != part:
            continue
        enough = 2 * (n - 1)      # two nodes can be connected both ways
        for seek in (1, n - 1, enough, 16):
            def run(choose):
                case = dict(nodes=n, links=links, seek=seek, host=host)
                ctx.current = case
                L = mesh(n, links, choose, seek, host)
                L.settle()
                beats(L, ticks, ctx, case)
                for s in L.seats:
                    have = {j for j, w in out_links(L, s.index)}
                    if seek >= n - 1:
                        ctx.ok(len(have) >= 1, case, 'node %d is alone' % s.index)
                    # who listens and is known to somebody gets known to everybody who asks
                    if seek >= enough:
                        for j in {y for x, y in links} - {s.index}:
                            ctx.ok(j in have, case, 'node %d never connected to the listening node %d: %s' % (s.index, j, have))
                ctx.state((links, seek, tuple(tuple(out_links(L, i)) for i in range(n))))
                ctx.trans(ticks)
                ctx.trace()
                L.close()
                ctx.eq(len(L.w.fds), 0, case, 'sockets left open')
            for dev in deviating(run, bound if seek == enough else 0):
                pass


def u_restart(ctx, n, ticks):
    for links in list(topologies(n))[:12]:
        for dead in range(n):
            for wait in (0, 1, 3):
                case = dict(nodes=n, links=links, restarted=dead, after=wait)
                ctx.current = case
                L = mesh(n, links, lambda n, what='': 0, n - 1)
                L.settle()
                beats(L, 6)
                s = L.seats[dead]
                s.stop()
                ctx.eq(s.end, ('returned',), case, 'end of the node')
                L.settle()
                for o in L.seats:
                    ctx.ok(all(j != dead for j, w in out_links(L, o.index)), case, 'node %d keeps a connection to the stopped node' % o.index)
                beats(L, wait)
                L.seats.remove(s)
                new = L.add(('10.0.0.%d' % (dead + 1), 2001 + dead), seek=n - 1)
                new.index = dead
                new.bad = []
                new.start()
                other = next(o for o in L.seats if o is not new)
                L.cur = new
                ctx.ok(new.node.add_peer(other.node.address), case, 'the new node can not connect')
                L.scan()
                ctx.ok(L.settle(), case, 'the nodes never become quiet')
                beats(L, ticks, ctx, case)
                ctx.ok((other.index, 'out') in out_links(L, dead), case, 'the restarted node is not connected')
                ps = [p for p in new.node.peers if p.address == other.node.address]
                ctx.ok(len(ps) == 1 and ps[0].verack and ps[0].version == 70002, case, 'the restarted node did not finish the handshake')
                ctx.state((links, dead, wait))
                ctx.trans(ticks)
                ctx.trace()
                L.close()


def units(tier):
    q = tier == 'quick'
    sizes = (13,) if q else (13, 24)
    for budget in ((0, 0), (2, 0), (0, 2), (1, 1)) if q else ((3, 0), (0, 3), (2, 1), (1, 2)):
        yield 'pair %d %d' % budget, u_pair, (budget, sizes, (1 if not sum(budget) else 0) if q else 1, False)
    if not q:
        yield 'pair steps', u_pair, ((0, 0), sizes, 2, False)
    for budget in ((0, 0),) if q else ((1, 0), (0, 1)):
        yield 'cross %d %d' % budget, u_pair, (budget, sizes, 0, True)
    for n, parts in ((2, 1), (3, 4), (4, 12)) + (() if q else ((5, 40),)):
        for k in range(parts):
            yield 'mesh %d-%d' % (n, k), u_mesh, (n, k, parts, (1 if n == 3 else 0) if q else 1 if n < 5 else 0, 12 if n < 4 else 20)
    for host in ('10.0.0.1', '127.0.0.1'):
        for n in (2, 3) if q else (2, 3, 4):
            yield 'one host %s %d' % (host, n), u_mesh, (n, 0, 1, 0, 12, host)
    for n in (2, 3) if q else (2, 3, 4):
        yield 'restart %d' % n, u_restart, (n, 8)
