"""C11: the external address."""
import itertools

from ..nethist import Net, lab

LEVEL = 'model_checking'
BOUNDS = dict(quick='every sequence of 5 out of (version reporting one of 3 addresses, disconnect, reconnect) of 4 peers up to their symmetry, incoming and outgoing ones mixed; set and unset explicit addresses at every place; every pair of 12 special addresses (own, local, unspecified) with 2-5 reports; 3 to 40 peers with the majority at every place; 16 orders of other messages around the report x 4 kinds of node x 6 moments of setting the address',
              thorough='sequences of 7 (2 addresses), 6 (3 addresses)')
ASSUMPTIONS = ['among equally many reports any of the addresses is right', 'between version messages the belief may be older']

IPS = ['8.8.8.8', '99.0.0.1', '2001:db8::9']


def seqs(depth, ips, peers=4):
    """Event sequences; peers are numbered in the order of their first event."""
    out = []

    def go(seq, used, live):
        if len(seq) == depth:
            out.append(tuple(seq))
            return
        for p in range(min(used + 1, peers)):
            for ip in range(ips):
                go(seq + [(p, ip)], max(used, p + 1), live | {p})
            if p in live:
                go(seq + [(p, 'gone')], used, live - {p})
    go([], 0, frozenset())
    return out


def votes(ctx, depth, ips, way, part, parts):
    P = lab()
    for i, seq in enumerate(seqs(depth, ips)):
        if i % parts != part:
            continue
        ex = i % (3 * depth)      # an explicit address is set before event ex (and unset before the one after next)
        ex = ex // 3 if ex % 3 == 0 else None
        case = dict(events=seq, way=way, explicit_before=ex)
        ctx.current = case

        def sc(net):
            node, w = net.node, net.w
            rem, said = {}, {}
            port = [1000]
            yield
            first = node.external_ip
            current = None
            expl = None
            for k, (p, what) in enumerate(seq):
                if ex == k:
                    node.external_ip = expl = '77.7.7.7'
                elif ex is not None and k == ex + 2:
                    node.external_ip = expl = None
                if what == 'gone':
                    rem[p].eof = True
                    said.pop(p, None)
                    yield
                    del rem[p]
                else:
                    if p not in rem:
                        port[0] += 1
                        if way == 'in' or (way == 'mix' and p & 1):
                            rem[p] = w.connect('1.1.1.%d' % p, port[0])
                        else:
                            node.add_peer(('1.1.1.%d' % p, port[0]))
                            rem[p] = w.remotes[-1]
                        yield
                    rem[p].send(P.version(IPS[what]) + (P.VERACK if k & 1 else b''))
                    said[p] = what
                    yield
                    count = [list(said.values()).count(x) for x in range(ips)]
                    best = [IPS[x] for x in range(ips) if count[x] == max(count)]
                    if expl:
                        best = [expl]
                    ctx.ok(P.R.ip16(node.external_ip) in [P.R.ip16(x) for x in best], dict(case, at=k), 'external address %s with reports %s' % (node.external_ip, {IPS[x]: n for x, n in enumerate(count) if n}))
                if expl:
                    ctx.eq(node.external_ip, expl, dict(case, at=k), 'external address after it was set')
                ctx.trans()
                ctx.state((tuple(sorted(said.items())), expl, node.external_ip))
            now = node.external_ip
            d = w.connect('5.5.5.5', 5)
            yield
            node.add_peer(('5.5.5.6', 6))
            yield
            for r in (d, w.remotes[-1]):
                v = P.decode(r.got)[0][1]
                ctx.eq(dict(v['addr_from'])['address'], P.R.ip16(now), case, 'address advertised to a new peer')
        net = Net(log=None).run(sc)
        ctx.ok(net.done, case, 'the event loop stopped')
        ctx.trace()
        ctx.distinct()


SPECIAL = ['0.0.0.0', '127.0.0.1', '255.255.255.255', '10.0.0.1', '1.1.1.0', '224.0.0.1', '0:0:0:0:0:0:0:0', '0:0:0:0:0:0:0:1', 'fe80:0:0:0:0:0:0:1', '9.9.9.9', '10.9.9.9']


def special(ctx, part, parts):
    """No address is special: not the bound one, the local ones, the peer's own, nor one that sorts low."""
    P = lab()
    for i, (a, b, order) in enumerate((a, b, o) for a in ['own'] + SPECIAL for b in ['own'] + SPECIAL if a != b for o in ((0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0), (0,), (1, 1, 0, 0, 0))):
        if i % parts != part:
            continue
        case = dict(addresses=(a, b), reports=order)
        ctx.current = case

        def sc(net):
            node, w = net.node, net.w
            yield
            names = [node.ip if x == 'own' else x for x in (a, b)]
            if P.R.ip16(names[0]) == P.R.ip16(names[1]):
                return
            said = []
            for k, o in enumerate(order):
                r = w.connect('1.1.1.%d' % k, 1000 + k)
                yield
                r.send(P.version(names[o]) + P.VERACK)
                said.append(o)
                yield
                best = [names[x] for x in (0, 1) if said.count(x) * 2 >= len(said)]
                ctx.ok(P.R.ip16(node.external_ip) in [P.R.ip16(x) for x in best], dict(case, at=k), 'external address %s with reports %s' % (node.external_ip, [names[x] for x in said]))
                ctx.trans()
            d = w.connect('5.5.5.5', 5)
            yield
            ctx.eq(dict(P.decode(d.got)[0][1]['addr_from'])['address'], P.R.ip16(names[0]), case, 'address advertised to a new peer')
            ctx.state((a, b, order))
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def around(ctx, part, parts):
    """A report counts whatever came before or after it, and an address set explicitly wins on every kind of node."""
    P = lab()
    msgs = dict(V=P.version, K=lambda ip: P.VERACK, p=lambda ip: P.msg('ping', nonce=b'12345678'), a=lambda ip: P.msg('addr', addr_list=[]), s=lambda ip: P.version(ip, services=0, version=0), u=lambda ip: P.R.frame(P.MAGIC, 'foo', b''))
    todo = [('', o) for o in ('V', 'KV', 'VK', 'KVK', 'pV', 'apV', 'KKV', 'VV', 'KVKV', 's', 'Ks', 'uV', 'Vu', 'Vp', 'sV', 'VsK')]
    for i, ((_, order), listen, way, explicit) in enumerate(itertools.product(todo, (('10.9.8.7', 20303), ('127.0.0.1', 0), ('', 1), None), ('in', 'out'), (None, 'before', 'between', 'after', 'unset', 'undone'))):
        if i % parts != part or (listen is None and way == 'in'):
            continue
        case = dict(messages=order, listen=listen, way=way, explicit=explicit)
        ctx.current = case

        def sc(net):
            node, w = net.node, net.w
            yield
            if explicit in ('before', 'unset'):
                node.external_ip = '77.7.7.7'
            if explicit == 'undone':          # as if it had never been set
                start = node.external_ip
                node.external_ip = '77.7.7.7'
                node.external_ip = None
                ctx.eq(node.external_ip, start, case, 'external address after it was set and unset')
            said = []
            for k, ip in enumerate(('8.8.8.8', '9.9.9.9', '9.9.9.9')):
                if way == 'in':
                    r = w.connect('1.1.1.%d' % k, 1000 + k)
                else:
                    node.add_peer(('1.1.1.%d' % k, 1000 + k))
                    r = w.remotes[-1]
                yield
                for c in order:
                    r.send(msgs[c](ip))
                yield
                said.append(ip)
                if explicit == 'between' and k == 1:
                    node.external_ip = '77.7.7.7'
                if explicit == 'unset' and k == 2:
                    node.external_ip = None
                if explicit == 'before' or explicit == 'between' and k >= 1 or explicit == 'unset' and k < 2:
                    best = ['77.7.7.7']
                else:
                    best = [x for x in said if said.count(x) == max(map(said.count, said))]
                ctx.ok(node.external_ip in best, dict(case, at=k), 'external address %s, expected one of %s' % (node.external_ip, best))
                ctx.trans()
            if explicit == 'after':
                node.external_ip = best = '77.7.7.7'
                ctx.eq(node.external_ip, best, case, 'external address after it was set')
            now = node.external_ip
            node.add_peer(('5.5.5.6', 6))
            yield
            ctx.eq(dict(P.decode(w.remotes[-1].got)[0][1]['addr_from'])['address'], P.R.ip16(now), case, 'address advertised to a new peer')
            ctx.state((order, listen, way, explicit))
        ctx.ok(Net(listen=listen, log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def many(ctx, way):
    """Every number of peers up to 40; the majority is at the start, at the end or alternating; every report counts once."""
    P = lab()
    for n in (3, 9, 16, 17, 18, 25, 33, 40):
        for shape in ('start', 'end', 'mixed', 'three'):
            m = n // 2 + 1
            if shape == 'three':
                m = n // 3 + 1
                said = [0] * m + [1 + k % 2 for k in range(n - m)]
                said = said[::-1] if n % 2 else said
            else:
                said = [0] * m + [1] * (n - m)
                if shape == 'end':
                    said = said[::-1]
                elif shape == 'mixed':
                    said = [said[k * m % n] if n % 2 == 0 else said[k] for k in sorted(range(n), key=lambda k: k * 7 % n)]
            ips = ['8.8.8.8', '9.9.9.9', '7.7.7.7'] if n & 1 else ['5.8.8.8', '6.9.9.9', '7.7.7.7']
            case = dict(peers=n, shape=shape, way=way)
            ctx.current = case

            def sc(net):
                node, w = net.node, net.w
                yield
                rem = []
                for k, o in enumerate(said):
                    if way == 'in' or k & 1:
                        rem.append(w.connect('1.1.1.%d' % k, 1000 + k))
                    else:
                        node.add_peer(('1.1.1.%d' % k, 1000 + k))
                        rem.append(w.remotes[-1])
                    yield
                    rem[-1].send(P.version(ips[o]))
                    yield
                    c = [said[:k + 1].count(x) for x in range(3)]
                    ctx.ok(node.external_ip in [ips[x] for x in range(3) if c[x] == max(c)], dict(case, at=k), 'external address %s with reports %s' % (node.external_ip, c))
                    ctx.trans()
                ctx.state((n, shape, way))
            ctx.ok(Net(log=None, max_peers=100).run(sc).done, case, 'the event loop stopped')
            ctx.trace()


def units(tier):
    q = tier == 'quick'
    for k in range(4):
        yield ('special-%d' % k, special, (k, 4))
        yield ('around-%d' % k, around, (k, 4))
    for way in ('in', 'mix'):
        yield ('many-%s' % way, many, (way,))
    for k in range(8):
        yield ('votes3-%d' % k, votes, (5 if q else 6, 3, 'in', k, 8))
        yield ('votes2-%d' % k, votes, (5 if q else 7, 2, 'mix', k, 8))
    yield ('short', votes, (3, 3, 'mix', 0, 1))
    yield ('one', votes, (1, 3, 'mix', 0, 1))
    yield ('pairs', votes, (2, 3, 'out', 0, 1))
