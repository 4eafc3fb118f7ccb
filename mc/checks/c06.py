"""C06: version first, one verack per version, pongs echo, getaddr answered, nothing else."""
import itertools

from ..nethist import Net, lab, peer_of

LEVEL = 'model_checking'
BOUNDS = dict(quick='every sequence of 3 out of 21 messages (all registered types, two variants of version, ping and addr) on incoming and outgoing connections, one at a time and in one segment (of 2 also with the node class as it is, without any command method added); pongs for 8400 nonces (every byte at every place); the answer to 132 versions with extreme and historic numbers, services, texts, with and without the relay byte, and ones with the nonce of the node itself; the opening message for 7 listening addresses x explicit external address x user agents x heights x 3 remote addresses',
              thorough='every sequence of 4 messages')
ASSUMPTIONS = ['maintenance messages (getaddr every heartbeat, keep-alive pings) are excluded: no virtual time passes']


def messages(P):
    h = bytes(range(32))
    inv = [dict(object_type=1, hash=h), dict(object_type=2, hash=h)]
    tx = dict(version=1, tx_in=[dict(previous_output=dict(hash=h, index=0), signature_script=b'x', sequence=1)], tx_out=[dict(value=5, pk_script=b'y')], lock_time=0)
    head = dict(version=1, prev_block=h, merkle_root=h, timestamp=1, bits=486604799, nonce=7)
    v2 = dict(version=60002, services=5, timestamp=7, addr_recv=P.addr0('2001:db8::1', 1, 0), addr_from=P.addr0('0.0.0.0', 0, 0), nonce=bytes(8), user_agent=b'', start_height=0, relay=0)
    out = [('version', None, P.version('8.8.4.4', services=1025)), ('version', v2, P.msg('version', **v2)), ('ping', b'12345678', P.msg('ping', nonce=b'12345678')), ('ping', bytes(8), P.msg('ping', nonce=bytes(8))),
           ('pong', None, P.msg('pong', nonce=b'87654321')), ('verack', None, P.VERACK), ('getaddr', None, P.msg('getaddr')), ('mempool', None, P.msg('mempool')),
           ('addr', None, P.msg('addr', addr_list=[])), ('addr', None, P.msg('addr', addr_list=[dict(timestamp=5, services=1, address='7.7.7.7', port=7)])),
           ('reject', None, P.msg('reject', message=b'version', ccode=17, reason=b'old')), ('alert', None, P.msg('alert', payload=b'abc', signature=b'def')),
           ('tx', None, P.msg('tx', **tx)), ('block', None, P.msg('block', txns=[tx], **head)), ('headers', None, P.msg('headers', headers=[dict(head, txn_count=0)]))]
    out += [(c, None, P.msg(c, inventory=inv)) for c in ('inv', 'getdata', 'notfound')]
    out += [(c, None, P.msg(c, version=70002, block_locator_hashes=[h], hash_stop=bytes(32))) for c in ('getblocks', 'getheaders')]
    out.append(('inv', None, P.msg('inv', inventory=[])))
    return out


def replies(seq):
    out = []
    for c, v, _ in seq:
        out += {'version': [('verack', None)], 'ping': [('pong', v)], 'getaddr': [('addr', None)]}.get(c, [])
    return out


def sequences(ctx, depth, way, part, parts, plain=False):
    P = lab()
    ms = messages(P)
    V1 = dict(version=70002, services=1025, start_height=77, user_agent=b'/ref:1/', relay=1, external_ip='8.8.4.4')
    V2 = dict(version=60002, services=5, start_height=0, user_agent=b'', relay=0, external_ip='2001:db8::1')
    for i, idx in enumerate(itertools.product(range(len(ms)), repeat=depth)):
        if i % parts != part:
            continue
        seq = [ms[k] for k in idx]
        for together in (False, True):
            case = dict(messages=[(c, k) for (c, _, _), k in zip(seq, idx)], connection=way, together=together, plain=plain)
            ctx.current = case

            def details(net, r, n):
                p = peer_of(net, r)
                ctx.ok(p is not None, case, 'disconnected')
                last = [k for k in idx[:n] if ms[k][0] == 'version']
                w = dict.fromkeys(V1) if not last else V1 if last[-1] == 0 else V2
                for k in w:
                    x = getattr(p, k)
                    if isinstance(x, str) and k == 'user_agent':
                        x = x.encode('latin-1')
                    ctx.ok(x == w[k] or (k == 'external_ip' and x is not None and w[k] is not None and P.R.ip16(x) == P.R.ip16(w[k])), case, 'after %d messages: %s is %r, expected %r' % (n, k, x, w[k]))
                ctx.eq(bool(p.verack), any(ms[k][0] == 'verack' for k in idx[:n]), case, 'acknowledged after %d messages' % n)
                ctx.eq(p.incoming, way == 'in', case, 'incoming')
                ctx.eq((p.address, p.ip, p.port, p.node), (('1.2.3.4', 5678), '1.2.3.4', 5678, net.node), case, 'who the peer is')

            def sc(net):
                yield
                if way == 'in':
                    r = net.w.connect('1.2.3.4', 5678)
                else:
                    net.w.policy = lambda a: way
                    net.node.add_peer(('1.2.3.4', 5678))
                    r = net.w.remotes[-1]
                yield
                ctx.eq(P.commands(r.got), ['version'], case, 'sent before anything arrived')
                details(net, r, 0)
                if together:
                    r.send(b''.join(m[2] for m in seq))
                    yield
                    n = len(seq)
                    have = [(c, v.get('nonce') if c == 'pong' else None) for c, v in P.decode(r.got)[1:]]
                    ctx.eq(have, replies(seq), case, 'answers')
                    details(net, r, n)
                else:
                    for n in range(1, len(seq) + 1):
                        r.send(seq[n - 1][2])
                        yield
                        have = [(c, v.get('nonce') if c == 'pong' else None) for c, v in P.decode(r.got)[1:]]
                        ctx.eq(have, replies(seq[:n]), case, 'answers after %d messages' % n)
                        details(net, r, n)
                        ctx.trans()
            net = Net(log=None, plain=plain).run(sc)
            ctx.ok(net.done, case, 'the event loop stopped')
            ctx.trace()
        ctx.state((way, idx, plain))


LISTEN = [('10.9.8.7', 20303), ('0.0.0.0', 8333), ('', 1), ('localhost', 65535), ('127.0.0.1', 0), ('10.9.8.7', 0), None]


def clocks(ctx):
    """Version messages and replies under other clocks and heights."""
    P = lab()
    for now, height, way in itertools.product((1, 1000, 10 ** 9 - 1, 2 ** 31 - 60, 2 ** 31 + 1, 2 ** 31 + 10 ** 8 + 0.999, 3 * 10 ** 9 + 0.5, 2 ** 32 - 10 ** 6), (-2 ** 31, -1, 0, 1, 255, 500000, 2 ** 31 - 1), ('in', 'immediate')):
        case = dict(clock=now, height=height, way=way)
        ctx.current = case

        def sc(net):
            net.node.blockchain_height = height
            net.w.now = float(now)
            yield
            if way == 'in':
                r = net.w.connect('1.2.3.4', 1000)
            else:
                net.w.policy = lambda a: way
                ctx.ok(net.node.add_peer(('1.2.3.4', 1000)), case, 'add_peer failed')
                r = net.w.remotes[-1]
            yield
            d = P.decode(r.got)
            ctx.eq([c for c, _ in d], ['version'], case, 'messages')
            ctx.eq((d[0][1]['timestamp'], d[0][1]['start_height']), (int(net.w.now), height), case, 'timestamp and height')
            r.send(P.version(timestamp=int(now)) + P.msg('verack'))
            yield
            t = int(net.w.now)
            r.send(P.msg('ping', nonce=b'12345678') + P.msg('getaddr'))
            yield
            d = [(c, v) for c, v in P.decode(r.got) if c != 'getaddr'][1:]
            ctx.eq([c for c, _ in d], ['verack', 'pong', 'addr'], case, 'replies')
            ctx.eq([(a['address'][-4:], a['port'], a['services']) for a in map(dict, d[2][1]['addr_list'])], [(bytes((1, 2, 3, 4)), 1000, 1)], case, 'address of the peer')
            ctx.ok(0 <= t - [dict(a)['timestamp'] for a in d[2][1]['addr_list']][0] <= 12, case, 'timestamp of the peer in the reply')
            ctx.state((now, height, way))
            ctx.trans(3)
        ctx.ok(Net(log=None).run(sc).done, case, 'the event loop stopped')
        ctx.trace()


def opening(ctx):
    """The version message itself."""
    P = lab()
    for listen, ext, agent, height, remote, way in itertools.product(LISTEN, (None, '99.88.77.66', '2001:db8::7'), (None, '/x:1/', ''), (0, 1, 500000, 2 ** 31 - 1) if ctx.thorough else (0, 2 ** 31 - 1),
                                                                   (('1.2.3.4', 5678), ('255.255.255.255', 65535), ('0.0.0.1', 1)), ('in', 'accept', 'immediate')):
        if listen is None and way == 'in':
            continue
        case = dict(listen=listen, external_ip=ext, user_agent=agent, height=height, remote=remote, way=way)
        ctx.current = case

        def sc(net):
            node = net.node
            if ext:
                node.external_ip = ext
            if agent is not None:
                node.user_agent = agent
            node.blockchain_height = height
            yield 3
            for k in range(2):
                rem = (remote[0], remote[1] - k)
                if way == 'in':
                    r = net.w.connect(*rem)
                else:
                    net.w.policy = lambda a: way
                    ctx.ok(node.add_peer(rem), case, 'add_peer failed')
                    r = net.w.remotes[-1]
                yield
                d = P.decode(r.got)
                ctx.eq([c for c, _ in d], ['version'], case, 'messages')
                v = d[0][1]
                sock = node.socket.getsockname() if node.socket else None
                port = listen[1] if listen and listen[1] else node.port
                ctx.ok(port > 0 and port == sock[1], case, 'port %r of the node' % port)
                bound = {'': '0.0.0.0', 'localhost': '127.0.0.1'}.get(listen[0], listen[0]) if listen else '127.0.0.1'
                mine = ext or bound
                A = lambda ip, prt: (('services', 1), ('address', P.R.ip16(ip)), ('port', prt))
                want = dict(version=P.coins.Newbitcoin.protocol_version, services=1, timestamp=int(net.w.now), addr_recv=A(*rem), addr_from=A(mine, port), start_height=height,
                            user_agent=(agent if agent is not None else node.user_agent).encode('latin-1'))
                for f in want:
                    ctx.eq(v[f], want[f], case, f)
                ctx.ok(b'nbc' in v['user_agent'] or agent is not None, case, 'user agent %r' % v['user_agent'])
                ctx.eq(len(v['nonce']), 8, case, 'nonce')
                if k:
                    ctx.ok(v['nonce'] != first, case, 'the nonce is not fresh')
                    ctx.eq(v['relay'], relay, case, 'relay of the second connection')
                first = v['nonce']
                relay = v['relay']
                ctx.trans()
        net = Net(listen=listen, log=None).run(sc)
        ctx.ok(net.done, case, 'the event loop stopped')
        ctx.trace()
        ctx.state(case)


def details(ctx):
    """Every version is answered and remembered, whatever it says."""
    P = lab()
    base = dict(version=70002, services=1, timestamp=1500000000, user_agent=b'/ref:1/', start_height=77, relay=1)
    some = dict(version=(-2 ** 31, -1, 0, 1, 105, 106, 208, 209, 210, 31402, 31800, 60000, 60001, 60002, 70001, 70002, 70003, 70015, 70016, 80000, 2 ** 31 - 1),
                services=(0, 1, 2, 4, 5, 13, 1024, 1025, 1 << 32, (1 << 63), (1 << 64) - 1), timestamp=(-2 ** 63, -1, 0, 1, 1499999999, 2 ** 31, 2 ** 32, 2 ** 63 - 1),
                user_agent=(b'', b'/', b'/nbc:0.0.1(newbitcoin)/', b'\0', b'\xff\xfe', b'a' * 252, b'a' * 253, b'a' * 256, b'a' * 257, b'a' * 70000), start_height=(-2 ** 31, -1, 0, 1, 2 ** 31 - 1), relay=(0, 1, 2, 255, None))
    plain = list(dict(base, **{f: x}) for f in some for x in some[f])
    plain += [dict(base, version=v, relay=r, services=s, start_height=h) for v in (0, 106, 209, 60001, 70001, 70016) for r in (0, 1, None) for s in (0, 1) for h in (0, 500000)]
    for d, way in itertools.product(plain, ('in', 'accept')):
        case = dict(d, way=way, user_agent=d['user_agent'][:30], length=len(d['user_agent']))
        ctx.current = case

        def sc(net):
            yield
            for k in range(2):      # the second connection tells the same with the node's own nonce
                if way == 'in':
                    r = net.w.connect('1.2.3.4', 5678 + k)
                else:
                    net.w.policy = lambda a: way
                    net.node.add_peer(('1.2.3.4', 5678 + k))
                    r = net.w.remotes[-1]
                yield
                own = P.decode(r.got)[0][1]
                kw = dict(d, nonce=own['nonce'] if k else b'nonce123', addr_recv=P.addr0('8.8.4.4'), addr_from=P.addr0('0.0.0.0', 0, 0))
                if kw['relay'] is None:
                    m = P.R.frame(P.MAGIC, 'version', P.R.encode(P.R.MESSAGES['version'][1], dict(kw, relay=1))[:-1])
                else:
                    m = P.msg('version', **kw)
                r.send(m)
                yield
                yield
                ctx.eq(P.commands(r.got), ['version', 'verack'], case, 'sent')
                p = peer_of(net, r)
                ctx.ok(p is not None, case, 'disconnected')
                ua = p.user_agent
                ctx.eq((p.version, p.services, p.start_height, ua.encode('latin-1') if isinstance(ua, str) else ua, P.R.ip16(p.external_ip)),
                       (d['version'], d['services'], d['start_height'], d['user_agent'], P.R.ip16('8.8.4.4')), case, 'details')
                ctx.ok(int(p.relay) == (1 if d['relay'] is None else d['relay']), case, 'relay is %r' % (p.relay,))
                ctx.ok(not p.verack, case, 'acknowledged')
                ctx.trans()
            ctx.state(tuple(sorted((k, repr(v)[:40]) for k, v in case.items())))
        net = Net(log=None).run(sc)
        ctx.ok(net.done, case, 'the event loop stopped')
        ctx.trace()


def nonces(ctx, part, parts):
    """Pongs echo every nonce."""
    P = lab()
    todo = []
    for fill in (0, 0x78, 0x20, 0xff):
        for pos in range(8):
            for b in range(256):
                todo.append(bytes([fill] * pos + [b] + [fill] * (7 - pos)))
    todo += [bytes([b]) * 8 for b in range(256)] + [P.MAGIC + bytes(4), bytes(4) + P.MAGIC, b'version\0', b'\r\n\r\n\r\n\r\n']
    todo = list(dict.fromkeys(todo))[part::parts]
    ctx.current = case = dict(pings=len(todo), part=part)

    def sc(net):
        yield
        r = net.w.connect('1.2.3.4', 5678)
        r.send(P.version())
        for i in range(0, len(todo), 50):
            r.send(b''.join(P.msg('ping', nonce=n) for n in todo[i:i + 50]))
            yield
        have = [v['nonce'] for c, v in P.decode(r.got) if c == 'pong']
        for n, h in zip(todo, have):
            ctx.eq(h, n, dict(nonce=n), 'pong')
            ctx.trans()
            ctx.state(n)
        ctx.eq(len(have), len(todo), case, 'pongs')
    net = Net(log=None).run(sc)
    ctx.ok(net.done, case, 'the event loop stopped')
    ctx.trace()


def units(tier):
    for p in range(4):
        yield 'nonces %d' % p, nonces, (p, 4)
    N = 8
    for way in ('in', 'accept', 'immediate'):
        for d in (1, 2):
            yield ('sequences%d-%s' % (d, way), sequences, (d, way, 0, 1))
            yield ('sequences%d-%s-plain' % (d, way), sequences, (d, way, 0, 1, True))
        if way != 'immediate':
            for k in range(N):
                yield ('sequences3-%s-%d' % (way, k), sequences, (3, way, k, N))
        if tier != 'quick':
            for k in range(24):
                yield ('sequences4-%s-%d' % (way, k), sequences, (4, way, k, 24))
    yield ('opening', opening, ())
    yield ('details', details, ())
    yield ('clocks', clocks, ())
