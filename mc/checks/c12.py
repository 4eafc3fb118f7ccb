"""C12: port mapping."""
import errno
import itertools
import sys
import types

from ..nethist import Net, lab

LEVEL = 'model_checking'
BOUNDS = dict(quick='4 listening ports (65530, 65534, 65535 among them) x all tables of 7 following ports x a failure (exception, refusal; once or from then on) at every router call; all sequences of 3 starts and stops of nodes on 3 addresses (two with the same port), nested and in turn, with one router table; all 90 orders of starts and stops of three nodes running at once x 4 tables x failures; 6 pairs of threads adding and removing mappings, every schedule with at most 2 preemptions at every bytecode touching shared objects and every router call; all orders of failing routers; no library, no router, no listening; ports in use',
              thorough='tables of 9 ports; all sequences of 4; 3 preemptions')
ASSUMPTIONS = ['a router call that fails has no effect', 'the port mapping library behaves like miniupnpc; it exists on darwin only and is replaced by a stand-in']


class Router(object):
    def __init__(self, table, devices=1):
        self.table = dict(table)
        self.calls = []
        self.fault = None       # (index, how, persistent)
        self.devices = devices
        self.bad = []

    def call(self, name, *a):
        k = len(self.calls)
        self.calls.append((name,) + a)
        f = self.fault
        if f and (k == f[0] or (f[2] and k > f[0])):
            if f[1] == 'raise':
                raise Exception('router failure')
            return False
        return True


ROUTER = [None]


class UPnP(object):
    """Stand-in for miniupnpc.UPnP."""
    lanaddr = '192.168.0.2'
    discoverdelay = 0

    def __init__(self):
        ROUTER[0].call('UPnP')

    def discover(self):
        ok = ROUTER[0].call('discover')
        return ROUTER[0].devices if ok else 0

    def selectigd(self):
        if not ROUTER[0].call('selectigd') or not ROUTER[0].devices:
            raise Exception('No UPnP device discovered')
        return 'igd'

    def externalipaddress(self):
        return '5.5.5.5' if ROUTER[0].call('externalipaddress') else None

    def statusinfo(self):
        ROUTER[0].call('statusinfo')
        return ('Connected', '', 1)

    def connectiontype(self):
        ROUTER[0].call('connectiontype')
        return 'IP_Routed'

    def getspecificportmapping(self, eport, proto):
        R = ROUTER[0]
        R.call('get', eport, proto)
        if not 1 <= eport <= 65535:
            R.bad.append(('get', eport))
            raise Exception('invalid port')
        return R.table.get((eport, proto))

    def addportmapping(self, eport, proto, host, port, label, rhost):
        R = ROUTER[0]
        if not R.call('add', eport, proto, host, port):
            return False
        if not 1 <= eport <= 65535:
            R.bad.append(('add', eport))
            raise Exception('invalid port')
        R.table[(eport, proto)] = (host, port, label)
        return True

    def deleteportmapping(self, eport, proto):
        R = ROUTER[0]
        if not R.call('delete', eport, proto):
            return False
        if (eport, proto) not in R.table:
            raise Exception('NoSuchEntryInArray')
        del R.table[(eport, proto)]
        return True


_saved = []


def darwin():
    """Imports the node as on darwin with the stand-in library."""
    import urllib.request, ssl, ctypes.util          # noqa: they look at the platform
    sys.platform = 'darwin'
    m = types.ModuleType('nbc.node.darwin3.miniupnpc')
    m.UPnP = UPnP
    pkg = types.ModuleType('nbc.node.darwin3')
    pkg.__path__ = []
    pkg.miniupnpc = m
    sys.modules['nbc.node.darwin3'], sys.modules['nbc.node.darwin3.miniupnpc'], sys.modules['miniupnpc'] = pkg, m, m
    ROUTER[0] = Router({})
    P = lab()
    for n, mod in list(sys.modules.items()):
        if n.startswith('nbc.node') and mod not in (m, pkg):
            d = vars(mod)
            _saved.append((d, {k: (type(v)(v) if isinstance(v, (dict, list, set)) and not k.startswith('__') else v) for k, v in d.items()}))
    return P


def fresh():
    """The state of the node's modules as after the import (a new process)."""
    for d, old in _saved:
        for k in list(d):
            if k not in old:
                del d[k]
        for k, v in old.items():
            if k.startswith('__'):
                continue
            if isinstance(v, dict):
                d[k].clear() if isinstance(d.get(k), dict) else d.__setitem__(k, {})
                d[k].update(v)
            elif isinstance(v, (list, set)):
                d[k] = type(v)(v)
            else:
                d[k] = v


def alive(ctx, P, net, case):
    r = net.w.connect('1.1.1.1', 1000)
    r.send(P.version() + P.msg('ping', nonce=b'12345678'))
    yield
    ctx.eq([c for c in P.commands(r.got) if c != 'getaddr'], ['version', 'verack', 'pong'], case, 'messages to a peer')


def first_free(table, port):
    for e in range(port, 65536):
        if (e, 'TCP') not in table:
            return e


def one(ctx, P, port, table, fault, listen=True, devices=1):
    fresh()
    R = ROUTER[0] = Router(table, devices)
    R.fault = fault
    case = dict(port=port, table=sorted(map(list, table)), fault=fault, listening=listen, devices=devices)
    ctx.current = case
    mid = []

    def sc(net):
        yield
        mid.append(dict(R.table))
        if listen:
            for x in alive(ctx, P, net, case):
                yield x
        yield 11
    net = Net(listen=('10.9.8.7', port) if listen else None, log=None).run(sc)
    ctx.ok(net.done, case, 'the node did not run')
    ctx.ok(not net.w.listeners, case, 'the listening socket is still open after stopping')
    mid = mid[0]
    new = {k: v for k, v in mid.items() if k not in table}
    for k in table:
        ctx.eq(mid.get(k), table[k], case, 'the foreign mapping %s %d after starting' % (k[1], k[0]))
        ctx.eq(R.table.get(k), table[k], case, 'the foreign mapping %s %d after stopping' % (k[1], k[0]))
    ctx.ok(len(new) <= 1, case, 'several mappings were added: %s' % sorted(new))
    ctx.ok(not R.bad, case, 'invalid ports: %s' % R.bad[:3])
    adds = [c for c in R.calls if c[0] == 'add']
    ctx.ok(len(adds) <= 1 or fault, case, 'calls of addportmapping: %s' % adds)
    if not listen or not devices:
        ctx.ok(not new, case, 'a mapping was added')
    for (e, proto), v in new.items():
        ctx.eq((proto, v[0], v[1]), ('TCP', UPnP.lanaddr, port), case, 'target of the new mapping')
        if not fault or fault[1] != 'raise':
            ctx.eq(e, first_free(table, port), case, 'external port')
    if not fault and listen and devices:
        ctx.eq(len(new), 1 if first_free(table, port) else 0, case, 'mappings added')
    gone = [c for c in R.calls if c[0] == 'delete']
    for c in gone:
        ctx.ok((c[1], c[2]) in new, case, 'removal of a mapping that was not added: %s' % (c,))
    dfail = fault and any(k == fault[0] or (fault[2] and k > fault[0]) for k, c in enumerate(R.calls) if c[0] == 'delete')
    if not dfail:
        ctx.eq(R.table, table, case, 'the table after stopping')
    ctx.trans(len(R.calls))
    ctx.trace()
    ctx.state(case)
    ctx.outcome('%s added, %d calls' % (len(new), len(R.calls)))
    return len(R.calls)


def tables(ctx, width, part, parts):
    P = darwin()
    i = 0
    for port in (20303, 1, 65530, 65534, 65535):
        n = min(width, 65536 - port)
        for bits in itertools.product((0, 1), repeat=n):
            i += 1
            if i % parts != part:
                continue
            table = {(port + k, 'TCP'): ('192.168.0.%d' % (100 + k), 80, 'x') for k in range(n) if bits[k]}
            if port > 1:
                table[port - 1, 'TCP'] = ('192.168.0.9', 1, 'y')
            table[port, 'UDP'] = ('192.168.0.8', 2, 'z')
            calls = one(ctx, P, port, table, None)
            for how in ('raise', 'false'):
                for persistent in (False, True):
                    k = 0
                    while k < calls + 2:
                        calls = max(calls, one(ctx, P, port, table, (k, how, persistent)))
                        k += 1
    one(ctx, P, 20303, {}, None, listen=False)
    one(ctx, P, 20303, {(20303, 'TCP'): ('a', 1, 'b')}, None, devices=0)
    if part == 0:
        full = {(e, 'TCP'): ('192.168.0.7', 7, 'q') for e in range(60000, 65536)}
        one(ctx, P, 60000, full, None)
        del full[65535, 'TCP']
        one(ctx, P, 60000, full, None)


def sequences(ctx, depth, part, parts):
    """Nodes started one inside another or in turn; routers failing in some of them; one process."""
    P = darwin()
    ports = ((20303, '10.9.8.7'), (20304, '10.9.8.7'), (20303, '10.9.8.8'))
    kinds = list(itertools.product(ports, ('in', 'turn'), (None, 'add', 'delete', 'discover', 'foreign')))
    i = 0
    for seq in itertools.product(kinds, repeat=depth):
        i += 1
        if i % parts != part:
            continue
        if any(a[0] == b[0] for k, a in enumerate(seq) for b in seq[k + 1:] if a[1] == 'in'):
            continue        # two nodes on one address at a time are not possible
        fresh()
        base = {(20304, 'TCP'): ('192.168.0.9', 1, 'y')} if i & 1 else {}
        R = ROUTER[0] = Router(base)
        case = dict(nodes=seq, table=sorted(map(list, base)))
        ctx.current = case
        own = {}             # what has to be in the table
        own.update(base)

        def failing(what):
            real = R.call

            def call(name, *a):
                if name == what:
                    R.calls.append((name,) + a)
                    raise Exception('router failure')
                return real(name, *a)
            R.call = call
            return lambda: R.__dict__.pop('call', None)

        def start(k):
            (port, ip), nest, fail = seq[k]
            undo = failing(fail) if fail in ('add', 'discover') else None
            state = {}

            def sc(net):
                yield
                if undo:
                    undo()
                new = {x: v for x, v in R.table.items() if x not in own}
                ctx.ok(len(new) <= 1, case, 'mappings added: %s' % sorted(new))
                for x in own:
                    ctx.eq(R.table.get(x), own[x], case, 'mapping %s' % (x,))
                e = first_free(own, port)
                known = fail != 'discover' or state.get('cached')
                if fail == 'add':
                    ctx.ok(not new, case, 'a mapping though the router failed')
                elif fail != 'discover':
                    ctx.eq(sorted(new), [(e, 'TCP')], case, 'mapping of node %d' % k)
                for x, v in new.items():
                    ctx.eq(v[:2], (UPnP.lanaddr, port), case, 'target of node %d' % k)
                own.update(new)
                ctx.trans()
                if nest == 'in' and k + 1 < depth:
                    start(k + 1)
                    from .. import netenv
                    netenv.WORLD[0] = net.w
                if fail == 'foreign':       # somebody else takes the next port meanwhile
                    f = first_free(own, port)
                    own[f, 'TCP'] = R.table[f, 'TCP'] = ('192.168.0.77', 7, 'f')
                state['new'] = new
                if fail == 'delete':
                    state['undo'] = failing('delete')
            net = Net(listen=(ip, port), log=None).run(sc)
            ctx.ok(net.done, case, 'the node did not run')
            if fail == 'delete':
                state['undo']()
            else:
                for x in state['new']:
                    own.pop(x)
            ctx.eq(R.table, own, case, 'table after stopping node %d' % k)
            if (nest == 'turn') and k + 1 < depth:
                start(k + 1)
        start(0)
        ctx.trace()
        ctx.state(case)


def overlap(ctx, part, parts):
    """Nodes of one process which start and stop in any order, each in its own thread."""
    P = darwin()
    from ..multi import Lab
    who = (('10.9.8.7', 20303), ('10.9.8.8', 20303), ('10.9.8.7', 20304))
    orders = [o for o in itertools.product(range(3), repeat=6) if all(o.count(k) == 2 for k in range(3))]
    base_ = ({}, {20303: '192.168.0.9'}, {20304: '192.168.0.9'}, {20303: '192.168.0.9', 20305: '192.168.0.9'})
    for i, (o, base, fail) in enumerate(itertools.product(orders, base_, [None] + list(itertools.product(('add', 'delete'), range(3))))):
        if i % parts != part:
            continue
        fresh()
        R = ROUTER[0] = Router({(p, 'TCP'): (h, 7, 'y') for p, h in base.items()})
        ctx.current = case = dict(order=o, table=sorted(base), failing=fail)
        L = Lab()
        seats = [L.add(a) for a in who]
        want, mine, on = dict(R.table), {}, [False] * 3
        for k in o:
            if fail and fail[1] == k:
                real = R.call

                def call(name, *a):
                    if name == fail[0]:
                        raise Exception('router failure')
                    return real(name, *a)
                R.call = call
            before = dict(R.table)
            if not on[k]:
                seats[k].step()
                on[k] = True
                e = first_free(before, who[k][1])
                if not (fail and fail == ('add', k)):
                    mine[k] = e
                    want[e, 'TCP'] = (UPnP.lanaddr, who[k][1], R.table.get((e, 'TCP'), '???')[2])
            else:
                seats[k].stop()
                e = mine.pop(k, None)
                if e is not None and fail != ('delete', k):
                    del want[e, 'TCP']
            R.__dict__.pop('call', None)
            ctx.eq(R.table, want, case, 'the table after %s node %d' % ('starting' if on[k] and seats[k].end is None else 'stopping', k))
            ctx.trans()
        ctx.ok(all(s.end == ('returned',) for s in seats), case, 'a node did not stop normally')
        ctx.eq(R.bad, [], case, 'invalid ports')
        ctx.trace()
        ctx.state(case)


def race(ctx, base, first, second, bound):
    """Two threads start or stop mappings: every schedule."""
    from .. import sched
    sched.install()
    darwin()
    import nbc.node as N
    S = sched.S
    result = {}
    real = Router.call

    def call(self, name, *a):
        if S[0] is not None:
            S[0].point()
        return real(self, name, *a)
    Router.call = call
    ctx.current = case = dict(table=base, threads=(first, second))

    def make():
        fresh()
        R = ROUTER[0] = Router({(p, 'TCP'): ('192.168.0.9', 7, 'y') for p in base})
        start = dict(R.table)
        own = {}

        def do(ops):
            for o, p in ops:
                if o == 'add':
                    N.add_portmap(p, 'TCP', 'l%d' % p)
                else:
                    N.remove_portmap(p, 'TCP')

        def main():
            t = sched.Thread(target=lambda: do(second))
            t.start()
            do(first)
            sched.wait_all()

        def check(s):
            case = dict(table=base, threads=(first, second), schedule=ex.plan)
            for x in start:
                ctx.eq(R.table.get(x), start[x], case, 'mapping %s of somebody else' % (x,))
            new = {x: v for x, v in R.table.items() if x not in start}
            keep = sorted(p for ops in (first, second) for o, p in ops if o == 'add' and ('remove', p) not in ops)
            ctx.eq(sorted(v[1] for v in new.values()), keep, case, 'mappings kept %s' % sorted(new.items()))
            ctx.ok(all(v[0] == UPnP.lanaddr for v in new.values()), case, 'targets')
            ctx.state((base, first, second, ex.plan))
        return main, check
    ex = sched.Explorer(bound, 'op', ('node/__init__.py',))
    for plan in ex.all(make):
        pass
    ctx.trans(ex.points)
    ctx.trace(ex.schedules)
    ctx.count('schedules', ex.schedules)


A_, B_ = 20303, 20304
RACES = [((), (('add', A_),), (('add', B_),)), ((A_,), (('add', A_),), (('add', B_),)), ((A_,), (('add', A_), ('remove', A_)), (('add', B_),)),
         ((), (('add', A_), ('remove', A_)), (('add', B_), ('remove', B_))), ((A_, B_), (('add', A_), ('remove', A_)), (('add', B_), ('remove', B_))), ((B_,), (('add', A_),), (('add', B_), ('remove', B_)))]


def api(ctx):
    """add_portmap / remove_portmap called directly, other protocols too, any order, repeated."""
    P = darwin()
    import nbc.node as N
    ops = [(o, p, t) for o in ('add', 'remove') for p in (700, 701) for t in ('TCP', 'UDP')]
    for depth in range(1, 5):
        for seq in itertools.product(ops, repeat=depth):
            adds = [x[1:] for x in seq if x[0] == 'add']
            if len(adds) != len(set(adds)):
                continue
            fresh()
            base = {(700, 'TCP'): ('x', 1, 'f'), (701, 'UDP'): ('x', 2, 'f')}
            R = ROUTER[0] = Router(base)
            ctx.current = case = dict(calls=seq)
            want, mine = dict(base), {}
            for o, p, t in seq:
                if o == 'add':
                    e = p
                    while (e, t) in want:
                        e += 1
                    mine[p, t] = e
                    want[e, t] = (UPnP.lanaddr, p, 'label')
                    N.add_portmap(p, t, 'label')
                else:
                    e = mine.pop((p, t), None)
                    want.pop((e, t), None)
                    N.remove_portmap(p, t)
                ctx.eq(R.table, want, case, 'the table after %s %d %s' % (o, p, t))
                ctx.trans()
            ctx.trace()
            ctx.state(seq)


def plain(ctx):
    """Without the library; ports in use and other errors of bind."""
    P = lab()
    for listen in (('10.9.8.7', 20303), ('', 20303), ('0.0.0.0', 0), None):
        case = dict(listen=listen, library=False)

        def sc(net):
            yield
            if listen:
                for x in alive(ctx, P, net, case):
                    yield x
            else:
                r = net.w.connect('1.1.1.1', 1000)
                yield
                ctx.ok(r.closed and not r.got, case, 'a node that does not listen accepted a connection')
            yield 11
        for _ in range(2):
            ctx.ok(Net(listen=listen, log=None).run(sc).done, case, 'the node did not run')
            ctx.trace()
        ctx.state(case)
    from .. import netenv
    for e in (errno.EADDRINUSE, errno.EACCES, errno.EADDRNOTAVAIL, 48):
        for port in (20303, 1, 0):
            case = dict(bind_error=errno.errorcode.get(e), port=port)
            real = netenv.World.__init__

            def init(self):
                real(self)
                self.bind_error = e
            netenv.World.__init__ = init
            try:
                Net(listen=('10.9.8.7', port), log=None)
                ctx.fail(case, 'a node was created')
            except P.AddrInUseError:
                ctx.eq(e, errno.EADDRINUSE, case, 'reported as port in use')
            except OSError as x:
                ctx.ok(e != errno.EADDRINUSE, case, 'port in use reported as %r' % x)
                ctx.eq(x.errno, e, case, 'reported error')
            finally:
                netenv.World.__init__ = real
            ctx.trans()
            ctx.trace()
            ctx.state(case)


def units(tier):
    q = tier == 'quick'
    for k in range(8):
        yield ('tables-%d' % k, tables, (7 if q else 9, k, 8))
        yield ('sequences-%d' % k, sequences, (3 if q else 4, k, 8))
    for d in (1, 2):
        yield ('sequences%d' % d, sequences, (d, 0, 1))
    yield ('api', api, ())
    for k in range(8):
        yield ('overlap-%d' % k, overlap, (k, 8))
    for k, (base, a, b) in enumerate(RACES):
        yield ('race-%d' % k, race, (base, a, b, 2 if q else 3))
    yield ('plain', plain, ())
