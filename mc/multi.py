"""Several real nodes in one world, each in its serve_forever(); the harness decides which one runs its next round
(a round: from one begin_loop() to the next), what the network carries, and when time passes."""
import threading

from .netenv import World, WORLD, install


class Seat(object):
    """One node. Its thread runs only between step() and the next begin_loop()."""

    def __init__(self, lab, listen, **kw):
        self.lab = lab
        self.w = lab.w
        self.ip = kw.pop('ip', None) or (listen[0] if listen else '127.0.0.1')
        kw.setdefault('seek', 0)
        kw.setdefault('max_peers', 125)
        kw.setdefault('bootstrap', False)
        kw.setdefault('log', None)
        kw.setdefault('seeds', None)
        kw.setdefault('base', None)
        self.index = len(lab.seats)
        lab.cur = self
        self.node = lab.p.make(self, listen, **kw)
        self.go, self.arrived = threading.Semaphore(0), threading.Semaphore(0)
        self.raises = None
        self.end = None           # None while running, else ('returned',) or ('raised', exception)
        self.started = False
        self.calls = 0
        lab.seats.append(self)

    def start(self):
        self.started = True
        t = threading.Thread(target=self._main)
        t.daemon = True
        t.start()
        self._wait()

    def _wait(self):
        if not self.arrived.acquire(timeout=60):
            raise AssertionError('node %d does not come back to its loop' % self.index)

    def _main(self):
        try:
            self.node.serve_forever()
            self.end = ('returned',)
        except BaseException as e:
            self.end = ('raised', e)
        self.arrived.release()

    def begin(self):
        self.calls += 1
        self.arrived.release()
        self.go.acquire()
        if self.raises is not None:
            raise self.raises

    def step(self):
        """One round."""
        if self.end:
            return
        self.lab.cur = self
        if not self.started:
            self.start()
            return
        self.go.release()
        self._wait()
        self.lab.scan()

    def stop(self, exc=None):
        if self.end:
            return
        self.lab.cur = self
        self.raises = exc if exc is not None else self.lab.p.StopNode()
        if not self.started:
            self.start()
            if self.end:
                return
        self.go.release()
        for _ in range(1000):
            self._wait()
            if self.end:
                break
            self.go.release()
        self.lab.scan()


class Link(object):
    """A TCP connection between two nodes of the world: a opened it, b accepts it."""

    def __init__(self, a, b, ra, rb):
        self.ends = [(a, ra), (b, rb)]
        self.moved = [0, 0]       # bytes carried from each end
        self.fin = [False, False]

    def waiting(self, side):
        return len(self.ends[side][1].got) - self.moved[side]

    def carry(self, side, n=None):
        """Carries n bytes (None: all, and the end of the stream) from that side."""
        r, to = self.ends[side][1], self.ends[1 - side][1]
        k = self.waiting(side) if n is None else min(n, self.waiting(side))
        if k:
            to.send(r.got[self.moved[side]:self.moved[side] + k])
            self.moved[side] += k
        if r.closed and not self.waiting(side) and not self.fin[side]:
            self.fin[side] = True
            to.eof = True
            return True
        return bool(k)


class Lab(object):
    def __init__(self):
        install()
        from . import nodes
        self.p = nodes
        self.w = WORLD[0] = World()
        self.w.policy = self.policy
        self.seats = []
        self.links = []
        self.seen = 0
        self.cur = None
        self.owner = {}

    def add(self, listen, **kw):
        return Seat(self, listen, **kw)

    def policy(self, address):
        l = self.w.listeners.get(address[1])
        self.owner[len(self.w.remotes)] = self.cur
        return 'accept' if l is not None and l.name[0] in (address[0], '0.0.0.0') else 'refuse'

    def scan(self):
        """Gives every new outbound connection its other end."""
        w = self.w
        while self.seen < len(w.remotes):
            r = w.remotes[self.seen]
            k = self.seen
            self.seen += 1
            if r.way != 'out' or r.sock.state == 'connecting' and r.sock.connect_err:
                continue
            a = self.owner.get(k)
            if a is None:
                continue
            l = w.listeners.get(r.address[1])
            b = [s for s in self.seats if s.node.address[1] == r.address[1]]
            if not b or l is None:
                continue
            rb = w.connect(a.ip, 50000 + k, to=r.address[1])
            self.links.append(Link(a, b[0], r, rb))

    def settle(self, limit=200):
        """Everybody runs and everything is carried until nothing moves."""
        for _ in range(limit):
            moved = False
            for s in self.seats:
                n = len(self.w.remotes)
                before = sum(len(r.got) for r in self.w.remotes), len(s.dispatched), len(s.gone), n
                s.step()
                moved |= before != (sum(len(r.got) for r in self.w.remotes), len(s.dispatched), len(s.gone), len(self.w.remotes))
            for l in self.links:
                for side in (0, 1):
                    moved |= l.carry(side)
            if not moved and not any(x.can_read() for x in self.w.fds.values()):
                return True
        return False

    def close(self):
        for s in self.seats:
            if s.started:
                s.stop()


def canon(o, depth=6):
    """Plain data reachable from an object, for state keys."""
    if isinstance(o, (bytes, bytearray)):
        return bytes(o)
    if isinstance(o, (int, float, str, bool, type(None))):
        return o
    if depth == 0:
        return None
    if isinstance(o, dict):
        return tuple((canon(k, depth - 1), canon(v, depth - 1)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return tuple(canon(x, depth - 1) for x in o)
    if isinstance(o, (set, frozenset)):
        return tuple(sorted(map(repr, (canon(x, depth - 1) for x in o))))
    return None


def node_key(seat):
    n = seat.node
    return (tuple((k, canon(v)) for k, v in sorted(vars(n).items()) if k not in ('_peers', '_map')),
            tuple(tuple((k, canon(v)) for k, v in sorted(vars(p).items()) if k not in ('_map', '_node')) for p in n.peers), seat.end)


def key(lab):
    w = lab.w
    return (w.now, tuple(node_key(s) for s in lab.seats), tuple((tuple(l.moved), tuple(l.fin), tuple((len(r.got), tuple(r.inbound), r.eof, r.closed) for _, r in l.ends)) for l in lab.links))
