"""A closed world for the node: virtual clock, controlled randomness, fake sockets and select.

The real serve_forever() runs the real asyncore loop of the node. A scenario is a generator; it is resumed from
begin_loop() (the hook the code offers subclasses) and yields what the loop shall do next:
  None     run until nothing is ready (no virtual time passes)
  'once'   one round of the loop
  seconds  run while that much virtual time passes
When it returns, begin_loop raises StopNode, the documented way to stop. Import before any nbc module.
"""
import errno
import hashlib
import os
import random
import select
import socket
import sys
import time

from . import entropy

EPOCH = 1500000000.0


class World(object):
    def __init__(self):
        self.now = EPOCH
        self.fds = {}             # fd -> FakeSocket
        self.listeners = {}       # port -> FakeSocket
        self.remotes = []         # in order of creation
        self.attempts = []        # (time, address, outcome) of outbound connects
        self.policy = lambda address: 'accept'
        self.choose = lambda n, what: 0
        self.errors = []
        self.first_fd = 3
        self.urandom_n = 0
        self.deadline = None
        self.quiet = False
        self.rounds = 0
        self.stall = 0
        self.fail = {}            # operation name -> list of errno to raise
        self.spurious = set()     # fds reported readable though nothing is there
        self.bind_error = None
        self.log = []             # bytes handed to the kernel: (remote, bytes)
        self.max_rounds = 200000
        self.oversleep = 1        # idle selects last that many times their timeout
        self.asked = ((), ())     # descriptors of the last select: for reading, for writing

    def alloc(self, sock):
        fd = self.first_fd
        while fd in self.fds:
            fd += 1
        self.fds[fd] = sock
        return fd

    def error(self, text):
        self.errors.append(text)

    def take_fail(self, op):
        q = self.fail.get(op)
        if q:
            e = q.pop(0)
            if e:
                raise OSError(e, os.strerror(e))

    # ---- the outside
    def connect(self, ip, port, to=None, **kw):
        """A peer connects to the node; it waits in the backlog."""
        l = self.listeners[to] if to else list(self.listeners.values())[0]
        r = Remote(self, (ip, port), 'in')
        s = FakeSocket.make(self)
        s.remote, r.sock = r, s
        s.state = 'open'
        s.name = l.name
        for k, v in kw.items():
            setattr(r, k, v)
        l.backlog.append((s, (ip, port)))
        self.remotes.append(r)
        return r


class Remote(object):
    """The far end of one connection."""

    def __init__(self, world, address, way):
        self.w, self.address, self.way = world, address, way
        self.inbound = []         # segments not read yet
        self.eof = self.reset = False
        self.got = b''            # what the node's kernel took
        self.window = None        # bytes the kernel takes in total from now (None: any), see quota
        self.quota = None         # list of sizes, one per send call; then any
        self.dead = None          # errno for sends
        self.sock = None
        self.sends = []
        self.recv_errs = []       # errno of the next recv calls
        self.send_errs = []
        self.name_err = None      # errno of getpeername
        self.close_err = None     # errno of close (the descriptor is released all the same)

    def send(self, data):
        if data:
            self.inbound.append(data)

    @property
    def closed(self):
        return self.sock is None or self.sock.state == 'closed'

    @property
    def pending(self):
        return sum(len(x) for x in self.inbound)

    def readable(self):
        return bool(self.inbound or self.eof or self.reset or self.recv_errs)

    def writable(self):
        return bool(self.reset or self.dead or self.window is None or self.window > 0)


class FakeSocket(object):
    made = None

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        w = WORLD[0]
        w.take_fail('socket')
        self._init(w)

    @classmethod
    def make(cls, w):
        s = object.__new__(cls)
        s._init(w)
        return s

    def _init(self, w):
        self.w = w
        self.fd = None
        self.state = 'new'
        self.remote = None
        self.backlog = []
        self.name = ('127.0.0.1', 0)
        self.connect_err = 0
        self.fd = w.alloc(self)

    def _use(self, op):
        if self.state == 'closed':
            self.w.error('%s on a closed socket' % op)
            raise OSError(errno.EBADF, 'Bad file descriptor')
        self.w.take_fail(op)

    def fileno(self):
        return -1 if self.state == 'closed' else self.fd

    def setblocking(self, x):
        self.blocking = bool(x)

    def settimeout(self, x):
        self.blocking = x != 0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, level, opt, *a):
        if opt == socket.SO_ERROR:
            return self._failed()
        return 0

    def _failed(self):
        """A failed connect is reported once; afterwards the socket is dead: readable, writable, not connected."""
        e, self.connect_err = self.connect_err, 0
        if e:
            self.state = 'failed'
        return e

    def bind(self, address):
        self._use('bind')
        if self.w.bind_error:
            raise OSError(self.w.bind_error, os.strerror(self.w.bind_error))
        ip, port = address
        if port == 0:
            port = 40000
            while port in self.w.listeners:
                port += 1
        self.name = ({'': '0.0.0.0', 'localhost': '127.0.0.1'}.get(ip, ip), port)
        if any(s.name == self.name or s.name[1] == port and '0.0.0.0' in (s.name[0], self.name[0]) for s in self.w.listeners.values()):
            raise OSError(errno.EADDRINUSE, os.strerror(errno.EADDRINUSE))

    def listen(self, n=0):
        self._use('listen')
        self.state = 'listen'
        self.w.listeners[self.name[1] if self.name[1] not in self.w.listeners else self.name] = self

    def accept(self):
        self._use('accept')
        if not self.backlog:
            raise BlockingIOError(errno.EAGAIN, 'nothing to accept')
        s, a = self.backlog.pop(0)
        return s, a

    def connect_ex(self, address):
        self._use('connect')
        w = self.w
        out = w.policy(address)
        w.attempts.append((w.now, address, out))
        ip, port = address
        if ':' in ip or not ip.replace('.', '').isdigit():
            raise socket.gaierror(-2, 'Name or service not known')
        if isinstance(out, int):
            return out
        r = Remote(w, address, 'out')
        w.remotes.append(r)
        self.remote, r.sock = r, self
        self.name = ('127.0.0.1', 50000 + len(w.remotes))
        if out == 'immediate':
            self.state = 'open'
            return 0
        self.state = 'connecting'
        if out == 'accept':
            self.state = 'established'    # ready to be noticed
        elif out == 'refuse':
            self.connect_err = errno.ECONNREFUSED
        elif isinstance(out, tuple):
            self.connect_err = out[1]     # fails later
        elif out == 'hang':
            pass
        return errno.EINPROGRESS

    def connect(self, address):
        e = self.connect_ex(address)
        if e:
            raise OSError(e, os.strerror(e))

    def getpeername(self):
        self._use('getpeername')
        if self.remote is not None and self.remote.name_err:
            raise OSError(self.remote.name_err, os.strerror(self.remote.name_err))
        if self.remote is None or self.state in ('connecting', 'failed') or self.remote.reset:
            raise OSError(errno.ENOTCONN, 'not connected')
        return self.remote.address

    def getsockname(self):
        self._use('getsockname')
        return self.name

    def recv(self, n, flags=0):
        self._use('recv')
        r = self.remote
        if r is None or self.state in ('connecting', 'new'):
            if self.connect_err:
                e = self._failed()
                raise OSError(e, os.strerror(e))
            raise OSError(errno.ENOTCONN, 'not connected')
        if self.state == 'failed':
            raise OSError(errno.ENOTCONN, 'not connected')
        if r.recv_errs:
            e = r.recv_errs.pop(0)
            raise OSError(e, os.strerror(e))
        if r.inbound:
            x = r.inbound[0]
            if len(x) <= n:
                r.inbound.pop(0)
                return x
            r.inbound[0] = x[n:]
            return x[:n]
        if r.reset:
            raise ConnectionResetError(errno.ECONNRESET, 'reset by peer')
        if r.eof:
            return b''
        raise BlockingIOError(errno.EAGAIN, 'nothing to read')

    def recv_into(self, buf, n=0, flags=0):
        x = self.recv(n or len(buf))
        buf[:len(x)] = x
        return len(x)

    def send(self, data, flags=0):
        self._use('send')
        r = self.remote
        data = bytes(data)
        if self.state == 'failed' or self.connect_err:
            e = self._failed() or errno.EPIPE
            raise OSError(e, os.strerror(e))
        if r is None or self.state in ('connecting', 'new'):
            raise BlockingIOError(errno.EAGAIN, 'not connected yet')
        if r.send_errs:
            e = r.send_errs.pop(0)
            raise OSError(e, os.strerror(e))
        if r.dead:
            raise OSError(r.dead, os.strerror(r.dead))
        if r.reset:
            raise BrokenPipeError(errno.EPIPE, 'broken pipe')
        n = len(data)
        if r.quota:
            n = min(n, r.quota.pop(0))
        if r.window is not None:
            n = min(n, r.window)
            r.window -= n
        if n == 0 and data:
            raise BlockingIOError(errno.EAGAIN, 'buffer full')
        r.got += data[:n]
        r.sends.append((self.w.now, n))
        return n

    def sendall(self, data, flags=0):
        n = self.send(data)
        if n < len(data):
            raise BlockingIOError(errno.EAGAIN, 'buffer full')

    def shutdown(self, how):
        self._use('shutdown')

    def close(self):
        if self.state == 'closed':
            return
        if self.state == 'listen':
            for k in [k for k, s in self.w.listeners.items() if s is self]:
                del self.w.listeners[k]
        self.state = 'closed'
        self.w.fds.pop(self.fd, None)
        if self.remote is not None and self.remote.close_err:
            raise OSError(self.remote.close_err, os.strerror(self.remote.close_err))
        self.w.take_fail('close')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ---- readiness
    def can_read(self):
        if self.state == 'listen':
            return bool(self.backlog)
        if self.state == 'connecting':
            return bool(self.connect_err)
        if self.state == 'failed':
            return True
        if self.remote is None:
            return False
        return self.remote.readable()

    def can_write(self):
        if self.state == 'connecting':
            return bool(self.connect_err)
        if self.state == 'failed':
            return True
        if self.state in ('established', 'open'):
            return self.remote.writable()
        return False


WORLD = [None]


def _select(r, w, e, timeout=None):
    W = WORLD[0]
    fds = W.fds
    for fd in list(r) + list(w) + list(e):
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fd < 0:
            raise ValueError('file descriptor cannot be a negative integer (%d)' % fd)
        if fd >= 1024:
            raise ValueError('filedescriptor out of range in select()')
        if fd not in fds:
            raise OSError(errno.EBADF, 'Bad file descriptor')
    W.rounds += 1
    if W.rounds > W.max_rounds:
        raise Livelock('the loop never becomes quiet')
    W.asked = (tuple(r), tuple(w))
    rr = [fd for fd in r if fds[fd].can_read() or fd in W.spurious]
    ww = [fd for fd in w if fds[fd].can_write()]
    W.spurious.clear()
    if rr or ww:
        W.quiet = False
        return rr, ww, []
    _idle(timeout)
    return [], [], []


def _idle(timeout):
    W = WORLD[0]
    W.quiet = True
    if W.deadline is not None:
        left = W.deadline - W.now
        W.now += min((5.0 if timeout is None else timeout) * W.oversleep, left) if left > 0 else 0


class Poll(object):
    """select.poll, should the loop use it."""

    def __init__(self):
        self.reg = {}

    def register(self, fd, flags=select.POLLIN | select.POLLPRI | select.POLLOUT):
        self.reg[fd if isinstance(fd, int) else fd.fileno()] = flags

    modify = register

    def unregister(self, fd):
        del self.reg[fd]

    def poll(self, timeout=None):
        W = WORLD[0]
        W.rounds += 1
        if W.rounds > W.max_rounds:
            raise Livelock('the loop never becomes quiet')
        W.asked = tuple(tuple(fd for fd, fl in self.reg.items() if fl & m) for m in (select.POLLIN, select.POLLOUT))
        out = []
        for fd, fl in self.reg.items():
            s = W.fds.get(fd)
            if s is None:
                out.append((fd, select.POLLNVAL))
                continue
            f = (select.POLLIN if fl & select.POLLIN and (s.can_read() or fd in W.spurious) else 0) | (select.POLLOUT if fl & select.POLLOUT and s.can_write() else 0)
            if f:
                out.append((fd, f))
        W.spurious.clear()
        if out:
            W.quiet = False
        else:
            _idle(None if timeout is None else timeout / 1000.0)
        return out


class Livelock(BaseException):
    pass


def _sleep(s):
    _idle(s)


def _urandom(n):
    W = WORLD[0]
    W.urandom_n += 1
    out = b''
    k = 0
    while len(out) < n:
        out += hashlib.sha256(b'%d-%d' % (W.urandom_n, k)).digest()
        k += 1
    return out[:n]


class Rand(object):
    """The functions of the random module as choices of the harness."""

    @staticmethod
    def pick(n, what):
        return WORLD[0].choose(n, what) % n if n > 0 else 0

    @staticmethod
    def randint(a, b):
        if b < a:
            raise ValueError('empty range for randint')
        return a + Rand.pick(b - a + 1, 'randint')

    @staticmethod
    def randrange(a, b=None, step=1):
        if b is None:
            a, b = 0, a
        if (b - a + step - 1) // step <= 0:
            raise ValueError('empty range for randrange')
        return a + step * Rand.pick((b - a + step - 1) // step, 'randrange')

    @staticmethod
    def choice(seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[Rand.pick(len(seq), 'choice')]

    @staticmethod
    def random():
        return (0.0, 0.25, 0.5, 0.999)[Rand.pick(4, 'random')]

    @staticmethod
    def sample(seq, k):
        seq = list(seq)
        out = []
        for _ in range(k):
            if not seq:
                raise ValueError('Sample larger than population or is negative')
            out.append(seq.pop(Rand.pick(len(seq), 'sample')))
        return out

    @staticmethod
    def shuffle(x):
        x[:] = Rand.sample(x, len(x))

    @staticmethod
    def getrandbits(k):
        return Rand.pick(1 << k, 'getrandbits')

    @staticmethod
    def uniform(a, b):
        return a + (b - a) * Rand.random()


_real = dict(time=time.time, sleep=time.sleep, select=select.select, socket=socket.socket, poll=getattr(select, 'poll', None))


def install():
    """Replaces the outside world in this process (checks run in processes of their own)."""
    if WORLD[0] is not None:
        return
    WORLD[0] = World()
    time.time = lambda: WORLD[0].now
    time.monotonic = lambda: WORLD[0].now
    time.sleep = _sleep
    select.select = _select
    select.poll = Poll
    for n in ('epoll', 'kqueue', 'devpoll'):
        if hasattr(select, n):
            delattr(select, n)
    socket.socket = FakeSocket
    socket.SocketType = FakeSocket
    entropy.source[0] = _urandom
    for n in ('randint', 'randrange', 'choice', 'random', 'sample', 'shuffle', 'getrandbits', 'uniform'):
        setattr(random, n, getattr(Rand, n))


class Net(object):
    """One history: a world, a node and a scenario."""

    def __init__(self, listen=('10.9.8.7', 20303), seek=0, max_peers=125, bootstrap=False, log=None, level=None, seeds=None, base=None, **kw):
        install()
        from . import nodes
        self.w = WORLD[0] = World()
        self.p = nodes
        self.node = nodes.make(self, listen, seek, max_peers, bootstrap, log, seeds, base, **kw)
        if level is not None:
            self.node.log_level = level
        self.gen = None
        self.done = False
        self.crash = None

    # called by the node at the start of every loop
    def begin(self):
        w = self.w
        while True:
            if self.mode == 'once':
                pass
            elif self.mode is None:
                if not w.quiet:
                    return
            elif w.now < self.until or not w.quiet:
                return
            w.deadline = None
            try:
                y = next(self.gen)
            except StopIteration:
                self.done = True
                raise self.p.StopNode()
            self.mode = y
            w.quiet = False
            if y not in (None, 'once'):
                self.until = w.deadline = w.now + y
            return

    def run(self, scenario):
        """Runs scenario(self); returns when the node stopped."""
        self.gen = scenario(self)
        self.mode = 'once'
        self.until = 0
        self.node.serve_forever()
        return self
