"""Controlled scheduler for Python threads: one runs at a time, every switch is a decision of the harness.

Decision points are the bytecodes of the code under test that can touch shared objects (level 'op'), its lines ('line')
or its calls and returns ('call'), and every operation on locks, threads and timers. explore() enumerates all schedules
with at most `bound` preemptions (a switch away from a thread that could go on, or a timeout that fires though somebody
could run); other switches are all enumerated without a bound. Time is virtual.
"""
import _thread
import dis
import os
import queue
import sys
import threading
import time

from .core import REPO

_real_lock = _thread.allocate_lock
SHARED = {n for n in dis.opmap if n.startswith(('LOAD_ATTR', 'STORE_ATTR', 'DELETE_ATTR', 'LOAD_GLOBAL', 'STORE_GLOBAL', 'LOAD_DEREF', 'STORE_DEREF', 'BINARY_SUBSCR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'BINARY_SLICE',
                                                'STORE_SLICE', 'CALL', 'LOAD_METHOD', 'CONTAINS_OP', 'FOR_ITER', 'GET_ITER', 'UNPACK', 'LIST_EXTEND', 'BINARY_OP', 'SEND', 'YIELD', 'BEFORE_WITH', 'LOAD_SUPER', 'DICT_', 'SET_UPDATE'))}
SHARED = {dis.opmap[n] for n in SHARED}


class Abort(BaseException):
    pass


class Deadlock(Exception):
    pass


class T(object):
    def __init__(self, s, f):
        self.s, self.f, self.id = s, f, len(s.threads)
        self.sem = _real_lock()
        self.sem.acquire()
        self.state = 'ready'
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.exc = None
        s.threads.append(self)
        _thread.start_new_thread(self.boot, ())

    def boot(self):
        s = self.s
        self.sem.acquire()
        try:
            if s.abort:
                raise Abort()
            if s.level and not s.quiet():
                sys.settrace(s.trace)
            try:
                self.f()
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            self.exc = e
        self.state = 'done'
        s.next(self)


S = [None]


class Sched(object):
    def __init__(self, plan, level='op', files=None, maxsteps=200000, visits=None, spent=False):
        self.plan, self.level, self.files = {(a, k): t for a, k, t in plan}, level, files
        self.last = (plan[-1][0], plan[-1][1]) if plan else None
        self.mark = 0                                       # decisions up to the last of the plan
        self.left = sum(a == 'p' for a, k, t in plan)       # preemptions to come
        self.spent = spent                                  # and none after them: no need to trace
        self.n = {'p': 0, 'f': 0}                           # points where the running thread could go on, and others
        self.visits = visits
        self.seen = {}
        self.threads = []
        self.step = 0
        self.log = []
        self.now = 1000.0
        self.abort = False
        self.error = None
        self.end = _real_lock()
        self.end.acquire()
        self.current = None
        self.maxsteps = maxsteps
        self.ops = {}

    def quiet(self):
        return self.spent and not self.left

    def fresh(self, frame):
        """The first visits of this thread to this place."""
        if self.visits is None:
            return True
        key = (self.current.id, frame.f_code, frame.f_lasti)
        n = self.seen[key] = self.seen.get(key, 0) + 1
        return n <= self.visits

    # ---- tracing
    def trace(self, frame, event, arg):
        if self.quiet():
            return None
        f = frame.f_code.co_filename
        if not f.startswith(REPO) or (self.files is not None and not f.endswith(self.files)):
            return None
        if self.level == 'op':
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.opcode
        if self.level == 'line':
            return self.line
        if self.fresh(frame):
            self.point()
        return self.ret

    def opcode(self, frame, event, arg):
        if self.quiet():
            frame.f_trace_lines = frame.f_trace_opcodes = False
        elif event == 'opcode':
            if frame.f_code.co_code[frame.f_lasti] in SHARED and self.fresh(frame):
                self.point()
        return self.opcode

    def line(self, frame, event, arg):
        if self.quiet():
            frame.f_trace_lines = frame.f_trace_opcodes = False
        elif event == 'line' and self.fresh(frame):
            self.point()
        return self.line

    def ret(self, frame, event, arg):
        if self.quiet():
            pass
        elif event == 'return' and self.fresh(frame):
            self.point()
        return self.ret

    # ---- scheduling
    def options(self, me):
        run = [t.id for t in self.threads if t.state == 'ready' or (t.state == 'blocked' and t.pred())]
        late = [t.id for t in self.threads if t.state == 'blocked' and t.deadline is not None and t.id not in run]
        return run, late

    def point(self):
        """The running thread offers to switch."""
        me = self.current
        if self.abort:
            raise Abort()
        if len(self.threads) == 1:
            return
        self.pick(me, True)

    def pick(self, me, able):
        run, late = self.options(me)
        kind = 'p' if able else 'f'
        k = (kind, self.n[kind])
        self.n[kind] += 1
        self.step += 1
        if self.step > self.maxsteps:
            self.fail(Deadlock('no end after %d steps' % self.step))
        if not run and not late:
            if all(t.state == 'done' for t in self.threads):
                self.end.release()
                return
            self.fail(Deadlock('deadlock: %s' % [t.id for t in self.threads if t.state != 'done']))
            return
        if able:
            default = me.id
        elif run:
            default = run[0]
        else:
            default = min(late, key=lambda i: self.threads[i].deadline)
        target = self.plan.get(k, default)
        if target not in run and target not in late:
            self.fail(RuntimeError('the schedule cannot be repeated: step %s%d, thread %s' % (k + (target,))))
        if len(run) + len(late) > 1:
            self.log.append((k, default, able, tuple(run), tuple(late)))
        if k in self.plan:
            self.left -= able
            if k == self.last:
                self.mark = len(self.log)
        t = self.threads[target]
        if target in late and target not in run:
            self.now = max(self.now, t.deadline)
            t.timed_out = True
        if t is me and me.state == 'ready':
            return
        t.state, t.pred, t.deadline = 'ready', None, None
        self.current = t
        if t is me:
            return
        t.sem.release()
        if me is not None and me.state != 'done':
            me.sem.acquire()
            if self.abort:
                raise Abort()

    def next(self, me):
        if self.abort:
            self.finish()
            return
        try:
            self.pick(me, False)
        except Abort:
            self.finish()

    def finish(self):
        if all(t.state == 'done' for t in self.threads):
            try:
                self.end.release()
            except RuntimeError:
                pass

    def fail(self, e):
        self.error = self.error or e
        self.abort = True
        me = self.current
        for t in self.threads:
            if t is not me and t.state != 'done':
                try:
                    t.sem.release()
                except RuntimeError:
                    pass
        raise Abort()

    def block(self, pred, timeout=None):
        """The running thread waits; True when pred holds, False when the time is over."""
        if self.abort:
            raise Abort()
        me = self.current
        me.timed_out = False
        me.state, me.pred = 'blocked', pred
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        self.pick(me, False)
        return not me.timed_out

    def run(self, main):
        S[0] = self
        t = T(self, main)
        self.current = t
        t.sem.release()
        self.end.acquire()
        S[0] = None
        if self.error:
            raise self.error
        for t in self.threads:
            if t.exc is not None:
                raise t.exc


# ------------------------------------------------------------ stand-ins for threading and time

class Lock(object):
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = S[0]
        if s is None:
            self.owner = True
            return True
        s.point()
        if self.owner is not None:
            if not blocking:
                return False
            if not s.block(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout):
                return False
        self.owner = s.current
        return True

    acquire_lock = acquire

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.owner = None
        if S[0]:
            S[0].point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(object):
    def __init__(self):
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = S[0]
        me = s.current if s else True
        if self.owner is me:
            self.n += 1
            return True
        if s:
            s.point()
            if self.owner is not None:
                if not blocking or not s.block(lambda: self.owner is None, None if timeout < 0 else timeout):
                    return False
        self.owner, self.n = me, 1
        return True

    def release(self):
        if self.owner is not (S[0].current if S[0] else True):
            raise RuntimeError('cannot release un-acquired lock')
        self.n -= 1
        if not self.n:
            self.owner = None
            if S[0]:
                S[0].point()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _release_save(self):
        n, self.n, self.owner = self.n, 0, None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.n = n

    def _is_owned(self):
        return self.owner is (S[0].current if S[0] else True)


class Thread(object):
    count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        Thread.count += 1
        self.name = name or 'Thread-%d' % Thread.count
        self.daemon = bool(daemon)
        self._t = None

    ident = property(lambda self: self._t and self._t.id + 1)
    native_id = ident

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._t:
            raise RuntimeError('threads can only be started once')

        def f():
            try:
                self.run()
            except Exception:       # printed by the interpreter, the others go on
                pass
        self._t = T(S[0], f)
        S[0].point()

    def join(self, timeout=None):
        if not self._t:
            raise RuntimeError('cannot join thread before it is started')
        S[0].point()
        if self._t.state != 'done':
            S[0].block(lambda: self._t.state == 'done', timeout)

    def is_alive(self):
        S[0].point()
        return bool(self._t and self._t.state != 'done')

    def setDaemon(self, x):
        self.daemon = x

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self)
        self.a = (interval, function, args or [], kwargs or {})
        self.cancelled = False

    def cancel(self):
        self.cancelled = True

    def run(self):
        S[0].block(lambda: self.cancelled, self.a[0])
        if not self.cancelled:
            self.a[1](*self.a[2], **self.a[3])


def now():
    return S[0].now if S[0] else 1000.0


def sleep(t):
    if S[0]:
        S[0].block(lambda: False, t)


def install():
    """Replaces threads, locks and clocks in this process."""
    threading.Lock = threading._allocate_lock = Lock
    threading.RLock = RLock
    threading._PyRLock = threading._CRLock = RLock
    threading.Thread = Thread
    threading.Timer = Timer
    _thread.allocate_lock = Lock
    _thread.start_new_thread_real = _thread.start_new_thread
    time.time = time.monotonic = time.perf_counter = now
    time.sleep = sleep
    queue.time = now
    queue.SimpleQueue = queue._PySimpleQueue
    queue._PySimpleQueue.__init__.__globals__['threading'] = threading


def wait_all():
    """Inside the main thread: until every other thread is done."""
    s = S[0]
    me = s.current
    s.block(lambda: all(t.state == 'done' for t in s.threads if t is not me))


class Explorer(object):
    """All schedules of main() within the bound."""

    def __init__(self, bound, level='op', files=None, limit=10 ** 7, visits=None):
        self.bound, self.level, self.files, self.limit, self.visits = bound, level, files, limit, visits
        self.schedules = self.points = self.maxpoints = 0

    def all(self, make, part=0, parts=1):
        """make() gives (main, check); yields the plan of every schedule after running both."""
        if self.level == 'op':
            sys._getframe().f_trace_opcodes = True      # from here on the interpreter offers opcode events to new trace functions
        sys.settrace(lambda *a: None)                   # keeps the interpreter's instrumentation in place between schedules
        todo = [((), 0)]
        nth = 0
        while todo:
            plan, cost = todo.pop()
            main, check = make()
            s = Sched(plan, self.level, self.files, visits=self.visits, spent=cost >= self.bound)
            root = not plan
            self.plan = plan
            s.run(main)
            check(s)
            self.schedules += 1
            self.points += s.step
            self.maxpoints = max(self.maxpoints, s.step)
            if self.schedules > self.limit:
                raise AssertionError('more than %d schedules' % self.limit)
            new = []
            for k, default, able, run, late in s.log[s.mark:]:
                for t in run:
                    if t != default and cost + able <= self.bound:
                        new.append((plan + (k + (t,),), cost + able))
                for t in late:
                    if t != default and cost + 1 <= self.bound:
                        new.append((plan + (k + (t,),), cost + 1))
            if root:
                new = new[part::parts]
            todo.extend(reversed(new))
            yield plan
