"""All crash states of a piece of code that writes files.

`Watch` runs a function with a profile hook: before and after every call of a C function that can touch the file
system, the watched directory is snapshotted (names -> inodes, inode contents). From the snapshots and the intercepted
fsync calls it enumerates
 * what a dying process leaves: every snapshot, and for a growing file also the prefixes of the bytes one call wrote;
 * what a dying machine leaves: at every snapshot, every prefix of the directory operations since the last directory
   sync, combined with the synced, empty, zero-filled, torn and current content of a file that was not synced.
It can also make the n-th such call fail instead (the exception is raised in place of the call).
"""
import os
import stat
import sys

_fsync, _fdatasync, _sync = os.fsync, os.fdatasync, os.sync
_current = [None]


def _w_fsync(fd):
    w = _current[0]
    if w is None or w.path is None:
        return _fsync(fd)
    return w.synced(fd if isinstance(fd, int) else fd.fileno())


def _w_sync():
    w = _current[0]
    if w is None or w.path is None:
        return _sync()
    w.synced_all()


os.fsync = _w_fsync
os.fdatasync = _w_fsync
os.sync = _w_sync


def touches(func):
    if getattr(func, '__module__', None) in ('posix', '_io', 'io', 'fcntl', 'mmap'):
        return True
    s = getattr(func, '__self__', None)
    if s is not None and type(s).__module__ in ('_io', 'mmap'):
        return True
    return s is not None and getattr(s, '__name__', None) in ('posix', '_io', 'fcntl')


class Snap(object):
    __slots__ = ('names', 'content')

    def __init__(self, names, content):
        self.names, self.content = names, content


class Watch(object):
    def __init__(self, path):
        self.path = path
        self.keep = {}        # inode -> fd, so that numbers are not reused
        self.snaps = []
        self.events = []
        self.fail_at = None
        self.exc = None
        self.failed = False
        self.fail_name = None
        self.busy = False
        first = self.look()
        self.durable = {i: c for i, c in first.content.items()}
        self.dirs = [first.names]     # listings since (and with) the synced one
        self.marks = []               # per snapshot: (durable contents, listings)
        self.snaps.append(first)
        self.marks.append((dict(self.durable), list(self.dirs)))

    def look(self):
        names, content = {}, {}
        for n in os.listdir(self.path):
            p = os.path.join(self.path, n)
            try:
                st = os.lstat(p)
            except OSError:
                continue
            if not stat.S_ISREG(st.st_mode):
                continue
            names[n] = st.st_ino
            if st.st_ino not in self.keep:
                fd = os.open(p, os.O_RDONLY)
                os.set_inheritable(fd, False)
                self.keep[st.st_ino] = fd
        for ino, fd in self.keep.items():
            size = os.fstat(fd).st_size
            content[ino] = os.pread(fd, size, 0)
        return Snap(names, content)

    def snap(self):
        s = self.look()
        last = self.snaps[-1]
        if s.names != last.names:
            self.dirs.append(s.names)
        if s.names != last.names or s.content != last.content:
            self.snaps.append(s)
            self.marks.append((dict(self.durable), list(self.dirs)))

    def synced(self, fd):
        self.busy = True
        try:
            self._synced(fd)
        finally:
            self.busy = False

    def _synced(self, fd):
        self.events.append('fsync')
        if self.fail_at == len(self.events) - 1:
            self.fail_at = None
            self.failed = True
            self.fail_name = 'fsync'
            raise self.exc
        st = os.fstat(fd)
        s = self.look()
        if stat.S_ISDIR(st.st_mode):
            if st.st_ino == os.stat(self.path).st_ino:
                self.dirs = [s.names]
        elif st.st_ino in s.content:
            self.durable[st.st_ino] = s.content[st.st_ino]
        self.marks.append((dict(self.durable), list(self.dirs)))
        self.snaps.append(s)

    def synced_all(self):
        s = self.look()
        self.dirs = [s.names]
        self.durable = dict(s.content)
        self.marks.append((dict(self.durable), list(self.dirs)))
        self.snaps.append(s)

    def _prof(self, frame, event, arg):
        if event not in ('c_call', 'c_return', 'c_exception') or self.busy or not touches(arg):
            return
        self.snap()
        if event == 'c_call':
            self.events.append(getattr(arg, '__qualname__', repr(arg)))
            if self.fail_at == len(self.events) - 1:
                self.fail_at = None
                self.failed = True
                self.fail_name = self.events[-1]
                raise self.exc

    def run(self, f, fail_at=None, exc=None):
        """Returns (value, exception)."""
        self.fail_at, self.exc = fail_at, exc
        _current[0] = self
        sys.setprofile(self._prof)
        try:
            try:
                return f(), None
            except BaseException as e:
                return None, e
        finally:
            sys.setprofile(None)
            _current[0] = None
            self.snap()

    def close(self):
        for fd in self.keep.values():
            os.close(fd)
        self.keep = {}

    # ---- crash states of one file name: sets of contents (None: no such file)
    def process_states(self, name):
        out = {}
        prev = None
        for k, s in enumerate(self.snaps):
            ino = s.names.get(name)
            out.setdefault(None if ino is None else s.content[ino], k)
            if ino is not None and prev is not None and prev.names.get(name) == ino and prev.content.get(ino) != s.content[ino]:
                a, b = prev.content.get(ino, b''), s.content[ino]
                if b.startswith(a):
                    for n in range(len(a), len(b)):
                        out.setdefault(b[:n], k)
                else:
                    for n in (0, len(b) // 2, len(b) - 1):
                        out.setdefault(b[:n] + a[n:], k)
            prev = s
        return out

    def machine_states(self, name, last_only=False):
        out = {}
        for k in range(len(self.marks)) if not last_only else [len(self.marks) - 1]:
            durable, dirs = self.marks[k]
            s = self.snaps[k]
            for names in dirs:
                ino = names.get(name)
                if ino is None:
                    out.setdefault(None, k)
                    continue
                cur, syn = s.content[ino], durable.get(ino)
                out.setdefault(cur, k)
                if cur != syn:
                    for c in (syn or b'', b'', b'\0' * len(cur), cur[:1], cur[:len(cur) // 2], cur[:-1]):
                        out.setdefault(c, k)
                    if syn is not None:
                        for n in (1, len(cur) // 2):
                            out.setdefault(cur[:n] + syn[n:], k)
        return out
