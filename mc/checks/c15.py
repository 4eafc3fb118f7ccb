"""C15: crashes and write errors while saving a wallet."""
import os
import resource

from .. import crash, wfiles as F, fast
from ..wfiles import W, Spec
from ..ref import wal

LEVEL = 'fault_enumeration'
RULE = 'every crash point (each system-level call of the save), each torn, unsynced or reordered state there, each failing call, each file size limit; distinct by (wallets, passphrases, fault)'
BOUNDS = dict(quick='14 pairs of old and new wallet (ordinary, HD, public-only, shorter and longer, encrypted or not, none, linked); every file-system call of the save: process death, machine death, I/O error, no space, interrupt; every file size limit 0..len; a second save after every crash of the first; 16 file names up to 240 characters, every directory on its own file system',
              thorough='all 72 pairs of 8 wallets and no file; a second save, itself crashed everywhere, after every crash of the first')
ASSUMPTIONS = ['a rename is atomic and directory operations reach the disk in order; unsynced file content may be lost, torn or zeroed',
               'only faults of calls that change files are injected (interrupts at every call)', 'a save that fails after the new file has been put in place may leave the new wallet']
N = wal.N
QUERY = {'stat', 'lstat', 'fstat', 'readlink', 'getcwd', 'fspath', '_path_normpath', 'umask', 'getpid', 'listdir', 'access', 'isatty', 'fileno', '__init__', 'text_encoding'}
WS = [(None, b''), (Spec('addr', 0x11 << 200, True, True, False, 1), b''), (Spec('addr', 5, True, False, True, 2), b'pw'), (Spec('addr', 77, False, True, False, 3), b''),
      (Spec('hd', 0x22 << 190, True, True, False, 4, (3, b'abcd', 5, bytes(32))), b''), (Spec('hd', N - 1, True, True, True, 5), b'pass'), (Spec('hd', 1, False, True, False, 6), b''),
      (Spec('addr', 0x33 << 100, True, True, False, 7), b'0123456789abcdef'),
      (Spec('hd', N - 2, True, True, True, 0xffff, (255, b'\xff' * 4, 2 ** 32 - 1, b'\xff' * 32)), b'0123456789abcdef')]    # the longest file
PAIRS = [(0, 1), (0, 5), (1, 2), (2, 1), (1, 4), (4, 1), (5, 2), (6, 5), (3, 7), (7, 3), (4, 5), (5, 6), (4, 8), (8, 1)]


class Files(object):
    """What the file content is: 'old', 'new', None (no file) or 'bad'."""

    def __init__(self, scratch, old, new):
        self.scratch, self.old, self.new = scratch, old, new
        self.cache = {}

    def kind(self, content):
        if content is None:
            return None
        if content in self.cache:
            return self.cache[content]
        p = self.scratch('probe')
        with open(p, 'wb') as f:
            f.write(content)
        got = 'bad'
        for name, (s, pw) in (('new', self.new), ('old', self.old)):
            if s is None:
                continue
            try:
                F.prompt()
                if F.view(W.loadFrom(p, pw)) == s.view():
                    got = name
                    break
            except (Exception, F.Asked):
                pass
        self.cache[content] = got
        return got


def setup(scratch, old, link, n):
    """A fresh directory with the old wallet; returns (directory, path to save to, name of the real file)."""
    d = scratch('d%d' % n)
    os.mkdir(d)
    real = os.path.join(d, 'wallet')
    if old[0] is not None:
        W.saveTo(real, old[0].make(), old[1])
    if link:
        os.mkdir(scratch('l%d' % n))
        path = os.path.join(scratch('l%d' % n), 'link')
        os.symlink(real, path)
    else:
        path = real
    return d, path, 'wallet'


def allowed(old):
    return {'new', 'old' if old[0] is not None else None}


def states(ctx, w, files, old, case):
    ok = allowed(old)
    for how, st in (('process', w.process_states('wallet')), ('machine', w.machine_states('wallet'))):
        for content, k in st.items():
            ctx.eval()
            got = files.kind(content)
            ctx.outcome('%s crash: %s' % (how, got))
            if got not in ok:
                ctx.fail(dict(case, crash=how, at_snapshot=k, of=len(w.snaps), calls=w.events, file=content),
                         'a %s crash leaves %s' % (how, 'no wallet file' if content is None else 'a file that holds neither wallet'))


def run(ctx, files, base, new, fail_at=None, exc=None, limit=None):
    d, path, name = base
    w = crash.Watch(d)
    wallet = new[0].make()
    if isinstance(wallet, W.HDWallet):
        wallet.point()
    if limit is not None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
    try:
        _, e = w.run(lambda: W.saveTo(path, wallet, new[1]), fail_at, exc)
    finally:
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    w.error = e
    return w


def content(base):
    try:
        with open(os.path.join(base[0], 'wallet'), 'rb') as f:
            return f.read()
    except OSError:
        return None


def wipe(base, scratch):
    import shutil
    shutil.rmtree(base[0])
    if base[1] != os.path.join(base[0], 'wallet'):
        shutil.rmtree(os.path.dirname(base[1]))


def u_pair(ctx, i, j, link, deep):
    fast.on()
    old, new = WS[i], WS[j]
    case = dict(old=old[0] and old[0].key(), old_passphrase=old[1], new=new[0].key(), passphrase=new[1], link=link)
    with F.Scratch() as scratch:
        files = Files(scratch, old, new)
        n = [0]

        def fresh():
            n[0] += 1
            return setup(scratch, old, link, n[0])
        # the save itself
        base = fresh()
        ctx.current = case
        w = run(ctx, files, base, new)
        if w.error is not None:
            raise w.error
        states(ctx, w, files, old, case)
        for c, k in w.machine_states('wallet', True).items():
            ctx.ok(files.kind(c) == 'new', dict(case, calls=w.events, file=c), 'after the save returned a machine crash leaves %s' % files.kind(c))
        ctx.ok(files.kind(content(base)) == 'new', case, 'the file does not hold the new wallet after the save')
        total = len(w.events)
        size = len(content(base))
        ctx.notes['calls'] = [e for e in w.events if e not in QUERY]
        ctx.ok(total > 0, case, 'no file system call seen')
        wipe(base, scratch)
        w.close()
        # each call fails
        for k in range(total):
            for exc in (OSError(28, 'No space left on device'), OSError(5, 'Input/output error'), PermissionError(13, 'Permission denied'), KeyboardInterrupt('stopped')):
                if isinstance(exc, OSError) and w.events[k].split('.')[-1] in QUERY:
                    continue
                base = fresh()
                c2 = dict(case, failing_call=k, name=w.events[k], error=repr(exc))
                ctx.current = c2
                w2 = run(ctx, files, base, new, k, exc)
                judge(ctx, w2, files, old, base, c2)
                if w2.failed and (isinstance(exc, OSError) or w.events[k].split('.')[-1] in ('write', 'flush', 'fsync', 'rename', 'replace')):
                    left = sorted(set(os.listdir(base[0])) - {'wallet'})
                    ctx.ok(not left, c2, 'a failed save (%r) leaves other files: %s' % (w2.error, left))
                w2.close()
                wipe(base, scratch)
                ctx.state((i, j, link, k, repr(exc)))
        # the disk is full after so many bytes
        for limit in range(0, size + 2):
            base = fresh()
            c2 = dict(case, file_size_limit=limit)
            ctx.current = c2
            w2 = run(ctx, files, base, new, limit=limit)
            if w2.error is None:
                ctx.ok(files.kind(content(base)) == 'new', c2, 'the save returned without saving')
            else:
                w2.failed = True
                judge(ctx, w2, files, old, base, c2)
            w2.close()
            wipe(base, scratch)
            ctx.state((i, j, link, 'limit', limit))
        # a crash of a first save, then another save
        for k in range(total):
            base = fresh()
            c2 = dict(case, first_save_died_at=k)
            ctx.current = c2
            w2 = run(ctx, files, base, WS[3] if j != 3 else WS[1], k, Dead())
            w2.close()
            first = Files(scratch, old, WS[3] if j != 3 else WS[1])
            mid = content(base)
            which = first.kind(mid)
            ctx.ok(which in allowed(old), c2, 'the first crash left %s' % which)
            prev = old if which == 'old' else (None, b'') if which is None else (WS[3] if j != 3 else WS[1])
            f2 = Files(scratch, prev, new)
            w3 = run(ctx, f2, base, new)
            if w3.error is not None:
                ctx.fail(c2, 'cannot save after a crashed save: %r' % w3.error)
            ctx.ok(f2.kind(content(base)) == 'new', c2, 'the second save did not save')
            if deep or k % 4 == 0:
                states(ctx, w3, f2, prev, c2)
            ctx.state((i, j, link, 'again', k))
            w3.close()
            wipe(base, scratch)
    ctx.sample(case)


def u_names(ctx):
    """File names of any length and kind; every directory is a file system of its own, so only files of the same directory can be renamed over the wallet."""
    fast.on()
    names = ['w', 'w.json', '.hidden', '-dash', 'with space', 'caf\u00e9', '\u65e5\u672c', 'W' * 64, 'w%s', 'a' * 100, 'b' * 127, 'c' * 128, 'd' * 199, 'e' * 200, 'f' * 201, 'g' * 240]
    with F.Scratch() as scratch:
        real = {x: getattr(os, x) for x in ('rename', 'replace', 'link')}

        def near(f):
            def g(a, b, *x, **kw):
                if os.path.dirname(os.path.abspath(os.fsdecode(a))) != os.path.dirname(os.path.abspath(os.fsdecode(b))):
                    raise OSError(18, 'Invalid cross-device link')
                return f(a, b, *x, **kw)
            return g
        for k, name in enumerate(names):
            for i, j in PAIRS[:8]:
                old, new = WS[i], WS[j]
                case = dict(file=name, old=old[0] and old[0].key(), new=new[0].key())
                ctx.current = case
                d = scratch('n')
                os.mkdir(d)
                path = os.path.join(d, name)
                if old[0] is not None:
                    W.saveTo(path, old[0].make(), old[1])
                wallet = new[0].make()
                if isinstance(wallet, W.HDWallet):
                    wallet.point()
                for x in real:
                    setattr(os, x, near(real[x]))
                w = crash.Watch(d)
                try:
                    _, e = w.run(lambda: W.saveTo(path, wallet, new[1]), None, None)
                finally:
                    for x in real:
                        setattr(os, x, real[x])
                ctx.ok(e is None, case, 'the save failed: %r' % (e,))
                files = Files(scratch, old, new)
                ok = allowed(old)
                for how, st in (('process', w.process_states(name)), ('machine', w.machine_states(name))):
                    for content, at in st.items():
                        ctx.eval()
                        ctx.ok(files.kind(content) in ok, dict(case, crash=how, file=content), 'a %s crash leaves %s' % (how, files.kind(content)))
                for content in w.machine_states(name, True):
                    ctx.ok(files.kind(content) == 'new', dict(case, file=content), 'after the save returned a machine crash leaves %s' % files.kind(content))
                ctx.eq(os.listdir(d), [name], case, 'files in the directory')
                w.close()
                import shutil
                shutil.rmtree(d)
                ctx.state((k, i, j))
    ctx.sample(case)


class Dead(BaseException):
    """Stands for the death of the process; the cleaning code of the save still runs, which only adds states."""


def judge(ctx, w, files, old, base, case):
    ctx.eval()
    got = files.kind(content(base))
    if not w.failed:
        return
    if w.error is None:      # overcome
        ctx.ok(got == 'new', case, 'the save returned in spite of an error but the file holds %s' % got)
        ctx.outcome('error overcome')
    else:
        ctx.ok(got in allowed(old), case, 'after a failed save (%r) the file holds %s' % (w.error, got))
        if got == 'new':
            # only when the new file had been put in place before the error
            names = [s for s in w.snaps if files.kind(s.content.get(s.names.get('wallet'))) == 'new']
            ctx.ok(names, case, 'a failed save')
        ctx.outcome('error reported, file %s' % got)
    states(ctx, w, files, old, case)


def units(tier):
    th = tier == 'thorough'
    pairs = [(i, j) for i in range(9) for j in range(1, 9) if i != j] if th else PAIRS
    for k, (i, j) in enumerate(pairs):
        yield 'pair %d %d' % (i, j), u_pair, (i, j, k % 3 == 2, th)
    yield 'names', u_names, ()
