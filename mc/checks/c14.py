"""C14: wallet files."""
import base64
import re
import itertools
import os

from .. import wfiles as F, fast
from ..wfiles import W, Spec
from ..ref import wal

LEVEL = 'model_checking'
BOUNDS = dict(quick='every combination of kind, private/public, compression, network, 6 version numbers, 6 keys, 4 HD positions with 12 passphrases (6 version numbers x 2 keys x all passphrases); every sequence of 3 saves of 4 wallets on 2 files with 3 passphrases, loads after each; saving 1-3 times over files with 6 permission modes and none, under 4 umasks',
              thorough='20 version numbers, 16 keys, 12 HD positions, 30 passphrases; sequences of 4')
ASSUMPTIONS = ['passphrases are bytes when saving, as the code demands; typed ones are latin-1 text without outer blanks', 'large-number arithmetic is replaced by the reference (decided by C22/C23/C27)',
               'private key material in a file is searched as raw, hex, decimal, base64 and WIF text, reversed too, in windows of 6 key bytes or 9 characters']
N = wal.N
KEYS = [0xfedcba9876543210fedcba9876543210fedcba9876543210fedcba9876543210, 1, N - 1, 0x1234 << 96, (1 << 248) - 12345, 0x0100 << 240 | 1] + [(0x9e3779b97f4a7c15f39cc0605cedc834 << 100) + 12345 * i for i in range(10)]
VCNS = [0, 1, 0x7fff, 0x8000, 0xffff, 0x00ff, 2, 9, 10, 15, 16, 0xfff, 0x1000, 0x100, 255, 4096, 65534, 32767 + 5, 1234, 54321]
HDS = [(0, b'\0' * 4, 0, b'\x42' * 32), (1, b'\1\2\3\4', 0, bytes(32)), (255, b'\xff' * 4, 0xffffffff, b'\xff' * 32), (3, b'\0\0\0\1', 0x80000000, bytes(range(32))),
       (2, b'\0' * 4, 1, bytes(32)), (254, b'abcd', 0x7fffffff, b'\1' * 32), (128, b'\0\xff\0\xff', 255, b'\x80' * 32), (16, b'1234', 65536, bytes(range(100, 132)))]
PASS = [b'', b'x', b'Mixed CASE', b'0' * 15, b'0' * 16, b'0' * 17, b'secret passphrase longer than sixteen', b'\0', b'a\0', b'\xff\xfe', bytes(range(16)), b' ', b'\n', b'p' * 1000] + [bytes([i]) * (i % 19 + 1) for i in range(1, 18)]


def secrets(s):
    """Texts that give away the private key."""
    if not s.private:
        return []
    raw = wal.b32(s.d)
    out = []
    for t in (raw.hex(), raw[::-1].hex(), wal.wif(s.d, True).hex(), wal.wif(s.d, False).hex(), wal.wif(s.d, True).decode(), wal.wif(s.d, False).decode(), str(s.d), base64.b64encode(raw).decode(), s.node().ext(True).decode()[73:]):
        k = 12 if all(c in '0123456789abcdef' for c in t) else 9
        for i in range(0, len(t) - k + 1):
            w = t[i:i + k]
            if len(set(w)) > 4:
                out.append(w)
    return out


def leak(ctx, s, path, case):
    with open(path, 'rb') as f:
        data = f.read()
    text = data.decode('latin-1').lower()
    for w in secrets(s):
        if w.lower() in text:
            ctx.fail(case, 'private key material in the encrypted file: %s' % w)
    if '\\' in text:
        data += b' ' + re.sub(r'\\(?:x|u00)([0-9a-f]{2})', lambda m: chr(int(m.group(1), 16)), data.decode('latin-1')).encode('latin-1')
    raw = wal.b32(s.d)
    for i in range(27):
        if len(set(raw[i:i + 6])) > 3 and raw[i:i + 6] in data:
            ctx.fail(case, 'raw private key material in the encrypted file')


def look(ctx, w, s, case):
    ctx.current = case
    g, want = F.view(w), s.view()
    if g != want:
        names = 'kind private public address vcn testnet compressed'.split() if s.kind == 'addr' else 'kind private public address vcn xpub xprv chain depth parent num'.split()
        for n, a, b in zip(names, g, want):
            ctx.eq(a, b, case, 'loaded wallet, ' + n)
        ctx.fail(case, 'loaded wallet differs')


def one(ctx, scratch, s, pw, full):
    case = dict(wallet=s.key(), passphrase=pw)
    ctx.current = case
    path = scratch('w')
    w = s.make()
    W.saveTo(path, w, pw)
    look(ctx, w, s, dict(case, after='saving'))
    F.prompt()
    g = W.loadFrom(path, pw)
    look(ctx, g, s, case)
    if pw and s.private:
        leak(ctx, s, path, case)
        try:
            text = pw.decode('latin-1')
        except UnicodeDecodeError:
            text = None
        if text == text.strip():
            F.prompt('', '', text)
            look(ctx, W.loadFrom(path), s, dict(case, typed=True))
            F.prompt()
            look(ctx, W.loadFrom(path, text), s, dict(case, text=True))
    # a second generation
    p2 = scratch('w2')
    W.saveTo(p2, g, pw)
    look(ctx, W.loadFrom(p2, pw), s, dict(case, generation=2))
    ctx.trans(2)
    ctx.trace()
    ctx.state((s.key(), pw))
    if full:
        behave(ctx, w, g, s, case)
    os.remove(path)
    os.remove(p2)


def behave(ctx, w, g, s, case):
    """The loaded wallet signs and verifies for the original and derives the same children."""
    F.entropy.stream('c14')
    sig = s.make().sign(b'data') if s.private else Spec(s.kind, s.d, True, s.compressed, s.testnet, s.vcn, s.hd).make().sign(b'data')
    ctx.ok(g.verify(b'data', sig) is True and g.verify(b'date', sig) is False, case, 'verification by the loaded wallet')
    if s.private:
        sig = g.sign(b'other')
        ctx.ok(w.verify(b'other', sig) is True, case, 'signature of the loaded wallet')
    else:
        ctx.raises(lambda: g.sign(b'x'), case, 'a public-only wallet signs')
    if s.kind == 'hd' and s.hd[0] < 255:
        for i in (0, 0x80000000, 5):
            want = s.node().child(i)
            if want is None:
                ctx.raises(lambda: g.child(i), case, 'derivation')
            else:
                ctx.eq(g.child(i).to_extended_key(want.d is not None), want.ext(want.d is not None), dict(case, child=i), 'child')
    if s.kind == 'addr':
        a, b = g.compress(), g.decompress()
        pk = wal.pub(s.d)
        ctx.eq((a.address, b.address), (wal.address(wal.comp(pk), s.vcn, s.testnet), wal.address(wal.full(pk), s.vcn, s.testnet)), case, 'addresses of the switched forms')


def u_matrix(ctx, ss, pws, full):
    fast.on()
    os.fsync = lambda fd: None
    with F.Scratch() as scratch:
        for s in ss:
            for pw in pws:
                one(ctx, scratch, s, pw, full)
    ctx.sample(dict(wallet=ss[0].key(), passphrase=pws[0]))


def u_seq(ctx, first, depth):
    """Every sequence of saves over two files: each file holds the wallet saved last."""
    fast.on()
    os.fsync = lambda fd: None
    K = 0x5555 << 230 | 7
    ws = [Spec('addr', K, True, True, False, 1), Spec('hd', 12345, True, True, True, 0xffff, HDS[3]), Spec('addr', 99, False, True, False, 0), Spec('hd', K, False, True, False, 3, HDS[1])]
    made = [w.make() for w in ws]
    acts = [(i, f, p) for i in range(len(ws)) for f in ('a', 'a.tmp') for p in (b'', b'pw', b'another passphrase') if not (p == b'pw' and i >= 2)]
    with F.Scratch() as scratch:
        for rest in itertools.product(acts, repeat=depth - 1):
            seq = (acts[first],) + rest
            model = {}
            for i, f, p in seq:
                ctx.current = seq
                W.saveTo(scratch(f), made[i], p)
                model[f] = (i, p)
                ctx.trans()
            for f, (i, p) in model.items():
                look(ctx, W.loadFrom(scratch(f), p), ws[i], dict(sequence=seq, file=f))
                if p and ws[i].private:
                    leak(ctx, ws[i], scratch(f), dict(sequence=seq, file=f))
            for f in os.listdir(scratch.path):
                os.remove(scratch(f))
            ctx.state(seq)
            ctx.trace()
        for i, w in enumerate(made):
            look(ctx, w, ws[i], 'after all')
    ctx.sample(seq)


def u_paths(ctx):
    fast.on()
    with F.Scratch() as scratch:
        a, b = Spec('addr', 7, True, True, False, 1), Spec('hd', 8, True, True, False, 2)
        os.mkdir(scratch('dir with space'))
        os.symlink('dir with space/real', scratch('link'))
        cwd = os.getcwd()
        os.chdir(scratch.path)
        try:
            for path in ('rel', './rel2', 'dir with space/x', scratch('abs'), 'link', 'dir with space/../rel3', 'n' * 200, u'\xe9\u4e2d'):
                for s, t in ((a, b), (b, a)):
                    for pw in (b'', b'pw'):
                        ctx.current = (path, pw)
                        W.saveTo(path, s.make(), pw)
                        look(ctx, W.loadFrom(path, pw), s, (path, pw))
                        W.saveTo(path, t.make(), b'')
                        look(ctx, W.loadFrom(path), t, (path, pw, 'over'))
                        ctx.trans(2)
                        ctx.state((path, pw, s.kind))
                        ctx.trace()
            ctx.ok(os.path.islink('link') and os.path.exists('dir with space/real'), 'link', 'the link was replaced')
        finally:
            os.chdir(cwd)


def u_modes(ctx):
    """Saving over a file keeps who may read it; a new file is not more open than the umask says; nothing else is left."""
    fast.on()
    a, b = Spec('addr', 7, True, True, False, 1), Spec('hd', 8, True, True, False, 2)
    for umask in (0o022, 0o077, 0, 0o027):
        for mode in (None, 0o600, 0o640, 0o644, 0o400, 0o666, 0o660):
            for n in (1, 2, 3):
                case = dict(umask=oct(umask), mode=mode and oct(mode), saves=n)
                ctx.current = case
                with F.Scratch() as scratch:
                    old = os.umask(umask)
                    try:
                        if mode is not None:
                            W.saveTo(scratch('w'), a.make(), b'x')
                            os.chmod(scratch('w'), mode)
                        for i in range(n):
                            W.saveTo(scratch('w'), (b, a)[i % 2].make(), b'pw')
                            got = os.stat(scratch('w')).st_mode & 0o7777
                            if mode is not None:
                                ctx.eq(oct(got), oct(mode), case, 'permissions')
                            else:
                                ctx.ok(not got & ~(0o666 & ~umask), case, 'permissions %o of a new file' % got)
                            ctx.trans()
                    finally:
                        os.umask(old)
                    ctx.eq(os.listdir(scratch.path), ['w'], case, 'files')
                    look(ctx, W.loadFrom(scratch('w'), b'pw'), (b, a)[(n - 1) % 2], case)
                ctx.state(tuple(case.values()))
                ctx.trace()


def units(tier):
    th = tier == 'thorough'
    nk, nv, nh, np = (16, 20, 8, 30) if th else (6, 6, 4, 12)
    ss = F.specs(KEYS[:nk], VCNS[:nv], HDS[:nh])
    for i in range(0, len(ss), 48):
        yield 'matrix %d' % i, u_matrix, (ss[i:i + 48], [b'', PASS[1 + i // 48 % (np - 1)]], False)
    s2 = F.specs(KEYS[:2], VCNS[:2], HDS[:2])
    for i in range(0, len(s2), 8):
        yield 'pass %d' % i, u_matrix, (s2[i:i + 8], PASS[:np], False)
    s3 = F.specs(KEYS[:nk], VCNS[2:4], HDS[:nh])
    for i in range(0, len(s3), 24):
        yield 'behave %d' % i, u_matrix, (s3[i:i + 24], [b'', b'pw'][i // 24 % 2:][:1], True)
    for i in range(20):
        yield 'seq %d' % i, u_seq, (i, 4 if th else 3)
    yield 'paths', u_paths, ()
    yield 'modes', u_modes, ()
