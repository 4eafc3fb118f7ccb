"""C39: private keys are shown only where asked for."""
import contextlib
import io
import itertools
import json
import logging
import re
import warnings

from .. import wfiles as F, fast
from ..wfiles import W, Spec
from ..ref import wal, base58 as R
from .c14 import secrets

LEVEL = 'model_checking'
N = wal.N
KEYS = [0xfedcba9876543210fedcba9876543210fedcba9876543210fedcba9876543210 % N, (0x9e3779b97f4a7c15f39cc0605cedc834 << 100) + 12345, int('3141592653589793238462643383279502884197169399375105820974944592307816406286'), N - 0xabcdef0123456789,
        (0x123456789abcdef << 190) + 0x77665544332211]
HDS = [(0, b'\0' * 4, 0, bytes(range(32))), (3, b'\1\2\3\4', 0x80000005, bytes(range(100, 132))), (255, b'abcd', 7, bytes(range(50, 82)))]
BOUNDS = dict(quick='5 keys x every kind of wallet, private and public, x every sequence of 2 of 28 operations (texts, public extended keys, signing, verifying, children, saving, loading with right and wrong passphrases, failing calls), with the private wallet of the same key used before or not; errors of splitting and combining, for 11 wrong parts at 3 places',
              thorough='all sequences of 3 operations')
ASSUMPTIONS = ['disclosure: 9 characters (12 hexadecimal digits) in a row of the key as hexadecimal, decimal, base64, WIF or extended key text, in returned texts, printed output or messages of exceptions']


def text(x, depth=4):
    """Everything printable of a result."""
    if isinstance(x, str):
        return x
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).decode('latin-1') + ' ' + bytes(x).hex()
    if isinstance(x, BaseException):
        return ' '.join([str(x), repr(x)] + [text(a, depth - 1) for a in x.args] + ([text(x.__cause__, depth - 1)] if x.__cause__ and depth else []))
    if isinstance(x, dict):
        return json.dumps(x, default=repr)
    return '%s %r %s' % (x, x, '{0}'.format(x))


def ops(s, path):
    """(name, f(wallet)): operations whose outcome may not show the private key."""
    private, addr = s.private, s.kind == 'addr'
    out = [('str', str), ('repr', repr), ('format', lambda w: '%s %r' % ([w], w)), ('verify', lambda w: w.verify(b'data', b'0')), ('bad verify', lambda w: w.verify(b'data', None)), ('bad verify 2', lambda w: w.verify(None, b'x' * 70)),
           ('save encrypted', lambda w: (W.saveTo(path('e'), w, b'pass'), open(path('e')).read())[1]),
           ('cfg encrypted', lambda w: w.dump_to_cfg(b'other pass')),
           ('bad pass', lambda w: w.dump_to_cfg(7)), ('bad place', lambda w: W.saveTo(path('no/such/dir'), w, b'pass')),
           ('bad sign', lambda w: w.sign(None)), ('bad sign 2', lambda w: w.sign(5))]
    if private:
        out.append(('sign', lambda w: w.sign(b'data')))
    else:
        out += [('sign', lambda w: w.sign(b'data')), ('save', lambda w: (W.saveTo(path('p'), w), open(path('p')).read())[1]), ('cfg', lambda w: w.dump_to_cfg())]

    def wrong(w):
        W.saveTo(path('x'), w, b'pass')
        F.prompt()
        return str(W.loadFrom(path('x'), b'wrong'))
    out.append(('wrong passphrase', wrong))

    def damaged(w):
        c = w.dump_to_cfg()
        for k in ('prvkey', 'pubkey'):
            if c.get(k):
                c[k] = c[k][:-2] + ('00' if c[k][-2:] != '00' else '11')
        return str(type(w).load_from_cfg(c))
    out.append(('damaged', damaged))

    def cut(w):
        c = w.dump_to_cfg()
        for k in ('prvkey', 'pubkey'):
            if c.get(k):
                c[k] = c[k][:-7]
        return str(type(w).load_from_cfg(c))
    out.append(('cut', cut))

    def loaded(w):
        W.saveTo(path('y'), w, b'pass')
        F.prompt()
        return str(W.loadFrom(path('y'), b'pass'))
    out.append(('loaded', loaded))
    if addr:
        out += [('address', lambda w: w.address), ('public key', lambda w: w.publicKey()), ('pubKey', lambda w: w.pubKey), ('compress', lambda w: str(w.compress())), ('decompress', lambda w: str(w.decompress()))]
        if not private:
            out.append(('privKey', lambda w: w.privKey))
            out.append(('priv key', lambda w: w._priv_key() if hasattr(w, '_priv_key') else None))
    else:
        out += [('address', lambda w: w.address()), ('pubkey', lambda w: w.pubkey()), ('extended', lambda w: w.to_extended_key()), ('extended 2', lambda w: w.to_extended_key(include_prv=False)), ('point', lambda w: w.point()),
                ('fingerprint', lambda w: (w.fingerprint(), w.parentfp(), w.depth(), w.childnum())), ('child', lambda w: str(w.child(5))), ('child xpub', lambda w: w.child(6).to_extended_key()),
                ('hardened child', lambda w: str(w.child(0x80000005))), ('bad child', lambda w: w.child(-1)), ('bad child 2', lambda w: w.child(1 << 32)), ('bad child 3', lambda w: w.child('x')),
                ('public half', lambda w: str(W.HDWallet.from_extended_key(w.to_extended_key(), vcn=1))), ('bad extended', lambda w: W.HDWallet.from_extended_key(w.to_extended_key()[:-1] + b'z'))]
        if private:
            out.append(('public grandchild', lambda w: W.HDWallet.from_extended_key(w.to_extended_key(), vcn=1).child(3).to_extended_key()))
            out.append(('bad private extended', lambda w: W.HDWallet.from_extended_key(w.to_extended_key(True)[:-1] + b'z')))
        else:
            out += [('private extended', lambda w: w.to_extended_key(True)), ('prvkey', lambda w: w.prvkey())]
    return out


def revealed(t):
    """The text, and in hexadecimal the bytes it stands for (as they are, or escaped)."""
    raw = t.encode('latin-1', 'ignore')
    out = t + ' ' + raw.hex()
    if '\\' in t:
        out += ' ' + re.sub(rb'\\(?:x([0-9a-fA-F]{2})|u00([0-9a-fA-F]{2})|([tnr\\\'"]))', unescaped, raw).hex()
    return out.lower()


def unescaped(m):
    h = m.group(1) or m.group(2)
    return bytes([int(h, 16)]) if h else {b't': b'\t', b'n': b'\n', b'r': b'\r'}.get(m.group(3), m.group(3))


def captured(f, w):
    o, e, log = io.StringIO(), io.StringIO(), io.StringIO()
    h = logging.StreamHandler(log)
    logging.getLogger().addHandler(h)
    try:
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e), warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                r = f(w)
            except Exception as x:
                r = x
    finally:
        logging.getLogger().removeHandler(h)
    return r, o.getvalue() + e.getvalue() + log.getvalue() + ' '.join(str(x.message) for x in ws)


def variants(d):
    out = []
    for testnet in (False, True):
        for private in (True, False):
            for c in (True, False):
                out.append(Spec('addr', d, private, c, testnet, 0x1234))
            for hd in HDS:
                out.append(Spec('hd', d, private, True, testnet, 0x4321, hd))
    return out


def u_ops(ctx, d, which, depth):
    fast.on()
    s = variants(d)[which]
    owner = Spec(s.kind, s.d, True, s.compressed, s.testnet, s.vcn, s.hd)
    bad = sorted({w.lower() for w in secrets(owner)})
    with F.Scratch() as path:
        table = ops(s, path)
        for seq in itertools.product(range(len(table)), repeat=depth):
            for before in ((False, True) if not s.private else (False,)):
                case = dict(wallet=s.key(), operations=[table[i][0] for i in seq], private_one_used_before=before)
                ctx.current = case
                if before:
                    o = owner.make()
                    F.view(o)
                    o.dump_to_cfg()
                w = s.make()
                for i in seq:
                    r, printed = captured(table[i][1], w)
                    shown = revealed(text(r) + ' ' + printed)
                    for b in bad:
                        if b in shown:
                            ctx.fail(case, '%s shows private key material: %s' % (table[i][0], b))
                    if table[i][0] == 'str':
                        v = s.view()[3]
                        ctx.ok((v if isinstance(v, str) else v.decode()) in r, case, 'the text %r does not show the address' % (r,))
                        other = Spec(s.kind, s.d, not s.private, s.compressed, s.testnet, s.vcn, s.hd)
                        ctx.ok(str(other.make()) != r, case, 'the text %r does not tell whether the private key is known' % (r,))
                    if table[i][0] in ('prvkey', 'privKey', 'priv key'):
                        ctx.eq(r, None, case, table[i][0])
                    if table[i][0] == 'private extended' or (table[i][0] == 'sign' and not s.private):
                        ctx.ok(isinstance(r, Exception), case, '%s of a public wallet' % table[i][0])
                    ctx.trans()
                ctx.trace()
        ctx.state((d, which, depth))
    # the detector works: where the key is asked for, it is found
    if s.private:
        w = s.make()
        for f in ([lambda: w.privKey, lambda: w.dump_to_cfg()] if s.kind == 'addr' else [lambda: w.prvkey(), lambda: w.to_extended_key(True), lambda: w.dump_to_cfg()]):
            t = text(f()).lower()
            ctx.ok(any(b in t for b in bad), case, 'the key is not where it is asked for')
    ctx.sample(case)


def u_make(ctx, d):
    """Malformed private keys are refused without being shown."""
    fast.on()
    s = Spec('addr', d, True, True, False, 1)
    hd = Spec('hd', d, True, True, False, 1, HDS[1])
    bad = sorted({w.lower() for x in (s, hd) for w in secrets(x)})
    for c in (True, False):
        good = wal.wif(d, c)
        for t in [good[:i] + (b'2' if good[i:i + 1] != b'2' else b'3') + good[i + 1:] for i in range(len(good))] + [good[:i] for i in range(1, len(good))] + [good + b'1', good.lower(), b'0' + good[1:], good.decode(), R.encode_check(b'\x81' + wal.b32(d)), wal.b32(d), wal.b32(d).hex().encode()]:
            ctx.current = t
            r, printed = captured(lambda w: W.Address(privKey=t, vcn=1), None)
            shown = revealed(text(r) + ' ' + printed)
            for b in bad:
                if b in shown:
                    ctx.fail(dict(private_key=t), 'a refused private key is shown: %s' % b)
            ctx.trans()
            ctx.state(t)
        ctx.trace()
    # given together with something that does not fit, as a number, as another text
    for kw in [dict(privKey=wal.wif(d, c), **k) for c in (True, False) for k in (dict(pubKey=wal.comp(wal.pub(d))), dict(pubKey=wal.full(wal.pub(d))), dict(pubKey=wal.comp(wal.pub(5))), dict(pubKey=b''), dict(pubKey=b'x'), dict(vcn=255), dict(vcn=-1), dict(vcn='1'))] + \
              [dict(privKey=d), dict(privKey=str(d)), dict(privKey='%x' % d), dict(privKey=[wal.wif(d, True)]), dict(privKey=(wal.b32(d),)), dict(privKey=bytearray(wal.wif(d, True))), dict(privKey=wal.wif(d, True).hex())]:
        kw.setdefault('vcn', 1)
        ctx.current = case = dict(arguments=sorted((k, repr(v)) for k, v in kw.items()))
        r, printed = captured(lambda w: W.Address(**kw), None)
        shown = revealed(text(r) + ' ' + printed)
        for b in bad + [wal.wif(d, True).hex()]:
            if b in shown:
                ctx.fail(case, 'a refused private key is shown: %s' % b)
        ctx.trans()
        ctx.state(repr(sorted(kw)) + repr(list(kw.values())))
    x = hd.node().ext(True)
    for t in [x[:i] + (b'2' if x[i:i + 1] != b'2' else b'3') + x[i + 1:] for i in range(len(x))] + [x[:i] for i in range(1, len(x))] + [x + b'1']:
        ctx.current = t
        r, printed = captured(lambda w: W.HDWallet.from_extended_key(t, vcn=1), None)
        shown = revealed(text(r) + ' ' + printed)
        for b in bad:
            if b in shown:
                ctx.fail(dict(extended_key=t), 'a refused private key is shown: %s' % b)
        ctx.trans()
        ctx.state(t)
    ctx.trace()


def u_split(ctx, d):
    """Errors of splitting and combining show nothing of the keys except what is written in the refused part itself."""
    from nbc.util import piecewise as PW, key as K
    from .. import entropy
    fast.on()
    words = lambda x: {w.lower() for c in (True, False) for w in secrets(Spec('addr', x, True, c, False, 1))}
    ds = [d] + [k for k in KEYS if k != d][:2]
    entropy.stream('c39 %x' % d)
    sets = PW.partial_split_private_key(wal.wif(d, False), 2, 3)
    parts = PW.split_private_key(wal.wif(d, False), 3)
    entropy.free()
    flat = [p for g in sets for p in sorted(g)]
    bads = [b'', b'5', b'abc', wal.wif(7, True)[:-1], b'6C' + b'1' * 60, b'\xff' * 51, None, 5, wal.wif(7, False) + b'1', R.encode_check(b'\x10\x02' + bytes(39)), R.encode_check(b'\x81' + bytes(32))]
    jobs = []
    for bad in bads:
        for pos in range(3):
            keys = [wal.wif(x, True) for x in ds]
            ps, fs = list(parts), list(flat)
            for l in (keys, ps, fs):
                l.insert(pos, bad)
            jobs += [('combine', bad, lambda w, l=keys: PW.combine_private_keys(l)), ('combine parts', bad, lambda w, l=ps: PW.combine_private_keys(l)), ('combine sets', bad, lambda w, l=fs: PW.partial_combine_private_keys(l)),
                     ('combine sets, errors ignored', bad, lambda w, l=fs[:3]: str(PW.partial_combine_private_keys(l, ignore_errors=True) or ''))]
        jobs.append(('address', bad, lambda w, bad=bad: PW.get_address(bad, wal.wif(d, True))))
    for args in ((4, 3), (0, 3), (-1, 3), (3, 300), ('x', 3), (2, None)):
        jobs.append(('split in sets', args, lambda w, args=args: str(PW.partial_split_private_key(wal.wif(d, False), *args) and '')))
    for n in (0, -1, 'x', None):
        jobs.append(('split', n, lambda w, n=n: str(PW.split_private_key(wal.wif(d, False), n) and '')))
    neg = [wal.wif(d, False), wal.wif(N - d, True)]
    jobs += [('combine to zero', 0, lambda w: str(PW.combine_private_keys(neg) and ''))]
    entropy.stream('c39 other %x' % d)
    other = [p for g in PW.partial_split_private_key(wal.wif(KEYS[0] if d != KEYS[0] else KEYS[1], False), 3, 4) for p in g]
    entropy.free()
    jobs.append(('combine sets of two splits', b' '.join(other), lambda w: str(PW.partial_combine_private_keys(flat[:2] + sorted(other)) and '')))
    hidden = set().union(*map(words, ds + [N - d]))
    for p in flat + other + parts:
        raw = R.decode_check(p)
        body = raw[8:] if len(raw) > 34 else raw[1:33]
        h = body.hex()
        hidden |= {h[i:i + 12] for i in range(len(h) - 11)} | {p.decode()[i:i + 9].lower() for i in range(12, len(p) - 8)}
    for name, what, f in jobs:
        ctx.current = case = dict(key=hex(d), function=name, with_=repr(what))
        r, printed = captured(f, None)
        shown = revealed((text(r) if isinstance(r, Exception) else '') + ' ' + printed)
        own = revealed(text(what))
        for b in hidden:
            if b in shown and b not in own:
                ctx.fail(case, 'shows material of a key: %s in %s' % (b, shown[:200]))
        ctx.trans()
        ctx.state((d, name, repr(what)))
    ctx.trace()


def u_same(ctx):
    """Apart from the address, the texts of a wallet tell nothing about the key: they are the same for all keys."""
    fast.on()
    for which in range(len(variants(1))):
        shapes = {}
        for d in KEYS + [1, 2, N - 1, 0xff << 200]:
            s = variants(d)[which]
            ctx.current = case = dict(wallet=s.key())
            w = s.make()
            a = s.view()[3]
            a = a if isinstance(a, str) else a.decode()
            for how, f in (('str', str), ('format', '{0}'.format), ('log', lambda w: '%s' % w)):
                shapes.setdefault((how, f(w).replace(a, '*')), s.key())
                ctx.eval()
            ctx.state(s.key())
        ctx.eq(len(shapes), 3, dict(wallets=[repr(k) for k in shapes.values()][:4]), 'texts apart from the address: %r' % sorted(shapes)[:4])
        ctx.trace()


def units(tier):
    th = tier == 'thorough'
    yield 'same', u_same, ()
    for d in KEYS:
        for k in range(len(variants(d))):
            yield 'ops %x %d' % (d % 0xffff, k), u_ops, (d, k, 3 if th and d == KEYS[0] else 2)
        yield 'malformed %x' % (d % 0xffff), u_make, (d,)
        yield 'split %x' % (d % 0xffff), u_split, (d,)
