"""C21: wallet signatures."""
import hashlib
import itertools
import os
import tempfile

from .. import entropy   # before nbc
from nbc import wallet as W
from nbc.util import ecc
from .. import fast
from ..ref import wal, ec, derref as X

LEVEL = 'exploration'
RULE = 'every (wallet, nonce, data) signature against every (wallet form, data), every listed alteration of signature bytes and key bytes; distinct by (key bytes, data, signature bytes)'
BOUNDS = dict(quick='8 wallets x 7 data x 4 nonces, all cross pairs of one nonce; every truncation, one-byte extension and 8 changes per byte of 3 signatures; every signature string of at most 2 bytes and every DER shape over a 9-symbol alphabet up to 4 bytes; keys of every length 0..70, every prefix, boundary coordinates; signatures with r and s of every length, with the key made to fit',
              thorough='16 nonces, all 255 changes per byte, DER shapes up to 6 bytes')
ASSUMPTIONS = ['trailing bytes and non-minimal integers in a signature may be accepted or refused (documented leniency, bitcoin block 135106)',
               'large-number arithmetic is replaced by the reference (decided by C22/C23/C27) except in the units named slow']

N = wal.N
DATA = [b'', b'a', b'\x00' * 31, b'q' * 32, b'q' * 33, bytes(range(64)), b'z' * 1000, b'line\n', b'two\r\n', b' spaces ', b'\0ab\0', b'\xff' * 3, b'y' * 70000]


def dig(data):
    return hashlib.sha256(hashlib.sha256(data).digest()).digest()


def hnum(data):
    return int.from_bytes(dig(data), 'big')


def ref_verify(data, pub, sig):
    """(must be true, may be true)"""
    Q = wal.parse_pub(pub)
    if Q is None:
        return False, False
    rs = lenient(sig)
    if rs is None:
        return False, False
    key = (Q, data, rs)
    v = _memo.get(key)
    if v is None:
        v = _memo[key] = ec.verify(wal.c, wal.G, N, Q, hnum(data), *rs)
    if not v:
        return False, False
    return sig == X.sig(*rs), True


_memo = {}


def ber_len(b, i):
    if i >= len(b):
        return None
    if b[i] < 0x80:
        return b[i], i + 1
    k = b[i] & 0x7f
    if k == 0 or i + 1 + k > len(b):
        return None
    return int.from_bytes(b[i + 1:i + 1 + k], 'big'), i + 1 + k


def lenient(sig):
    """(r, s) of any BER-like encoding, or None."""
    if not sig or sig[0] != 0x30:
        return None
    r = ber_len(sig, 1)
    if r is None or r[1] + r[0] > len(sig):
        return None
    body = sig[r[1]:r[1] + r[0]]
    out = []
    i = 0
    for _ in range(2):
        if i >= len(body) or body[i] != 2:
            return None
        r = ber_len(body, i + 1)
        if r is None or r[0] == 0 or r[1] + r[0] > len(body):
            return None
        out.append(int.from_bytes(body[r[1]:r[1] + r[0]], 'big'))
        i = r[1] + r[0]
    return tuple(out)


def hd(d, testnet=False, **kw):
    return W.HDWallet(d, b'\x11' * 32, vcn=5, testnet=testnet, **kw)


_cache = {}


def wallets():
    """[(name, private wallet, d, [public-only and copied forms])]"""
    if 'w' in _cache:
        return _cache['w']
    out = []

    def reload(w):
        fd, path = tempfile.mkstemp(dir=_cache['dir'])
        os.close(fd)
        W.saveTo(path, w)
        return W.loadFrom(path)
    with tempfile.TemporaryDirectory() as tmp:
        _cache['dir'] = tmp
        for name, d, compressed, testnet in (('addr c', 0x1234567 << 200 | 99, True, False), ('addr u', N - 2, False, False), ('addr test', 2, True, True), ('addr small', 1, False, True), ('addr lz', 0xabcdef << 180, True, False)):
            w = W.Address(privKey=wal.wif(d, compressed), vcn=7, testnet=testnet)
            forms = [W.Address(pubKey=wal.full(wal.pub(d)), vcn=1), W.Address(pubKey=wal.comp(wal.pub(d)), vcn=1, testnet=True),
                     w.compress(), w.decompress(), reload(w), reload(W.Address(pubKey=w.publicKey(), vcn=9))]
            out.append((name, w, d, forms))
        m = W.HDWallet.from_master_seed(b'c21', vcn=3)
        for name, w in (('hd master', m), ('hd child', m.child(0).child(0x80000001)), ('hd ext', W.HDWallet.from_extended_key(m.child(7).to_extended_key(True)))):
            d = int.from_bytes(w.prvkey(), 'big')
            forms = [reload(w), W.HDWallet.from_extended_key(w.to_extended_key()), reload(W.HDWallet.from_extended_key(w.to_extended_key()))]
            if name == 'hd ext':
                forms.append(W.HDWallet.from_extended_key(m.to_extended_key()).child(7))
            out.append((name, w, d, forms))
    _cache['w'] = out
    return out


def nonces(d, h, how):
    """Nonces that make r or s long, short or high."""
    out = {}
    R = None
    for k in range(1, 1200):
        R = wal.c.add(R, wal.G)
        rs = (R[0] % N, pow(k, -1, N) * (h + d * R[0]) % N)
        kinds = ['%s %d %d' % (what, min(2, 32 - (v.bit_length() + 7) // 8), v.bit_length() % 8 == 0) for what, v in zip('rs', rs)]
        for kk in kinds + [' '.join(kinds)]:
            out.setdefault(kk, k)
    picks = []
    for k in sorted(out):
        if out[k] not in picks:
            picks.append(out[k])
    base = [N - 1, N // 2]
    return (picks + base)[:how] if how < len(picks) else picks + base


def signed(ctx, w, d, data, k, strict=False):
    """Signs with nonce k offered by the system source; the signature must be a DER one, valid for this key and data."""
    entropy.script((k - 1).to_bytes(32, 'big'), (k).to_bytes(32, 'big'), tag='c21')
    case = dict(key=hex(d), data=data, nonce=k)
    ctx.current = case
    sig = w.sign(data)
    entropy.free()
    rs = X.parse_sig(sig) if isinstance(sig, bytes) else None
    ctx.ok(rs is not None and X.sig(*rs) == sig, case, 'not a DER signature: %r' % (sig,))
    ctx.ok(ec.verify(wal.c, wal.G, N, wal.pub(d), hnum(data), *rs), case, 'the signature is not valid for the key and data')
    ctx.count('signatures')
    return sig


def chk(ctx, f, data, pub, sig, case):
    must, may = ref_verify(data, pub, sig)
    ctx.current = case
    v = f()
    ctx.eval()
    if not ctx.state((pub, data, sig)):
        return
    if v is not True and v is not False and v not in (0, 1):
        ctx.fail(case, 'verify gave %r' % (v,))
    if must and not v:
        ctx.fail(case, 'a valid signature is refused')
    if v and not may:
        ctx.fail(case, 'an invalid signature is accepted')
    ctx.outcome('accepted' if v else 'refused')


def u_sign(ctx, i, count):
    fast.on()
    name, w, d, forms = wallets()[i]
    pub = wal.full(wal.pub(d))
    for data in DATA:
        for k in nonces(d, hnum(data), count):
            sig = signed(ctx, w, d, data, k)
            r, s = X.parse_sig(sig)
            for j, f in enumerate([w] + forms):
                if count > 4 or k == 1 or j == 0:
                    case = dict(wallet=name, form=j, data=data, nonce=k)
                    ctx.current = case
                    ctx.ok(f.verify(data, sig) is True, case, 'own signature refused')
                    ctx.eval()
            alt = [(r ^ 1, s), (r, s ^ 1), (s, r), (r + N, s), (r, s + N), (N - r, s), (0, s), (r, 0), (r, N), (N, s), (r + 1, s), (r, s - 1)]
            for a, b in alt if k < 50 else alt[:3]:
                chk(ctx, lambda: w.verify(data, X.sig(a, b)), data, pub, X.sig(a, b), dict(wallet=name, data=data, nonce=k, altered=(hex(a), hex(b))))
            others = [data + b'\0', b'\0' + data, data[:-1] if data else b'x', data[1:] if data else b'yy', dig(data)]
            for o in others if k < 50 else others[:1]:
                chk(ctx, lambda: w.verify(o, sig), o, pub, sig, dict(wallet=name, data=o, signed=data, nonce=k))
    ctx.sample(dict(wallet=name, signature=sig))


def u_cross(ctx, i):
    """Signatures of every wallet for every data against this wallet, in one process."""
    fast.on()
    ws = wallets()
    sigs = [(n, w, d, data, signed(ctx, w, d, data, 3 + j)) for j, data in enumerate(DATA[:5]) for n, w, d, _ in ws]
    name, w, d, forms = ws[i]
    pub = wal.full(wal.pub(d))
    for n2, _, d2, data, sig in sigs:
        for data2 in DATA[:5]:
            chk(ctx, lambda: w.verify(data2, sig), data2, pub, sig, dict(verifier=name, signer=n2, signed=data, data=data2))


def u_bits(ctx, d, data, k, lo, hi, all_values):
    fast.on()
    pub = wal.comp(wal.pub(d))
    w = W.Address(pubKey=pub, vcn=0)
    sig = signed(ctx, W.Address(privKey=wal.wif(d, True), vcn=0), d, data, k)
    for i in range(lo, min(hi, len(sig))):
        for x in range(1, 256) if all_values else [1, 2, 4, 8, 16, 32, 64, 128]:
            m = sig[:i] + bytes([sig[i] ^ x]) + sig[i + 1:]
            chk(ctx, lambda: w.verify(data, m), data, pub, m, dict(d=d, data=data, at=i, xor=x, sig=m))
    if lo == 0:
        for i in range(len(sig)):
            for m in (sig[:i], sig[i:], sig[:i] + sig[i + 1:], sig[:i] + b'\0' + sig[i:]):
                chk(ctx, lambda: w.verify(data, m), data, pub, m, dict(d=d, data=data, cut=i, sig=m))
        body = sig[2:]
        for i in range(len(body)):
            for x in (b'\0', b'\x02', b'\0\0', b'\x05\0', b'\x02\1\1', b'\x81'):     # within the sequence, whose length is adjusted
                m = b'\x30' + bytes([len(body + x)]) + body[:i] + x + body[i:]
                chk(ctx, lambda: w.verify(data, m), data, pub, m, dict(d=d, data=data, inserted=(i, x), sig=m))
        for e in (b'\0', b'\xff', b'\x00\x00', b'junk', sig):
            chk(ctx, lambda: w.verify(data, sig + e), data, pub, sig + e, dict(sig=sig + e))


SYM = [0x00, 0x01, 0x02, 0x03, 0x30, 0x7f, 0x80, 0x81, 0xff]


def u_short(ctx, first, depth):
    fast.on()
    pub = wal.comp(wal.pub(5))
    w = W.Address(pubKey=pub, vcn=0)
    h = W.HDWallet(wal_point(5), b'\0' * 32, vcn=0)
    todo = [b''] if first == 0 else []
    for a in range(first, first + 32):
        todo.append(bytes([a]))
        todo += [bytes([a, b]) for b in range(256)]
    for b in range(256):
        if first == 0:
            todo.append(bytes([0x30, b, 2, 1, 1, 2, 1, 1]))
            todo.append(bytes([0x30, 6, 2, b, 1, 2, 1, 1]))
            todo.append(bytes([0x30, 6, 2, 1, 1, 2, b, 1]))
            todo.append(bytes([0x30, 6, 2, 1, b, 2, 1, 1]))
    for i, m in enumerate(todo):
        chk(ctx, lambda: w.verify(b'x', m), b'x', pub, m, dict(sig=m))
        if i % 16 == 0:
            ctx.ok(h.verify(b'x', m) is False, dict(sig=m, wallet='hd'), 'accepted')


def u_shapes(ctx, head, depth):
    fast.on()
    pub = wal.comp(wal.pub(5))
    w = W.Address(pubKey=pub, vcn=0)
    for n in range(1, depth):
        for t in itertools.product(SYM, repeat=n):
            m = bytes((head,) + t)
            chk(ctx, lambda: w.verify(b'x', m), b'x', pub, m, dict(sig=m))
            m2 = b'\x30' + bytes([len(m)]) + m
            chk(ctx, lambda: w.verify(b'x', m2), b'x', pub, m2, dict(sig=m2))


def wal_point(d):
    from nbc.util.ecdsa import ellipticcurve as E
    from nbc.util.ecdsa import SECP256k1
    Q = wal.pub(d)
    return E.Point(SECP256k1.curve, Q[0], Q[1])


def u_keys(ctx, lo, hi):
    fast.on()
    d = 77
    Q = wal.pub(d)
    data = b'data'
    sig = signed(ctx, W.Address(privKey=wal.wif(d, True), vcn=0), d, data, 9)
    full, comp = wal.full(Q), wal.comp(Q)
    keys = []
    for l in range(0, 71):
        for base in (full, comp, full + comp):
            keys.append((base + b'\0' * 71)[:l])
            keys.append(base[:l])
            keys.append(base[-l:] if l else b'')
    for pre in list(range(0, 9)) + [0x30, 0x80, 0xff]:
        keys += [bytes([pre]) + full[1:], bytes([pre]) + comp[1:], bytes([pre]), bytes([pre]) + bytes(32), bytes([pre]) + bytes(64)]
    xs = [0, 1, 2, 3, 4, 5, 6, 7, wal.P - 1, wal.P, wal.P + 1, wal.P + 2, wal.P + 3, N, N - 1, N + 1, 2 ** 256 - 1, Q[0], Q[0] ^ 1, Q[0] + 1]
    for x in xs:
        for pre in (2, 3):
            keys.append(bytes([pre]) + wal.b32(x))
        for y in (0, 1, Q[1], wal.P - Q[1], wal.P, wal.P - 1, 2 ** 256 - 1):
            keys.append(b'\x04' + wal.b32(x) + wal.b32(y))
        y = ec.sqrt_p3(x ** 3 + 7, wal.P)
        if y is not None:
            for yy in (y, wal.P - y, y + wal.P):
                if yy < 1 << 256:
                    keys.append(b'\x04' + wal.b32(x) + wal.b32(yy))
    for i in range(65):
        for b in (1, 0x80):
            keys.append(full[:i] + bytes([full[i] ^ b]) + full[i + 1:])
    for i in range(33):
        for b in (1, 0x80):
            keys.append(comp[:i] + bytes([comp[i] ^ b]) + comp[i + 1:])
    keys = sorted(set(keys))[lo::hi]
    for k in keys:
        for m in (sig, b'', b'\x30', sig[:-1]):
            chk(ctx, lambda: ecc.verify(data, k, m), data, k, m, dict(key=k, sig=m))


def sizes():
    """Numbers whose DER encodings have every length, with and without a leading zero byte."""
    out = set()
    for j in range(32):
        for v in (1 << 8 * j, (1 << 8 * j) + 1, 0x7f << 8 * j, 0x80 << 8 * j, 0xff << 8 * j, (1 << 8 * j + 8) - 1, (1 << 8 * j + 7) - 1):
            if 0 < v < N:
                out.add(v)
    return sorted(out | {N - 1, N // 2, N // 2 + 1})


def u_sizes(ctx, part, parts):
    """Signatures made first, with r and s of every size, and then the key that they are valid for."""
    fast.on()
    smalls = []
    for x in list(range(1, 60)) + [v for v in sizes() if v < wal.P]:
        y = ec.sqrt_p3(x ** 3 + 7, wal.P)
        if y is not None and x < N:
            smalls.append((x, y))
    some = [1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 1 << 128, (1 << 247) + 5, N // 2, N - 1]
    jobs = [(R, s) for R in smalls[:4] for s in sizes()] + [(R, s) for R in smalls[4:] for s in some[::3]]
    for i, (R, s) in enumerate(jobs):
        if i % parts != part:
            continue
        data = DATA[i % 7]
        r = R[0]
        inv = pow(r, -1, N)
        Q = wal.c.add(wal.c.mul(s * inv % N, R), wal.c.mul(-hnum(data) * inv % N, wal.G))
        if Q is None:
            continue
        sig = X.sig(r, s)
        key = (wal.full if i & 1 else wal.comp)(Q)
        case = dict(key=key, data=data, r=hex(r), s=hex(s))
        ctx.current = case
        ctx.ok(ecc.verify(data, key, sig) is True, case, 'a valid signature is refused')
        ctx.eval(2)
        ctx.distinct()
        ctx.ok(W.Address(pubKey=key, vcn=0).verify(data, sig) is True, case, 'a valid signature is refused by the wallet')
        if i % 4 == 0:
            for a, b in ((r, s % (N - 1) + 1), (r + 1, s), (s, r) if r != s else (r + 2, s)):
                m = X.sig(a, b)
                chk(ctx, lambda: ecc.verify(data, key, m), data, key, m, dict(case, altered=(hex(a), hex(b))))


def u_slow(ctx, i):
    """The code's own arithmetic."""
    fast.off()
    name, w, d, forms = wallets()[i]
    pub = wal.full(wal.pub(d))
    data = DATA[i % len(DATA)]
    for k in (1, 0x1234567 << 200, N - 1):
        sig = signed(ctx, w, d, data, k)
        r, s = X.parse_sig(sig)
        for f in [w] + forms[:2]:
            ctx.ok(f.verify(data, sig) is True, dict(wallet=name, nonce=k), 'own signature refused')
            ctx.eval()
        for m in (X.sig(r ^ 1, s), X.sig(r, s ^ 1), X.sig(r, N - s), X.sig(r + N, s)):
            chk(ctx, lambda: w.verify(data, m), data, pub, m, dict(wallet=name, sig=m))
        chk(ctx, lambda: w.verify(data + b'x', sig), data + b'x', pub, sig, dict(wallet=name))


def u_fresh(ctx):
    """Nonces come from the system source: different outcomes give different signatures, never one nonce for all."""
    fast.on()
    w = wallets()[0][1]
    seen = set()
    for i in range(60):
        entropy.stream('fresh %d' % i)
        sig = w.sign(b'same data')
        r = X.parse_sig(sig)[0]
        ctx.ok(entropy.source[0].calls > 0, i, 'the nonce does not use the system source')
        ctx.ok(r not in seen, i, 'nonce used again')
        seen.add(r)
        ctx.eval()
        ctx.distinct()


def units(tier):
    th = tier == 'thorough'
    for i in range(8):
        yield 'sign %d' % i, u_sign, (i, 16 if th else 4)
        yield 'cross %d' % i, u_cross, (i,)
        yield 'slow %d' % i, u_slow, (i,)
    yield 'fresh', u_fresh, ()
    for i in range(8):
        yield 'sizes %d' % i, u_sizes, (i, 8)
    for d, data, k in ((3, b'alpha', 3), (N - 5, b'beta', 2 ** 255), (1 << 128, b'', 77)):
        for lo in range(0, 72, 6):
            yield 'bits %d %d' % (k % 1000, lo), u_bits, (d, data, k, lo, lo + 6, th)
    for a in range(0, 256, 32):
        yield 'short %d' % a, u_short, (a, 0)
    for s in SYM:
        yield 'shapes %d' % s, u_shapes, (s, 6 if th else 5)
    for i in range(12):
        yield 'keys %d' % i, u_keys, (i, 12)
