"""C19: addresses, WIF, key compression."""
import itertools

from .. import entropy
from nbc import wallet as W
from nbc.util import key as K, base58 as B
from .. import fast
from ..ref import wal, ec, base58 as R
from .c17 import special

LEVEL = 'exploration'
RULE = 'every listed key x form x network x version number, every edit of WIF texts, every listed key encoding; distinct by (function, input)'
BOUNDS = dict(quick='all 65536 version numbers for 2 keys (function, ordinary and HD wallet), 20 boundary version numbers for 150 keys x 2 forms x 2 networks; switch sequences up to length 4; every one-character change, deletion, insertion and swap of 6 WIF texts, WIF payloads of length 0..40 with every prefix and final byte, and of length 0..45 under all 256 network bytes read with the right and wrong network byte; public keys of every length 0..70, every prefix, every byte flipped, boundary coordinates, points with coordinates beyond the order',
              thorough='all 65536 version numbers for 12 keys, 900 keys, 24 WIF texts')
ASSUMPTIONS = ['WIF texts of other network bytes than 0x80 may be refused (the leading character is checked); those accepted must be right', 'version numbers outside 0..65535 are reduced by the wallet and not claimed',
               'large-number arithmetic is replaced by the reference (decided by C22/C23/C27) except in the units named slow']

N, P = wal.N, wal.P


def keys(th):
    out = set(range(1, 40)) | {N - i for i in range(1, 12)}
    for k in range(0, 256, 1 if th else 4):
        out |= {1 << k, (1 << k) - 1, (1 << k) + 1, 0x0101010101 << k}
    out |= {int.from_bytes(bytes([i]) * 32, 'big') for i in (0x01, 0x80, 0x7f)} | {1 | 0xabcd << 240, 0x80 << 248 | 1, 0x01 << 248}
    return sorted(k for k in out if 0 < k < N)


VCN = [0, 1, 9, 10, 15, 16, 0xff, 0x100, 0xfff, 0x1000, 0x7fff, 0x8000, 0x8001, 0xabc, 0xabcd, 0xfffe, 0xffff, 0xf000, 0x00f0, 1234]


def look(ctx, w, d, compressed, testnet, vcn, private, case):
    ctx.current = case
    Q = wal.pub(d)
    pk = wal.comp(Q) if compressed else wal.full(Q)
    ctx.eq(w.address, wal.address(pk, vcn, testnet), case, 'address')
    ctx.eq(w.vcn, vcn, case, 'version number')
    ctx.eq(bool(w.testnet), testnet, case, 'network')
    ctx.eq(bool(w.compressed), compressed, case, 'compression')
    ctx.eq(w.publicKey(), pk, case, 'public key')
    ctx.eq(w.pubKey, wal.full(Q), case, 'full public key')
    ctx.eq(w.privKey, wal.wif(d, compressed) if private else None, case, 'private key')
    ctx.eval()


def u_keys(ctx, ds, slow=False):
    fast.off() if slow else fast.on()
    seen = {}
    for d in ds:
        Q = wal.pub(d)
        full, comp = wal.full(Q), wal.comp(Q)
        ctx.current = d
        ctx.eq(K.compress_public_key(full), comp, d, 'compressed key')
        ctx.eq(K.decompress_public_key(comp), full, d, 'decompressed key')
        ctx.eq(K.decompress_public_key(full), full, d, 'decompressed uncompressed key')
        Qn = (Q[0], P - Q[1])
        ctx.eq(K.compress_public_key(wal.full(Qn)), wal.comp(Qn), d, 'compressed key (negated)')
        ctx.eq(K.decompress_public_key(wal.comp(Qn)), wal.full(Qn), d, 'decompressed key (negated)')
        for c in (False, True):
            t = wal.wif(d, c)
            ctx.eq(K.privkey_to_wif(wal.b32(d) + (b'\x01' if c else b'')), t, (d, c), 'WIF')
            ctx.eq(K.privkey_from_wif(t), wal.b32(d), (d, c), 'key of the WIF')
        for i, (private, c, testnet) in enumerate(itertools.product((True, False), repeat=3)):
            for vcn in ([VCN[(d + i) % len(VCN)], VCN[(d * 7 + i + 3) % len(VCN)]] if len(ds) < 1000 else VCN):
                case = dict(key=hex(d), private=private, compressed=c, testnet=testnet, vcn=vcn)
                ctx.current = case
                kw = dict(privKey=wal.wif(d, c)) if private else dict(pubKey=comp if c else full)
                w = W.Address(vcn=vcn, testnet=testnet, **kw)
                look(ctx, w, d, c, testnet, vcn, private, case)
                ctx.state(('w', d, private, c, testnet, vcn))
                a = (w.address)
                ident = (d, c, testnet, vcn)
                ctx.ok(seen.setdefault(a, ident) == ident, case, 'two wallets have one address')
                s = w
                n = 2 if slow else 4
                for ops in ('cdcd'[:n], 'dcdc'[:n], 'cc', 'dd'):
                    s, cc = w, c
                    for op in ops:
                        s = s.compress() if op == 'c' else s.decompress()
                        cc = op == 'c'
                        look(ctx, s, d, cc, testnet, vcn, private, dict(case, ops=ops, at=op))
                look(ctx, w, d, c, testnet, vcn, private, dict(case, after='switching'))
    ctx.sample(dict(keys=[hex(d) for d in ds[:2]]))


def u_vcn(ctx, d, lo, hi):
    fast.on()
    Q = wal.pub(d)
    full, comp = wal.full(Q), wal.comp(Q)
    h = W.HDWallet(d, b'\7' * 32, vcn=0)
    ht = W.HDWallet(d, b'\7' * 32, vcn=0, testnet=True)
    for vcn in range(lo, hi):
        case = dict(key=hex(d), vcn=vcn)
        ctx.current = case
        wc, wt = wal.address(comp, vcn, False), wal.address(comp, vcn, True)
        ctx.eq(K.publickey_to_address(comp, vcn), wc, case, 'address')
        ctx.eq(K.publickey_to_address(full, vcn, b'\x6f'), wal.address(full, vcn, True), case, 'address')
        if vcn % 5 == d % 5:
            ctx.eq(W.Address(pubKey=comp, vcn=vcn, testnet=True).address, wt, case, 'wallet address')
            ctx.eq(W.Address(pubKey=comp, vcn=vcn).vcn, vcn, case, 'version number')
            m = W.HDWallet(d, b'\7' * 32, vcn=vcn)
            ctx.eq((m.vcn, m.address()), (vcn, wc), case, 'HD wallet')
        h.vcn = ht.vcn = vcn
        ctx.eq(h.address(), wc, case, 'HD address')
        ctx.eq(ht.address(), wt, case, 'HD test address')
        ctx.eq(ht.address(b'\x05'), R.encode_check(b'\x05' + ('%04x' % vcn).encode() + wal.pubhash(comp)), case, 'HD address with a network byte')
        ctx.eval(5)
        ctx.distinct(5)
    ctx.sample(case)


def u_wif(ctx, d, c):
    fast.on()
    t = wal.wif(d, c)
    A = R.ALPHABET.encode() + b'0OIl \x00\n\xff'
    texts = set()
    for i in range(len(t) + 1):
        for a in A:
            texts.add(t[:i] + bytes([a]) + t[i + 1:])
            texts.add(t[:i] + bytes([a]) + t[i:])
        texts.add(t[:i])
        texts.add(t[i:])
        texts.add(t[:i] + t[i + 1:])
        texts.add(t[:i] + t[i + 1:i + 2] + t[i:i + 1] + t[i + 2:])
    wifs(ctx, texts)


def u_payload(ctx, part):
    fast.on()
    k = bytes(range(1, 33))
    texts = set()
    for l in range(0, 41):
        for pre in (0x80, 0x00, 0x7f, 0x81, 0xef):
            body = (k + b'\1' * 20)[:l]
            texts.add(R.encode_check(bytes([pre]) + body))
            texts.add(R.encode_check(body))
    for x in range(256):
        texts.add(R.encode_check(b'\x80' + k + bytes([x])))
        texts.add(R.encode_check(bytes([x]) + k + b'\1'))
        texts.add(R.encode_check(bytes([x]) + k))
        texts.add(R.encode_check(b'\x80' + k[:-1] + bytes([x])))
        texts.add(R.encode_check(b'\x80' + k + b'\1' + bytes([x])))
        texts.add(R.encode_check(b'\x80' + k + bytes([x]) + b'\1'))
    for v in (0, 1, N - 1, N, N + 1, 2 ** 256 - 1, P, 2 ** 255):
        texts |= {wal.wif(v, True), wal.wif(v, False)}
    texts |= {wal.wif(5, True) + x for x in (b' ', b'\n', b'1')} | {b'1' + wal.wif(5, False), b' ' + wal.wif(5, False), b'5', b'K', b'L', b'55555', b'1'}
    wifs(ctx, texts)
    # other network bytes: whatever is read back is the 32-byte key that the text holds, under that byte only
    for x in range(256):
        pre = bytes([x])
        for l in range(0, 46):
            for last in (b'\1', b'\0', k[-1:]):
                body = ((k + b'\1' * 20)[:l])[:-1] + last if l else b''
                t = R.encode_check(pre + body)
                ctx.current = (x, l, t)
                ctx.eval()
                good = l == 32 or l == 33 and last == b'\1'
                for p, right in ((pre, True), (bytes([x ^ 1]), False), (bytes([x ^ 0x80]), False)):
                    try:
                        got = K.privkey_from_wif(t, p)
                    except Exception:
                        ctx.ok(not (good and right and x == 0x80), (t, p), 'a WIF text was refused')
                        continue
                    ctx.ok(good and right, (t, p), 'a malformed WIF text was accepted as %r' % (got,))
                    ctx.eq(got, body[:32], (t, p), 'key of a WIF text with another network byte')


def wifs(ctx, texts):
    for t in sorted(texts):
        ctx.current = t
        want = wal.unwif(t)
        ctx.eval()
        if not ctx.state(('wif', t)):
            continue
        if want is None:
            ctx.raises(lambda: K.privkey_from_wif(t), t, 'malformed WIF')
            if t:
                ctx.raises(lambda: W.Address(privKey=t, vcn=0), t, 'wallet of a malformed WIF')
            ctx.outcome('refused')
            continue
        d, c = want
        if not 0 < d < N:
            ctx.raises(lambda: W.Address(privKey=t, vcn=0), t, 'wallet of a key out of range')
            ctx.outcome('out of range')
            continue
        ctx.eq(K.privkey_from_wif(t), wal.b32(d), t, 'key')
        look(ctx, W.Address(privKey=t, vcn=3), d, c, False, 3, True, t)
        ctx.outcome('accepted')


def high(n):
    """x of the first points with y between the order and the modulus (P is 7 modulo 9: the cube root is a power)."""
    out = []
    for y in itertools.chain(range(N, N + 40), range(P - 40, P)):
        a = (y * y - 7) % P
        x = pow(a, (P + 2) // 9, P)
        if pow(x, 3, P) == a:
            out.append(x)
    return out[:n] + out[-n:]


def u_pub(ctx, d):
    fast.on()
    Q = wal.pub(d)
    full, comp = wal.full(Q), wal.comp(Q)
    ks = set()
    for l in range(0, 71):
        for base in (full, comp):
            ks |= {(base + b'\0' * 71)[:l], base[-l:] if l else b''}
    # numbers written longer or shorter than they are
    x, y = full[1:33], full[33:]
    for z in range(1, 34):
        o = bytes(z)
        ks |= {comp[:1] + o + x, comp[:1] + x + o, b'\4' + o + x + y, b'\4' + x + o + y, b'\4' + x + y + o, o + comp, o + full}
    ks |= {comp[:1] + x.lstrip(b'\0'), b'\4' + x.lstrip(b'\0') + y, b'\4' + x + y.lstrip(b'\0')}
    for pre in range(256):
        ks |= {bytes([pre]) + full[1:], bytes([pre]) + comp[1:], bytes([pre])}
    for i in range(65):
        for b in range(8):
            ks.add(full[:i] + bytes([full[i] ^ 1 << b]) + full[i + 1:])
    for i in range(33):
        for b in range(8):
            ks.add(comp[:i] + bytes([comp[i] ^ 1 << b]) + comp[i + 1:])
    assert len(high(4)) == 8
    xs = list(range(0, 60)) + high(4) + [ec_x for ec_x in range(N, N + 30)] + [P - 1, P, P + 1, P + 2, P + 3, N, N - 1, 2 ** 256 - 1, Q[0]]
    for x in xs:
        ks |= {b'\2' + wal.b32(x), b'\3' + wal.b32(x)}
        y = ec.sqrt_p3(x ** 3 + 7, P)
        for yy in [0, 1, P, P - 1, Q[1]] + ([y, P - y, y + 1, y + P] if y is not None else []):
            if yy < 1 << 256:
                ks.add(b'\4' + wal.b32(x) + wal.b32(yy))
    for k in sorted(ks):
        ctx.current = k
        ctx.eval()
        if not ctx.state(('pub', k)):
            continue
        want = wal.parse_pub(k)
        if want is None:
            ctx.raises(lambda: K.decompress_public_key(k), k, 'malformed public key')
            ctx.raises(lambda: W.Address(pubKey=k, vcn=0), k, 'wallet of a malformed public key')
            ctx.outcome('refused')
        else:
            ctx.eq(K.decompress_public_key(k), wal.full(want), k, 'decompressed key')
            w = W.Address(pubKey=k, vcn=2)
            ctx.eq((w.pubKey, w.compressed, w.address), (wal.full(want), len(k) == 33, wal.address(k, 2, False)), k, 'wallet')
            ctx.outcome('accepted')
        if len(k) == 65 and k[0] == 4:
            if want is not None:
                ctx.eq(K.compress_public_key(k), wal.comp(want), k, 'compressed key')
        elif k:
            ctx.raises(lambda: K.compress_public_key(k), k, 'compressing a malformed key')
    ctx.raises(lambda: W.Address(pubKey=full, privKey=wal.wif(d, True), vcn=0), 'both', 'both keys given')
    ctx.raises(lambda: W.Address(vcn=0), 'none', 'no key given')


def u_random(ctx):
    """Generated wallets: key from the system source, version number in range, forms as asked."""
    fast.on()
    import random
    for i in range(60):
        entropy.stream('c19-%d' % i)
        random.seed(i)
        for c, testnet, vcn in itertools.product((True, False), (True, False), (None, 0, 0xffff)):
            w = W.Address.generate(vcn=vcn, testnet=testnet, compressed=c)
            case = dict(i=i, compressed=c, testnet=testnet, vcn=vcn)
            ctx.current = case
            got = wal.unwif(w.privKey)
            ctx.ok(got is not None and got[1] == c and 0 < got[0] < N, case, 'generated key')
            ctx.ok(0 <= w.vcn <= 0xffff and (vcn is None or w.vcn == vcn), case, 'version number %r' % (w.vcn,))
            look(ctx, w, got[0], c, testnet, w.vcn, True, case)
            ctx.ok(ctx.state(('gen', got[0])), case, 'generated twice')


def units(tier):
    th = tier == 'thorough'
    ks = keys(th)
    if not th:
        ks = ks[::3] + ks[-12:]
    step = 12
    for i in range(0, len(ks), step):
        yield 'keys %d' % i, u_keys, (ks[i:i + step],)
    yield 'slow', u_keys, ([3, N - 7], True)
    for d in ([1, 0xdeadbeef << 100] + (list(range(2, 11)) if th else [])):
        for lo in range(0, 65536, 8192):
            yield 'vcn %x %d' % (d & 0xffff, lo), u_vcn, (d, lo, lo + 8192)
    for i, d in enumerate([1, N - 1, 0xabcdef << 160] + (list(range(1 << 200, (1 << 200) + 9)) if th else [])):
        for c in (True, False):
            yield 'wif %d %s' % (i, c), u_wif, (d, c)
    yield 'payload', u_payload, (0,)
    for d in [2, 5, 1 << 99] + special(15)[-2:]:
        yield 'pub %d' % (d & 0xff), u_pub, (d,)
    yield 'random', u_random, ()
