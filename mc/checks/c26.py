"""C26: AES, its modes, and the streaming feeders."""
import itertools

from nbc.util import pyaes as A
from nbc.util.pyaes.util import append_PKCS7_padding, strip_PKCS7_padding
from ..ref import aesref as R

LEVEL = 'model_checking'
BOUNDS = dict(quick='block cipher: every value of every byte of key and block for the three key sizes (12 base keys), both directions; modes: lengths 0..50, every CFB segment size, boundary counters and IVs, every composition of 9 bytes and every pair of cuts of longer messages through one object; feeders: every chunk sequence from 10 sizes to depth 3 in 11 mode variants, both directions, every final block padding byte and length; every sequence of 3 or 4 special blocks (zeros, ones, their cipher texts); messages to 65584 bytes in calls and pieces of 1000 bytes and more; two objects in every interleaving of 3+3 calls; streams of every byte value as a piece, of constant bytes to length 64, and with blocks equal to the padded last one',
              thorough='24 base keys, lengths to 100, compositions of 12 bytes, chunk sequences from 14 sizes to depth 5, interleavings of 4+4 calls')
ASSUMPTIONS = ['CFB with a segment larger than 16 bytes is refused, not defined', 'data are bytes']
KEYS = [bytes(range(n)) for n in (16, 24, 32)] + [bytes(n) for n in (16, 24, 32)] + [b'\xff' * n for n in (16, 24, 32)] + [bytes((i * 37 + 11) % 256 for i in range(n)) for n in (16, 24, 32)]
KEYS += [bytes((i * k + 5 * k) % 256 for i in range(n)) for k in (91, 171, 201, 253) for n in (16, 24, 32)]
MSG = bytes((i * 73 + 19) % 256 for i in range(300))
IVS = [None, bytes(16), b'\xff' * 16, bytes(range(16))]
STARTS = [0, 1, 5, 255, 256, 65535, (1 << 64) - 1, (1 << 128) - 1, (1 << 128) - 2, 0xff00ff00ff00ff00ff00ff00ff00ffff]


def block(ctx, key, pt):
    ctx.current = case = dict(key=key, block=pt)
    want = R.Cipher(key).enc(pt)
    c = A.AESModeOfOperationECB(key)
    ctx.eq(c.encrypt(pt), want, case, 'encryption')
    ctx.eq(c.decrypt(want), pt, case, 'decryption')
    ctx.eq(c.decrypt(pt), R.Cipher(key).dec(pt), case, 'decryption of arbitrary data')
    ctx.trans(3)
    ctx.state((key, pt))
    ctx.trace()


def u_block(ctx, i):
    key = KEYS[i]
    for pos in range(len(key)):
        for v in range(0, 256):
            block(ctx, key[:pos] + bytes([v]) + key[pos + 1:], MSG[:16])
    ctx.sample(dict(key=key))


def u_block2(ctx, i):
    key = KEYS[i]
    c, r = A.AES(key), R.Cipher(key)
    for pos in range(16):
        for v in range(256):
            pt = MSG[:pos] + bytes([v]) + MSG[pos + 1:16]
            ctx.current = case = dict(key=key, block=pt)
            want = r.enc(pt)
            ctx.eq(bytes(c.encrypt(list(pt))), want, case, 'encryption')
            ctx.eq(bytes(c.decrypt(list(want))), pt, case, 'decryption')
            ctx.eq(bytes(c.decrypt(list(pt))), r.dec(pt), case, 'decryption of arbitrary data')
            ctx.trans(3)
            ctx.state((key, pt))
            ctx.trace()
    for n in list(range(0, 16)) + list(range(17, 40)):
        ctx.raises(lambda: c.encrypt([0] * n), n, 'block of a wrong length')
        ctx.raises(lambda: c.decrypt([0] * n), n, 'block of a wrong length')
        if n not in (24, 32):
            ctx.raises(lambda: A.AES(bytes(n)), n, 'key of a wrong length')
            for m in A.AESModesOfOperation.values():
                ctx.raises(lambda: m(bytes(n), bytes(16)) if m is not A.AESModeOfOperationECB and m is not A.AESModeOfOperationCTR else m(bytes(n)), n, 'key of a wrong length')
        for m in (A.AESModeOfOperationCBC, A.AESModeOfOperationOFB, A.AESModeOfOperationCFB):
            ctx.raises(lambda: m(key, bytes(n)), n, 'iv of a wrong length')


# ---- modes: (name, make, reference encryption, reference decryption, granularity)

def variants(key, iv, start):
    out = [('cbc', lambda: A.AESModeOfOperationCBC(key, iv), lambda m: R.cbc(key, iv, m), lambda m: R.cbc(key, iv, m, True), 16),
           ('ecb', lambda: A.AESModeOfOperationECB(key), lambda m: R.ecb(key, m), lambda m: R.ecb(key, m, True), 16),
           ('ofb', lambda: A.AESModeOfOperationOFB(key, iv), lambda m: R.ofb(key, iv, m), lambda m: R.ofb(key, iv, m), 1),
           ('ctr', lambda: A.AESModeOfOperationCTR(key, A.Counter(start)), lambda m: R.ctr(key, start, m), lambda m: R.ctr(key, start, m), 1)]
    for seg in (1, 2, 3, 5, 8, 15, 16):
        out.append(('cfb%d' % seg, lambda seg=seg: A.AESModeOfOperationCFB(key, iv, segment_size=seg), lambda m, seg=seg: R.cfb(key, iv, m, seg), lambda m, seg=seg: R.cfb(key, iv, m, seg, True), seg))
    return out


def calls(ctx, make, fn, pieces, want, case):
    ctx.current = case
    o = make()
    got = b''
    for p in pieces:
        r = getattr(o, fn)(p)
        if not isinstance(r, bytes) or len(r) != len(p):
            ctx.fail(dict(case, piece=p), '%s gave %r' % (fn, r))
        got += r
        ctx.trans()
    ctx.eq(got, want, case, fn)
    ctx.trace()


def cuts(n, gran, two):
    """Pieces of n bytes at multiples of gran: whole, singles, every cut, every two cuts."""
    k = n // gran
    yield (n,)
    if k > 1:
        yield (gran,) * k
    for a in range(1, k):
        yield (a * gran, n - a * gran)
        if two:
            for b in range(a + 1, k):
                yield (a * gran, (b - a) * gran, n - b * gran)


def compositions(n):
    for bits in range(1 << (n - 1)):
        out, last = [], 0
        for i in range(1, n):
            if bits >> (i - 1) & 1:
                out.append(i - last)
                last = i
        yield tuple(out + [n - last])


def split(m, sizes):
    out, i = [], 0
    for s in sizes:
        out.append(m[i:i + s])
        i += s
    return out


def u_mode(ctx, ki, v, top, comp):
    key = KEYS[ki]
    iv, start = IVS[ki % 4], STARTS[ki % len(STARTS)]
    name, make, enc, dec, gran = variants(key, iv, start)[v]
    for n in range(0, top + 1):
        if n % gran:
            if gran == 16 and name in ('cbc', 'ecb') or name.startswith('cfb'):
                for fn in ('encrypt', 'decrypt'):
                    ctx.raises(lambda: getattr(make(), fn)(MSG[:n]), (name, n, fn), 'message of a wrong length')
            continue
        m = MSG[:n]
        we, wd = enc(m), dec(m)
        block_only = name in ('cbc', 'ecb')
        if block_only and n != 16:
            for fn in ('encrypt', 'decrypt'):
                ctx.raises(lambda: getattr(make(), fn)(m), (name, n, fn), 'several blocks at once')
        for sizes in ([(16,) * (n // 16)] if block_only else cuts(n, gran, n <= (34 if top > 50 else 22) * gran)):
            if n == 0:
                sizes = ()
            p = split(m, sizes)
            calls(ctx, make, 'encrypt', p, we, dict(mode=name, key=key, n=n, pieces=sizes))
            calls(ctx, make, 'decrypt', p, wd, dict(mode=name, key=key, n=n, pieces=sizes))
            ctx.eq(dec(we), m, (name, n), 'reference inverse')
            ctx.state((name, ki, n, sizes))
    if gran == 1:
        m = MSG[:comp]
        we, wd = enc(m), dec(m)
        for sizes in compositions(comp):
            # zero-length calls in between change nothing
            p = split(m, sizes)
            calls(ctx, make, 'encrypt', p, we, dict(mode=name, key=key, pieces=sizes))
            calls(ctx, make, 'decrypt', [b''] + p + [b''], wd, dict(mode=name, key=key, pieces=sizes))
            calls(ctx, make, 'encrypt', [x for y in p for x in (b'', y)], we, dict(mode=name, key=key, pieces=sizes, empty=True))
            ctx.state((name, ki, sizes))
    special(ctx, name, make, enc, dec, gran, key)
    ctx.sample(dict(mode=name, key=key))


def special(ctx, name, make, enc, dec, gran, key):
    """Every sequence of four special blocks: zeros, ones, the one before, text - and cipher texts of them."""
    n = 16 if gran <= 16 and 16 % gran == 0 else gran
    one = enc(bytes(n))
    kinds = [bytes(n), b'\xff' * n, MSG[:n], one, bytes(n - 1) + b'\1', b'\x80' + bytes(n - 1)]
    for seq in itertools.product(kinds, repeat=4 if len(key) == 16 else 3):
        p = list(seq)
        m = b''.join(p)
        calls(ctx, make, 'encrypt', p, enc(m), dict(mode=name, key=key, blocks=seq))
        calls(ctx, make, 'decrypt', p, dec(m), dict(mode=name, key=key, blocks=seq))
        ctx.state((name, key, seq))


def u_huge(ctx, v):
    """More than 64 KiB in one call and one piece."""
    key, iv, start = KEYS[0], IVS[3], (1 << 128) - 1000
    name, make, enc, dec, gran = variants(key, iv, start)[v]
    n = 65536 + 48
    n -= n % gran
    m = (MSG * 250)[:n]
    c = enc(m)
    if name not in ('cbc', 'ecb'):
        calls(ctx, make, 'encrypt', [m], c, dict(mode=name, n=n))
        calls(ctx, make, 'decrypt', [c], m, dict(mode=name, n=n))
    c = ref_feed(name, enc, dec, gran, m[5:], True)
    for sizes in ([n - 5], [65536, n - 5 - 65536]):
        feed(ctx, make, True, split(m[5:], sizes), c, dict(mode=name, pieces=sizes))
    feed(ctx, make, False, [c], m[5:], dict(mode=name, n=n - 5))
    ctx.state((name, n))


def u_segments(ctx):
    key, iv = KEYS[0], IVS[3]
    for seg in list(range(0, 17)):
        g = seg or 1
        for n in range(0, 65):
            ctx.current = (seg, n)
            o, p = A.AESModeOfOperationCFB(key, iv, segment_size=seg), A.AESModeOfOperationCFB(key, iv, segment_size=seg)
            if n % g:
                ctx.raises(lambda: o.encrypt(MSG[:n]), (seg, n), 'not a multiple of the segment')
                ctx.raises(lambda: p.decrypt(MSG[:n]), (seg, n), 'not a multiple of the segment')
            else:
                ctx.eq(o.encrypt(MSG[:n]), R.cfb(key, iv, MSG[:n], g), (seg, n), 'CFB encryption')
                ctx.eq(p.decrypt(MSG[:n]), R.cfb(key, iv, MSG[:n], g, True), (seg, n), 'CFB decryption')
            ctx.trans(2)
            ctx.state(('seg', seg, n))
            ctx.trace()
    ctx.eq(A.AESModeOfOperationCFB(key, iv).encrypt(MSG[:9]), R.cfb(key, iv, MSG[:9], 1), 'default segment', 'CFB')
    for seg in (17, 18, 32, 100, -1):
        def bad():
            o = A.AESModeOfOperationCFB(key, iv, segment_size=seg)
            c = o.encrypt(MSG[:abs(seg) * 2])
            p = A.AESModeOfOperationCFB(key, iv, segment_size=seg).decrypt(c)
            if p == MSG[:abs(seg) * 2] and len(c) == len(p):
                raise ValueError('inverts')
            return c, p
        ctx.raises(bad, seg, 'segments longer than a block lose data')


def u_counter(ctx):
    for start in STARTS + [1 << k for k in range(0, 128, 8)] + [(1 << k) - 1 for k in range(8, 129, 8)]:
        c = A.Counter(start)
        for i in range(260 if start < 10 else 4):
            ctx.current = (start, i)
            ctx.eq(bytes(c.value), ((start + i) % (1 << 128)).to_bytes(16, 'big'), (start, i), 'counter')
            c.increment()
            ctx.trans()
            ctx.state(('ctr', start, i))
        ctx.trace()
        ctx.eq(A.AESModeOfOperationCTR(KEYS[1], A.Counter(start)).encrypt(MSG[:70]), R.ctr(KEYS[1], start, MSG[:70]), start, 'CTR')
    ctx.eq(A.AESModeOfOperationCTR(KEYS[0]).encrypt(MSG[:40]), R.ctr(KEYS[0], 1, MSG[:40]), 'default', 'CTR from 1')
    ctx.eq(A.AESModeOfOperationCTR(KEYS[0]).encrypt(MSG[:40]), R.ctr(KEYS[0], 1, MSG[:40]), 'default again', 'CTR from 1')
    ctx.eq(bytes(A.Counter().value), (1).to_bytes(16, 'big'), 'default', 'counter')


# ---- feeders

def ref_feed(name, enc, dec, gran, m, encrypting):
    """The whole result, or None when it must be refused."""
    if name in ('cbc', 'ecb'):
        if encrypting:
            return enc(R.pad(m))
        if not m or len(m) % 16:
            return None
        return R.unpad(dec(m))
    if name.startswith('cfb'):
        z = -len(m) % gran
        return (enc if encrypting else dec)(m + bytes(z))[:len(m)]
    return (enc if encrypting else dec)(m)


def feed(ctx, make, encrypting, pieces, want, case, end=None):
    ctx.current = case
    f = (A.Encrypter if encrypting else A.Decrypter)(make())
    got = b''
    try:
        for p in pieces:
            got += f.feed(p)
            ctx.trans()
        got += f.feed(end) if end is not None else f.feed()
    except ValueError:
        if want is not None:
            ctx.fail(case, 'refused')
        ctx.outcome('refused')
        ctx.trace()
        return
    if want is None:
        ctx.fail(case, 'malformed data accepted, gave %r' % got)
    ctx.eq(got, want, case, 'streamed result')
    ctx.raises(lambda: f.feed(b'x'), case, 'feeding after the end')
    ctx.raises(lambda: f.feed(), case, 'ending twice')
    ctx.outcome('done')
    ctx.trace()


SIZES = [1, 2, 7, 14, 15, 16, 17, 31, 32, 33, 47, 48, 49, 5]


def u_feed(ctx, ki, v, nsizes, depth):
    key, iv, start = KEYS[ki], IVS[ki % 4], STARTS[(ki + 3) % len(STARTS)]
    name, make, enc, dec, gran = variants(key, iv, start)[v]
    seen = {}
    for d in range(0, depth + 1):
        for sizes in itertools.product(SIZES[:nsizes], repeat=d):
            n = sum(sizes)
            if d == depth and n > 70 and len(set(sizes)) > 2:
                continue
            if n not in seen:
                m = MSG[:n]
                c = ref_feed(name, enc, dec, gran, m, True)
                seen[n] = (m, c)
                if len(c) != n:      # padded: other lengths of cipher text
                    pass
            m, c = seen[n]
            feed(ctx, make, True, split(m, sizes), c, dict(mode=name, key=key, pieces=sizes, encrypting=True), b'' if n % 2 else None)
            # decryption of the true cipher text, cut at the same places with the rest last
            rest = len(c) - n
            p = split(c, sizes) + ([c[n:]] if rest else [])
            feed(ctx, make, False, p, m, dict(mode=name, key=key, pieces=sizes, encrypting=False))
            # decryption of arbitrary data of that length
            if n % 16 or d < 2:
                feed(ctx, make, False, split(m, sizes), ref_feed(name, enc, dec, gran, m, False), dict(mode=name, key=key, pieces=sizes, arbitrary=True))
            ctx.state((name, ki, sizes))
    # every cut, every pair of cuts
    for n in (0, 1, 15, 16, 17, 31, 32, 33, 48, 50):
        m = MSG[:n]
        c = ref_feed(name, enc, dec, gran, m, True)
        for sizes in cuts(len(c), 1, True):
            if len(sizes) <= 3 or sizes[0] == 1:
                feed(ctx, make, False, split(c, sizes) if c else [], m, dict(mode=name, key=key, pieces=sizes, cipher=True))
            if len(sizes) != 3 and n:
                if sum(sizes) == n:
                    feed(ctx, make, True, split(m, sizes), c, dict(mode=name, key=key, pieces=sizes))
        for sizes in cuts(n, 1, n < 34):
            if n:
                feed(ctx, make, True, split(m, sizes), c, dict(mode=name, key=key, pieces=sizes))
    ctx.sample(dict(mode=name, pieces=sizes))


def u_long(ctx, v):
    """Long messages, in one call and in large pieces."""
    for ki in (0, 10):
        key, iv, start = KEYS[ki], IVS[ki % 4], (1 << 128) - 100 if ki else 0xff00
        name, make, enc, dec, gran = variants(key, iv, start)[v]
        for n in (1000, 1024, 4080, 4095, 4096, 4097, 4112, 5040, 9000, 16400) if v < 4 else (1000, 4096, 4200):
            n -= n % gran
            m = (MSG * 90)[:n]
            c = enc(m)
            for sizes in ([(16,) * (n // 16)] if name in ('cbc', 'ecb') else [(n,), (gran, n - gran), (n - gran, gran), (n // gran // 2 * gran, n - n // gran // 2 * gran)]):
                case = dict(mode=name, key=key, n=n, pieces=sizes if len(sizes) < 9 else len(sizes))
                calls(ctx, make, 'encrypt', split(m, sizes), c, case)
                calls(ctx, make, 'decrypt', split(c, sizes), m, case)
            for k in (0, 1, 5) if n < 2000 else (1,):
                c = ref_feed(name, enc, dec, gran, m[k:], True)
                case = dict(mode=name, key=key, n=n - k, streamed=True)
                for sizes in ([n - k], [n - k - 1, 1], [n // 2 - k, n - n // 2], [1000] * ((n - k) // 1000) + [(n - k) % 1000]):
                    sizes = [x for x in sizes if x]
                    feed(ctx, make, True, split(m[k:], sizes), c, dict(case, pieces=sizes))
                    feed(ctx, make, False, split(c, sizes) + ([c[n - k:]] if len(c) > n - k else []), m[k:], dict(case, pieces=sizes))
            ctx.state((name, ki, n))


def u_content(ctx, v):
    """Streams whose content looks like something else: every byte value as a piece, constant and repeating messages,
    a block equal to the padded last block, cipher texts of constant bytes."""
    for ki in (0, 10):
        key, iv, start = KEYS[ki], IVS[(ki + 1) % 4], STARTS[(ki + 1) % len(STARTS)]
        name, make, enc, dec, gran = variants(key, iv, start)[v]

        def both(m, sizes):
            c = ref_feed(name, enc, dec, gran, m, True)
            case = dict(mode=name, key=key, plain=m, pieces=sizes)
            feed(ctx, make, True, split(m, sizes), c, case)
            feed(ctx, make, False, [x for x in split(c, sizes) + [c[len(m):]] if x], m, dict(case, encrypting=False))
            feed(ctx, make, False, split(m, sizes), ref_feed(name, enc, dec, gran, m, False), dict(case, arbitrary=True))
            ctx.state((name, ki, m, sizes))
        for x in range(256):
            b = bytes([x])
            both(b, (1,))
            both(b + MSG[:3], (1, 3))
            both(MSG[:16] + b, (16, 1))
            both(MSG[:20] + b + MSG[:20], (20, 1, 20))
        for x in (0, 1, 2, 4, 8, 10, 15, 16, 17, 32, 48, 0x41, 0x80, 0xff):
            for n in list(range(1, 36)) + [47, 48, 49, 64]:
                m = bytes([x]) * n
                both(m, (n,))
                both(m, (1,) * n)
                if n > 16:
                    both(m, (16, n - 16))
        for n in range(0, 16):
            last = MSG[:n] + bytes([16 - n]) * (16 - n)      # as the last block looks once padded
            for m in (last + MSG[:n], last * 2 + MSG[:n], MSG[:16] + last + MSG[:n], last, last + last, last + MSG[:n] + last):
                both(m, (len(m),))
                both(m, (1,) * len(m))
                both(m, (len(m) // 2, len(m) - len(m) // 2) if len(m) > 1 else (1,))
    ctx.sample(dict(mode=name))


def u_padding(ctx):
    """Every last byte, every padding length, every damaged padding byte."""
    for n in range(0, 49):
        m = MSG[:n]
        ctx.eq(append_PKCS7_padding(m), R.pad(m), n, 'padding')
        ctx.eq(strip_PKCS7_padding(R.pad(m)), m, n, 'padding removal')
        ctx.trans(2)
    key = KEYS[0]
    for ki, (name, mk, enc) in enumerate((('ecb', lambda: A.AESModeOfOperationECB(key), lambda m: R.ecb(key, m)), ('cbc', lambda: A.AESModeOfOperationCBC(key, MSG[:16]), lambda m: R.cbc(key, MSG[:16], m)))):
        for head in (0, 16):
            for last in range(256):
                for good in range(0, 18):
                    tail = min(good, 16)
                    b = bytes([7]) * (16 - tail) + bytes([last]) * tail if good < 17 else MSG[20:35] + bytes([last])
                    m = MSG[:head] + b
                    want = R.unpad(m)
                    case = dict(mode=name, plain=m)
                    ctx.current = case
                    if ki == 0:
                        try:
                            got = strip_PKCS7_padding(m)
                        except ValueError:
                            got = None
                        ctx.eq(got, want, case, 'padding removal')
                    if last < 20 or last % 32 == 0:
                        feed(ctx, mk, False, [enc(m)], want, case)
                    ctx.state(m)
    for n in range(1, 17):
        p = R.pad(MSG[:16 - n])
        for i in range(16 - n, 16):
            for x in (1, 0x10, 0x80, n):
                m = p[:i] + bytes([p[i] ^ x]) + p[i + 1:]
                want = R.unpad(m)
                feed(ctx, lambda: A.AESModeOfOperationECB(key), False, [R.ecb(key, m)], want, dict(plain=m))
                ctx.state(m)
    for n in list(range(0, 16)) + list(range(17, 32)):
        if n:
            ctx.raises(lambda: strip_PKCS7_padding(MSG[:n - 1] + b'\1'), n, 'padding removal of a wrong length')
    for n in (16, 32, 48, 64):
        for last in range(256):
            for m in (bytes([last]) * n, MSG[:max(n - last, 0)] + bytes([last]) * min(n, last), b'\0' * 16 + bytes([last]) * (n - 16)):
                if len(m) == n:
                    try:
                        got = strip_PKCS7_padding(m)
                    except ValueError:
                        got = None
                    ctx.eq(got, R.unpad(m), m, 'padding removal')
                    ctx.state(m)
    ctx.raises(lambda: strip_PKCS7_padding(b''), 0, 'padding removal of nothing')


def u_inter(ctx, v, w, steps):
    """Two cipher objects used in every interleaving give what each gives alone."""
    a = variants(KEYS[0], IVS[3], 1)[v]
    b = variants(KEYS[0] if v != w else KEYS[3], IVS[3], 1)[w]

    def acts(var):
        name, make, enc, dec, gran = var
        out = []
        for k in range(steps):
            fn = 'decrypt' if (k % 3 == 1 and name not in ('ofb', 'ctr')) else 'encrypt'
            n = 16 if gran == 16 else gran * (k + 3)
            out.append((fn, MSG[k * 16:k * 16 + n]))
        return out
    A1, B1 = acts(a), acts(b)

    def alone(var, ac):
        o = var[1]()
        return [getattr(o, f)(m) for f, m in ac]
    wa, wb = alone(a, A1), alone(b, B1)
    for pick in itertools.combinations(range(2 * steps), steps):
        oa, ob = a[1](), b[1]()
        i = j = 0
        for t in range(2 * steps):
            ctx.current = (a[0], b[0], pick, t)
            if t in pick:
                ctx.eq(getattr(oa, A1[i][0])(A1[i][1]), wa[i], ctx.current, 'interleaved with another cipher')
                i += 1
            else:
                ctx.eq(getattr(ob, B1[j][0])(B1[j][1]), wb[j], ctx.current, 'interleaved with another cipher')
                j += 1
            ctx.trans()
        ctx.state((v, w, pick))
        ctx.trace()


def units(tier):
    th = tier == 'thorough'
    nk = 24 if th else 12
    for i in range(nk):
        if th or i < 3 or i > 8:
            yield 'block keys %d' % i, u_block, (i,)
        yield 'blocks %d' % i, u_block2, (i,)
    for v in range(11):
        for ki in ((v % 12, (v + 5) % 12) if not th else range(12)):
            yield 'mode %d %d' % (v, ki), u_mode, (ki, v, 100 if th else 50, 12 if th else 9)
        for ki in ((v % 12,) if not th else (v % 12, (v + 4) % 12, (v + 8) % 12)):
            yield 'feed %d %d' % (v, ki), u_feed, (ki, v, 14 if th else 10, 5 if th else 3)
        for w in range(11):
            if th or (v + w) % 3 == 0 or v == w:
                yield 'two %d %d' % (v, w), u_inter, (v, w, 4 if th else 3)
    for v in range(11):
        yield 'long %d' % v, u_long, (v,)
        if v in (0, 2, 3, 8, 10) or th:
            yield 'huge %d' % v, u_huge, (v,)
    yield 'segments', u_segments, ()
    yield 'counter', u_counter, ()
    for v in range(11):
        yield 'content %d' % v, u_content, (v,)
    yield 'padding', u_padding, ()
