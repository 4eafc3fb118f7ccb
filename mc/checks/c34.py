"""C34: partial key-sets as QR codes."""
import base64
import itertools

from .. import entropy
from nbc.util import piecewise as PW
from .. import fast
from ..ref import wal, base58 as R
from .c30 import KEYS, parse, combine

LEVEL = 'model_checking'
BOUNDS = dict(quick='key-sets m-of-N for all 1 <= m <= N <= 7 and selected to 256; every order of a set of up to 4 parts; every set of at most 6 indices below 8 and multisets of at most 3; every truncation, and 6 other characters at every place of a code of 1 to 3 parts',
              thorough='all m-of-N up to 12, every character at every place')
ASSUMPTIONS = ['large-number arithmetic is replaced by the reference (decided by C22/C23/C27)']
N = wal.N
HEAD = b'\x84\x7c\x20'


def ref_encode(parts):
    """The code, or None for what it can not represent: parts in index order, at most one index left out."""
    f = [parse(p) for p in parts]
    if not f or any(x is None or x[0] != b'\x10\x01' or x[2:4] != f[0][2:4] for x in f):
        return None
    f.sort(key=lambda x: (x[1], x[4]))
    have = [x[1] for x in f]
    missing = next((i for i in range(len(f)) if have[i] != i), len(f))
    if missing > 255 or have != [i for i in range(len(f) + 1) if i != missing]:
        return None
    raw = HEAD + bytes([missing, f[0][2]]) + f[0][3] + b''.join(x[4] for x in f)
    return base64.b32encode(raw).rstrip(b'=')


def text(q):
    return q.encode('ascii') if not isinstance(q, bytes) else q


def check(ctx, parts, case, give=list):
    ctx.current = case
    want = ref_encode(parts)
    ctx.trans()
    ctx.trace()
    if want is None:
        ctx.raises(lambda: PW.partial_split_qr_encode(give(parts)), case, 'parts which the code can not represent')
        return None
    q = PW.partial_split_qr_encode(give(parts))
    ctx.eq(text(q), want, case, 'code')
    back = PW.partial_split_qr_decode(q)
    ctx.eq(sorted(back), sorted(parts), case, 'decoded parts')
    ctx.eq(sorted(PW.partial_split_qr_decode(want.decode('ascii'))), sorted(parts), case, 'parts decoded from text')
    ctx.eq(sorted(PW.partial_split_qr_decode(want)), sorted(parts), case, 'parts decoded from bytes')
    ctx.trans(3)
    return want


def u_sets(ctx, m, n, d):
    fast.on()
    w = wal.wif(d, False)
    entropy.stream('qr %d %d' % (m, n))
    groups = PW.partial_split_private_key(w, m, n)
    other = PW.partial_split_private_key(w, m, n)
    stranger = PW.partial_split_private_key(wal.wif(d % (N - 9) + 4, False), m, n)
    more = PW.partial_split_private_key(w, m + 1, n + 1) if n < 255 else None
    entropy.free()
    codes = {}
    for i, g in enumerate(groups):
        case = dict(key=hex(d), m=m, n=n, set=i)
        if m > 12 and i not in (0, 1, n // 2, n - 1):
            codes[i] = ref_encode(sorted(g))
            continue
        g = sorted(g)
        codes[i] = check(ctx, g, case)
        check(ctx, g, case, frozenset)
        check(ctx, g, case, tuple)
        check(ctx, g, case, lambda x: iter(x))
        if n <= m + 1:
            ctx.ok(codes[i] is not None, case, 'a set of %d of %d without a code' % (m, n))
        for o in itertools.permutations(g) if m <= 4 else [g[::-1]] + [g[k:] + g[:k] for k in range(8 if m < 12 else 2)]:
            check(ctx, list(o), dict(case, order=[g.index(p) for p in o]))
        # part of a set, several sets, foreign parts
        for k in range(min(m, 6 if m < 12 else 2)):
            check(ctx, g[:k] + g[k + 1:], dict(case, without=k))
        for what, x in (('doubled', g[:1]), ('again', sorted(other[i])[:1]), ('stranger', sorted(stranger[i])[:1]), ('more', sorted(more[0])[:1] if more else [])):
            for pos in (0, len(g)):
                check(ctx, g[:pos] + x + g[pos:], dict(case, added=what, at=pos))
        for bad in (b'', w, b'6C', g[0][:-1], g[0] + b'1', wal.wif(d, True), R.encode_check(b'\x10\x02' + R.decode_check(g[0])[2:])):
            ctx.raises(lambda: PW.partial_split_qr_encode(g + [bad]), dict(case, part=bad), 'a malformed part')
            ctx.raises(lambda: PW.partial_split_qr_encode([bad] + g), dict(case, part=bad), 'a malformed part first')
        ctx.state((m, n, i))
        ctx.outcome('coded' if codes[i] else 'no code')
    # the sets that came through the code combine to the key: all of them, or m adjacent ones
    if m < 40 and all(codes.values()):
        rows = [sorted(PW.partial_split_qr_decode(codes[i])) for i in range(n)]
        for k in range(n):
            ctx.eq(combine([p for j in range(m) for p in rows[(k + j) % n]]), w, dict(m=m, n=n, sets=[(k + j) % n for j in range(m)]), 'combined from codes')
        ctx.eq(combine([p for r in rows for p in r]), w, dict(m=m, n=n), 'combined from all codes')


def part(index, required, d):
    chk = b'cksm'
    return R.encode_check(b'\x10\x01' + bytes([index, required]) + chk + wal.b32(d))


def u_indices(ctx, required, hi, top):
    """Any set of indices; several parts with one index."""
    for k in range(top + 1):
        for have in itertools.combinations(range(hi), k):
            check(ctx, [part(i, required, 1000 - i) for i in have], dict(indices=have, required=required))
            ctx.state((have, required))
    for k in (2, 3):
        for have in itertools.combinations_with_replacement(range(4), k):
            check(ctx, [part(i, required, 7 + j) for j, i in enumerate(have)], dict(indices=have, required=required))
    for have in ([254, 255], [255], list(range(256)), list(range(255)), list(range(1, 256)), [i for i in range(256) if i != 128]):
        check(ctx, [part(i, required, 1 + i) for i in have], dict(indices='%d..%d of %d' % (have[0], have[-1], len(have)), required=required))
    # checksums that agree in all but one byte
    for i in range(4):
        for x in (1, 0x80):
            chk = bytearray(b'cksm')
            chk[i] ^= x
            for n in (0, 1, 2):
                ps = [part(0, required, 5), part(1, required, 6), part(2, required, 7)]
                ps[n] = R.encode_check(b'\x10\x01' + bytes([n, required]) + bytes(chk) + wal.b32(5 + n))
                check(ctx, ps, dict(checksum=i, of=n, required=required))
    for a, b in itertools.product((1, 2, 0, 255), repeat=2):
        check(ctx, [part(0, a, 5), part(1, b, 6)], dict(required=(a, b)))


def u_damage(ctx, m, every):
    """A changed or cut code never combines to another key."""
    fast.on()
    d = KEYS[m]
    w = wal.wif(d, False)
    entropy.stream('damage %d' % m)
    groups = PW.partial_split_private_key(w, m, m)
    entropy.free()
    codes = [ref_encode(sorted(g)) for g in groups]
    ctx.ok(all(codes), m, 'no code')
    rest = [p for g in groups[1:] for p in g]
    q = codes[0]
    assert len(rest) == m * (m - 1)

    def use(bad, case):
        ctx.current = case
        ctx.trans()
        ctx.trace()
        try:
            parts = PW.partial_split_qr_decode(bad)
        except Exception as e:
            ctx.outcome('refused')
            return
        raw = base64.b32decode(bad + b'=' * (-len(bad) % 8))
        ctx.ok(raw.startswith(HEAD), case, 'decoded though the header is wrong')
        for p in parts:
            f = parse(p)
            ctx.ok(f is not None and f[0] == b'\x10\x01', case, 'decoded to %r' % (p,))
        for extra in (rest, []):
            got = combine(list(parts) + extra)
            ctx.ok(got in (None, 'refused', w), case, 'a damaged code combined to another key')
        ctx.outcome('decoded')
    for i in range(len(q)):
        for a in b'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567019=a \n' if every else bytes([q[i] ^ 1]) + b'A7Q0=':
            if a == q[i]:
                continue
            use(q[:i] + bytes([a]) + q[i + 1:], dict(m=m, changed=i, to=a))
            ctx.state((m, i, a))
        use(q[:i], dict(m=m, cut=i))
        use(q[:i] + q[i + 1:], dict(m=m, dropped=i))
        if i + 1 < len(q):
            use(q[:i] + bytes([q[i + 1], q[i]]) + q[i + 2:], dict(m=m, swapped=i))
    for i in range(1, 60):
        use(q + b'A' * i, dict(m=m, appended=i))
    raw = base64.b32decode(q + b'=' * (-len(q) % 8))
    for i in range(3):
        for x in range(1, 256):
            bad = base64.b32encode(raw[:i] + bytes([raw[i] ^ x]) + raw[i + 1:]).rstrip(b'=')
            ctx.raises(lambda: PW.partial_split_qr_decode(bad), dict(m=m, header=i, xor=x), 'a wrong header')
            ctx.trans()
    for bad in (b'', b'A', b'QR6CA', q[:4]):
        ctx.raises(lambda: PW.partial_split_qr_decode(bad), bad, 'not a code')


def units(tier):
    th = tier == 'thorough'
    top = 12 if th else 7
    for n in range(1, top + 1):
        for m in range(1, n + 1):
            yield 'sets %d of %d' % (m, n), u_sets, (m, n, KEYS[(m * 5 + n) % len(KEYS)])
    for m, n in ((31, 32), (32, 32), (3, 32), (200, 200)) + (((255, 255), (254, 255), (255, 256)) if th else ()):
        yield 'sets %d of %d' % (m, n), u_sets, (m, n, KEYS[(m + n) % len(KEYS)])
    for r in (1, 3, 255):
        yield 'indices %d' % r, u_indices, (r, 10 if th else 8, 8 if th else 6)
    for m in (1, 2, 3) + ((5, 8) if th else ()):
        yield 'damage %d' % m, u_damage, (m, th or m == 1)
