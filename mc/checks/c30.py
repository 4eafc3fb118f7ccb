"""C30: split private keys and partial key-sets."""
import itertools

from .. import entropy
from nbc.util import piecewise as PW, key as K
from .. import fast
from ..ref import wal, base58 as R

LEVEL = 'model_checking'
BOUNDS = dict(quick='12 keys x 1..6 parts x 6 entropy scripts, all orders up to 5 parts; combined addresses of 12 x 10 key pairs (all sums, doubling, infinity); key-sets m-of-N for all 1 <= m <= N <= 5 and selected to 12 (smaller choices of sets to 256), every subset and order of sets, every single part missing, mixed, altered; splits into 255 to 700 parts',
              thorough='40 keys, up to 9 parts; all m-of-N up to N = 8, every subset')
ASSUMPTIONS = ['keys are uncompressed WIF (the functions give uncompressed results)', 'large-number arithmetic is replaced by the reference (decided by C22/C23/C27)', 'a random part of value zero (entropy of probability 2^-256) is included where the source can give it']
N = wal.N
KEYS = [1, 2, N - 1, N - 2, 0x1234 << 96, N // 2, 1 << 255, 255, (1 << 128) - 1, 3, 0xdead << 230, 0x77] + [(i * 0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251) % N for i in range(1, 30)]


def scripts(d):
    """Entropy that makes the random parts special: value v needs the bytes of v - 1 (or v)."""
    out = [()]
    for vs in ((1, 1, 1), (N - 1, N - 1, N - 1), (d, 1, 2), (1, d - 1, N - d), ((d - 1) % N, 5, 6), (d * pow(2, -1, N) % N, 7, N // 2)):
        out.append(tuple((v - 1) % N for v in vs))
    return out


def set_entropy(vs, tag):
    entropy.script(*[v.to_bytes(32, 'big') for v in vs], tag=tag)


def u_split(ctx, ds, top):
    fast.on()
    for d in ds:
        for c in (False, True):
            w = wal.wif(d, c)
            for count in range(1, top + 1):
                for k, vs in enumerate(scripts(d)):
                    case = dict(key=hex(d), compressed=c, count=count, entropy=k)
                    ctx.current = case
                    set_entropy(vs, 'c30 %d' % k)
                    parts = PW.split_private_key(w, count)
                    entropy.free()
                    ctx.eq(len(parts), count, case, 'number of parts')
                    vals = [wal.unwif(p) for p in parts]
                    ctx.ok(all(v is not None for v in vals), case, 'a part is not a private key')
                    want = wal.wif(sum(v[0] for v in vals) % N, False)
                    ctx.eq(want, wal.wif(d, False), case, 'sum of the parts')
                    orders = itertools.permutations(parts) if count <= 4 else [tuple(parts[i:] + parts[:i]) for i in range(count)] + [tuple(reversed(parts))]
                    for o in orders:
                        ctx.eq(PW.combine_private_keys(list(o)), want, dict(case, order=[parts.index(p) for p in o]), 'combined key')
                        ctx.trans()
                    ctx.eq(PW.combine_private_keys(tuple(parts)), want, case, 'combined key of a tuple')
                    # any part missing gives another key
                    if count > 1:
                        for i in range(count):
                            rest = parts[:i] + parts[i + 1:]
                            if vals[i][0]:
                                ctx.ok(PW.combine_private_keys(rest) != want, dict(case, missing=i), 'a part is not needed')
                    ctx.state((d, c, count, k))
                    ctx.trace()
    # more parts than one byte can count
    for count in (255, 256, 257, 300, 700):
        case = dict(key=hex(ds[0]), count=count)
        ctx.current = case
        entropy.stream('many %d' % count)
        parts = PW.split_private_key(wal.wif(ds[0], False), count)
        entropy.free()
        vals = [wal.unwif(p) for p in parts]
        ctx.eq(len(set(parts)), count, case, 'different parts')
        ctx.ok(all(v is not None and 0 < v[0] < N for v in vals), case, 'a part is not a private key')
        for o in (parts, parts[::-1]):
            ctx.eq(PW.combine_private_keys(o), wal.wif(ds[0], False), case, 'combined key')
        ctx.trans(2)
    # splitting takes fresh entropy each time
    entropy.stream('again')
    a, b = PW.split_private_key(wal.wif(5, False), 3), PW.split_private_key(wal.wif(5, False), 3)
    ctx.ok(not set(a) & set(b) and len(set(a)) == 3, 'again', 'two splits share parts')
    entropy.free()
    ctx.sample(case)


def u_combine(ctx, ds):
    fast.on()
    for n in range(1, 5):
        for t in itertools.product(ds[:7], repeat=n):
            ctx.current = t
            keys = [wal.wif(d, i % 2 == 1) for i, d in enumerate(t)]
            s = sum(t) % N
            ctx.eq(PW.combine_private_keys(keys), wal.wif(s, False), t, 'sum of keys')
            ctx.eq(PW.combine_private_keys(iter(keys)), wal.wif(s, False), t, 'sum of an iterator of keys')
            ctx.trans(2)
            ctx.state(t)
            ctx.trace()
    for bad in (b'', b'5', wal.wif(5, True)[:-1], wal.wif(5, False) + b'1', b'0' * 51):
        ctx.raises(lambda: PW.combine_private_keys([wal.wif(5, False), bad]), bad, 'malformed part')
        ctx.raises(lambda: PW.split_private_key(bad, 3), bad, 'malformed key')


def u_address(ctx, a, bs):
    """The address of (public key, private part) is that of the combined private key."""
    fast.on()
    pub = wal.full(wal.pub(a))
    for b in list(bs) + [a, N - a]:
        case = dict(public_of=hex(a), private=hex(b))
        ctx.current = case
        s = (a + b) % N
        for c in (False, True):
            w = wal.wif(b, c)
            ctx.trans()
            ctx.trace()
            ctx.state((a, b, c))
            if s == 0:
                ctx.raises(lambda: PW.get_address(pub, w), case, 'the combined key is zero')
                continue
            ctx.eq(PW.get_address(pub, w), wal.address(wal.full(wal.pub(s)), 0, False), case, 'address')
            ctx.eq(PW.get_address(pub, w, b'\x6f', 0xabcd), wal.address(wal.full(wal.pub(s)), 0xabcd, True), case, 'address on the test net')
    for bad in (wal.comp(wal.pub(a)), pub[:-1], pub + b'\0', b'\2' + pub[1:], b'', pub[:64] + bytes([pub[64] ^ 1])):
        ctx.raises(lambda: PW.get_address(bad, wal.wif(3, False)), (hex(a), bad), 'malformed public key')
    # vanity flow of the documentation
    s = (a + 77) % N
    if s:
        ctx.eq(PW.combine_private_keys([wal.wif(a, False), wal.wif(77, False)]), wal.wif(s, False), hex(a), 'combined key')


def parse(p):
    raw = R.decode_check(p)
    return raw and (raw[:2], raw[2], raw[3], raw[4:8], raw[8:])


def combine(parts, **kw):
    try:
        return PW.partial_combine_private_keys(parts, **kw)
    except ValueError:
        return 'refused'


def u_sets(ctx, m, n, d, thorough):
    fast.on()
    w = wal.wif(d, False)
    case0 = dict(key=hex(d), m=m, n=n)
    ctx.current = case0
    entropy.stream('sets %d %d' % (m, n))
    groups = PW.partial_split_private_key(w, m, n)
    entropy.free()
    ctx.eq(len(groups), n, case0, 'number of sets')
    for g in groups:
        ctx.eq(len(g), m, case0, 'parts in a set')
        for p in g:
            ctx.ok(p.startswith(b'6C'), case0, 'part %r does not begin with 6C' % p)
    allp = [p for g in groups for p in sorted(g)]
    ctx.eq(len(set(allp)), m * n, case0, 'different parts in all sets')
    idx = {}
    for p in allp:
        f = parse(p)
        ctx.ok(f is not None, case0, 'part without a right checksum')
        idx.setdefault(f[1], set()).add(p)
    ctx.eq(combine(allp), w, case0, 'combined from all sets')
    ctx.eq(combine(reversed(allp)), w, case0, 'combined from all sets, reversed')
    if n > 6:
        ctx.eq(combine(allp[1::2] + allp[::2]), w, case0, 'combined from all sets, every other part first')
        rows = list(idx.values())       # one part of each number before the next
        ctx.eq(combine([p for t in itertools.zip_longest(*map(sorted, rows)) for p in t if p]), w, case0, 'combined from all sets, round robin')
        for start in (0, 1, n // 2, n - 1):
            less = [p for i in range(n) for p in sorted(idx[sorted(idx)[(start + i) % n]])[bool(i):]]     # one number complete, a part of each other missing
            for what, o in (('first', less), ('last', less[::-1]), ('amid', less[len(less) // 2:] + less[:len(less) // 2])):
                ctx.eq(combine(o), w, dict(case0, complete=start, order=what), 'combined with one complete group')
            if m > 1:
                ctx.eq(combine([p for p in less if p not in idx[sorted(idx)[start]]]), None, dict(case0, without=start), 'combined with a part of each group missing')
            ctx.trans(4)
    # every subset of the sets
    subsets = itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n + 1)) if n <= 6 or thorough else [tuple((i + j) % n for j in range(k)) for i in range(n) for k in range(n + 1)] if n <= 12 else [tuple((i + j) % n for j in range(k)) for i in (range(n) if m * m * n < 20000 else (0, 1, n // 2, n - m, n - 1)) for k in sorted({0, 1, m - 1, m, m + 1, n}) if 0 <= k <= n and (k == m or i in (0, 1, n // 2, n - m, n - 1))]
    if n > 12:
        subsets += [tuple(sorted({(i + j) % n for i in (a, a + b) for j in range(m)})) for a in (0, 3) for b in (n // 2, 8, 10, 16, 32, 64, 100, 127, 128, 129, 200)]
    for sub in subsets:
        parts = [p for i in sub for p in sorted(groups[i])]
        case = dict(case0, sets=sub)
        ctx.current = case
        complete = any(len(v & set(parts)) == m for v in idx.values())
        adjacent = any(all((i + j) % n in sub for j in range(m)) for i in range(n))
        got = combine(parts)
        if adjacent:
            ctx.eq(got, w, case, 'combined from adjacent sets')
        elif len(set(sub)) < m or not complete:
            ctx.eq(got, None, case, 'combined from insufficient sets')
        else:
            ctx.ok(got in (w, None), case, 'combined gave %r' % (got,))
        if len(sub) <= 3:
            for o in itertools.permutations(sub):
                ctx.eq(combine([p for i in o for p in groups[i]]), got, dict(case, order=o), 'combined in another order')
                ctx.trans()
        ctx.outcome('key' if got == w else 'none')
        ctx.trans()
        ctx.state((m, n, d, sub))
        ctx.trace()
    # single parts: all but one of a complete group; duplicates do not count twice
    for i, g in idx.items():
        g = sorted(g)
        ctx.eq(combine(g), w if len(g) == m else None, dict(case0, group=i), 'a complete group')
        for j in range(len(g)) if len(allp) < 900 else (0, len(g) - 1):
            rest = g[:j] + g[j + 1:]
            ctx.eq(combine(rest), None, dict(case0, group=i, missing=j), 'combined without a part')
            if rest:
                ctx.eq(combine(rest + [rest[0]]), None, dict(case0, group=i, duplicate=j), 'combined with a duplicate instead of a part')
            ctx.trans(2)
    ctx.eq(combine([]), None, case0, 'combined from nothing')
    # mixed and altered parts
    entropy.stream('other')
    other = PW.partial_split_private_key(wal.wif(d % (N - 5) + 3, False), m, n)
    other2 = PW.partial_split_private_key(w, m + 1, n + 1) if m < 255 and n < 256 else PW.partial_split_private_key(w, m - 1 or 2, n)
    again = PW.partial_split_private_key(w, m, n)
    entropy.free()
    for foreign, what in ((sorted(other[0])[0], 'another key'), (sorted(other2[0])[0], 'another number of parts')):
        for pos in (0, len(allp) // 2, len(allp)):
            mixed = allp[:pos] + [foreign] + allp[pos:]
            ctx.eq(combine(mixed), 'refused', dict(case0, mixed=what, at=pos), 'mixed with a part of ' + what)
            if pos:
                ctx.eq(combine(mixed, ignore_errors=True), w, dict(case0, mixed=what, at=pos), 'mixed, errors ignored')
    # parts of another split of the same key: never a different key
    for i in range(0, len(allp), 1 + len(allp) // (100 if len(allp) < 5000 else 6)):
        mixed = allp[:i] + [sorted(again[0])[0]] + allp[i + 1:]
        ctx.ok(combine(mixed) in (w, None, 'refused'), dict(case0, again=i), 'mixed splits gave another key')
    one = sorted(groups[0])[0]
    allp = allp if len(allp) < 900 else allp[:4 * m]
    for i in range(0, len(one), 1 if thorough or (m, n) == (2, 3) else 9):
        for a in b'123zZ0':
            t = one[:i] + bytes([a]) + one[i + 1:]
            if t != one:
                ctx.eq(combine([t] + allp), 'refused', dict(case0, altered=t), 'altered part')
                ctx.trans()
    raw = R.decode_check(one)
    for i in range(len(raw)):
        for x in (1, 0x80):
            t = R.encode_check(raw[:i] + bytes([raw[i] ^ x]) + raw[i + 1:])
            got = combine([t] + allp)
            ctx.ok(got in (w, None, 'refused'), dict(case0, altered_payload=i), 'altered part gave another key')
            group = sorted(idx[raw[2]] - {one}) + [t]
            got = combine(group)
            if i >= 2:
                ctx.ok(got in (None, 'refused') or (i == 2 and m == 1 and got == w), dict(case0, altered_payload=i, x=x), 'altered part accepted: %r' % (got,))
            ctx.trans(2)
    for t in (b'', w, b'6C', R.encode_check(b''), R.encode_check(b'\x10\x02' + raw[2:]), wal.wif(5, True)):
        ctx.eq(combine([t] + allp), 'refused', dict(case0, part=t), 'not a part')
    ctx.raises(lambda: PW.partial_split_private_key(w, n + 1, n), case0, 'more required than there are')


def units(tier):
    th = tier == 'thorough'
    ks = KEYS if th else KEYS[:12]
    for i in range(0, len(ks), 2):
        yield 'split %d' % i, u_split, (ks[i:i + 2], 9 if th else 6)
    yield 'combine', u_combine, (KEYS,)
    for i, a in enumerate(ks):
        yield 'address %d' % i, u_address, (a, KEYS[:20 if th else 10])
    top = 8 if th else 5
    for n in range(1, top + 1):
        for m in range(1, n + 1):
            yield 'sets %d of %d' % (m, n), u_sets, (m, n, KEYS[(m * 7 + n) % len(KEYS)], th)
    for m, n in ((2, 9), (9, 9), (1, 12), (12, 12), (3, 12), (2, 13), (3, 20), (13, 14), (7, 40), (2, 100), (3, 150), (5, 70), (1, 256), (2, 256)) + (((12, 250), (30, 32), (128, 130), (3, 256)) if th else ()):
        yield 'sets %d of %d' % (m, n), u_sets, (m, n, KEYS[(m + n) % len(KEYS)], False)
