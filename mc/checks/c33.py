"""C33: alerts show exactly what was signed."""
import itertools

from .. import entropy   # before nbc
from nbc import coins
from nbc.protocol import messages as M
from .. import fast, msgs as G
from ..ref import wire as R, wal, ec, derref as X
from .c21 import ref_verify, hnum

LEVEL = 'fault_enumeration'
RULE = 'every listed alert payload, every damage of it, every order of reading two and three fields; every listed signature x key x payload; distinct by payload bytes or (payload, key, signature)'
BOUNDS = dict(quick='payloads with every boundary value of every field and all two-value combinations of lists and strings; every truncation, every byte set to 12 values, every insertion and removal, every count claim; payloads of at most 2 bytes; every permutation of reading 4 fields and every repeated pair; signatures of 5 payloads by 3 keys and every single-byte change',
              thorough='all 256 values per byte, all one- and two-field combinations, 12 payloads signed')
ASSUMPTIONS = ['bytes after the last field may be ignored', 'large-number arithmetic is replaced by the reference (decided by C22/C23/C27)', 'several sub-versions may be any strings']
MAGIC = coins.Newbitcoin.magic
FIELDS = [n for n, f in R.ALERT[1]]
N = wal.N


def make(payload, sig=b'sig', via='build'):
    if via == 'build':
        return M.Alert(payload, sig)
    if via == 'text':
        return M.Alert(payload.decode('latin-1'), sig)
    return M.Message.parse(R.frame(MAGIC, 'alert', R.varint(len(payload)) + payload + R.varint(len(sig)) + sig), MAGIC)


def read(a, n):
    try:
        v = getattr(a, n)
    except Exception as e:
        return 'raised'
    return R.canon(dict(R.ALERT[1])[n], v)


def judge(ctx, payload, orders, via=('build', 'parse', 'text')):
    try:
        want, end = R.dec(R.ALERT, payload)
        want = dict(want)
    except R.Bad:
        want = dict.fromkeys(FIELDS, 'raised')
    for v in via:
        for order in orders:
            ctx.current = case = dict(payload=payload, via=v, order=order)
            ctx.eval()
            a = make(payload, via=v)
            for n in order:
                if n == 'str':
                    ctx.ok(isinstance(str(a), str), case, 'text')
                elif n == 'binary':
                    ctx.eq(a.binary(MAGIC), R.frame(MAGIC, 'alert', R.varint(len(payload)) + payload + b'\3sig'), case, 'wire bytes')
                elif n == '_debug':
                    if hasattr(a, '_debug'):
                        ctx.ok(isinstance(a._debug(), str), case, 'log text')
                else:
                    got = read(a, n)
                    if got != want[n]:
                        ctx.fail(case, 'field %s: got %r, encoded %r' % (n, got, want[n]))
    ctx.outcome('malformed' if want['version'] == 'raised' else 'read')
    if ctx.state(payload):
        ctx.sample(dict(payload=payload))


ALL = tuple(FIELDS)
ORDERS = [ALL, ALL[::-1] + ALL, ('str',) + ALL, ('_debug', 'str', 'binary') + ALL + ('str',), ('reserved', 'reserved', 'version', 'version')]


def valid(ctx, part, parts):
    vals = G.values(R.ALERT, True)
    base, other = vals[0], vals[1]
    lists = ['set_cancel', 'set_sub_ver', 'comment', 'status_bar', 'reserved']
    for pick in itertools.product((0, 1, 2), repeat=len(lists)):
        vals.append(dict(base, **{n: (base, other, dict.fromkeys(lists, []) if p == 2 and n.startswith('set') else dict.fromkeys(lists, b''))[p][n] for p, n in zip(pick, lists)}))
    if ctx.thorough:
        for (n, f), (n2, f2) in itertools.combinations(R.ALERT[1], 2):
            for a, b in itertools.product(G.values(f, True)[:24], G.values(f2, True)[:24]):
                if len(repr(a)) + len(repr(b)) < 5000:
                    vals.append(dict(base, **{n: a, n2: b}))
    for j, v in enumerate(vals):
        if j % parts == part:
            judge(ctx, R.encode(R.ALERT, v), ORDERS if j < 300 else ORDERS[:1])


def orders(ctx):
    vals = G.values(R.ALERT, False)
    pays = [R.encode(R.ALERT, v) for v in vals]
    pays += [pays[0][:n] for n in (0, 5, 27, 28, 29, len(pays[0]) // 2, len(pays[0]) - 1)]
    for p in pays:
        judge(ctx, p, list(itertools.permutations(('version', 'set_sub_ver', 'reserved', 'str', 'priority'))), ('build', 'parse'))
        judge(ctx, p, [x for x in itertools.product(ALL + ('str', 'binary', '_debug'), repeat=2)], ('parse',))
    # alerts do not share their fields
    for a, b in itertools.product(pays, repeat=2):
        x, y = make(a), make(b, via='parse')
        ctx.current = case = dict(two=(a, b))
        for n in ('status_bar', 'id', 'set_cancel', 'reserved'):
            for o, p in ((x, a), (y, b), (x, a)):
                try:
                    want = dict(R.dec(R.ALERT, p)[0])[n]
                except R.Bad:
                    want = 'raised'
                ctx.eq(read(o, n), want, case, 'field %s of one of two alerts' % n)
        ctx.eval()


def damage(ctx, part, parts):
    from .c02 import counts, CLAIMS
    k = 0
    short = [ALL]

    def go(p):
        nonlocal k
        k += 1
        if k % parts == part:
            judge(ctx, p, [ALL[::-1] if k % 2 else ('status_bar',) + ALL], ('parse',) if k % 3 else ('build',))
    vals = G.values(R.ALERT, False)
    vals.append(dict(vals[0], set_cancel=[], set_sub_ver=[], comment=b'', status_bar=b'', reserved=b''))
    vals.append(dict(vals[0], set_cancel=[1, 2, 3], set_sub_ver=[b'/a/', b'/bb/'], comment=b'c', status_bar=b'URGENT', reserved=b'r'))
    for v in vals:
        p = R.encode(R.ALERT, v)
        for n in range(len(p) + 1):
            go(p[:n])
        for t in (b'\0', b'more', b'\xff' * 10):
            go(p + t)
        for j in range(min(len(p), 420)):
            for x in range(256) if ctx.thorough or len(p) < 80 else (0, 1, 2, 3, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, p[j] ^ 1, p[j] ^ 0x80):
                go(p[:j] + bytes([x]) + p[j + 1:])
            go(p[:j] + p[j + 1:])
            go(p[:j] + b'\0' + p[j:])
            go(p[:j] + b'\xff' + p[j:])
        offs = []
        counts(R.ALERT, p, 0, offs)
        for (a, e), n in itertools.product(offs, CLAIMS):
            go(p[:a] + R.varint(n) + p[e:])
            go(p[:a] + R.varint(n))
            for pre, size in ((b'\xfd', 2), (b'\xfe', 4), (b'\xff', 8)):
                if n < 1 << 8 * size:
                    go(p[:a] + pre + n.to_bytes(size, 'little') + p[e:])
    for n in range(3):
        for b in itertools.product(range(256), repeat=n):
            if n < 2 or b[0] % 32 == 0:
                go(bytes(b))


def signed(ctx, part, parts):
    fast.on()
    vals = G.values(R.ALERT, False)
    pays = [R.encode(R.ALERT, v) for v in vals] + [b'', b'x', R.encode(R.ALERT, vals[0])[:-1], R.encode(R.ALERT, dict(vals[0], id=5)), R.encode(R.ALERT, vals[0]) + b'\0']
    empty = dict(vals[0], comment=b'', status_bar=b'', reserved=b'')
    pays += [R.encode(R.ALERT, empty), R.encode(R.ALERT, empty) + b'\0', R.encode(R.ALERT, empty)[:-1], R.encode(R.ALERT, dict(empty, status_bar=b' text \r\n')), R.encode(R.ALERT, dict(empty, reserved=b'\n'))]
    keys = [3, N - 2, 0x1234567 << 200]
    pubs = {}
    for d in keys:
        Q = wal.c.mul(d, wal.G)
        x, y = Q[0].to_bytes(32, 'big'), Q[1].to_bytes(32, 'big')
        pubs[d] = [b'\x04' + x + y, bytes([2 + (Q[1] & 1)]) + x]
    sigs = []
    for p in pays:
        for d in keys:
            for nonce in (7, 0x55 << 230):
                rs = ec.sign(wal.c, wal.G, N, d, hnum(p), nonce)
                sigs.append((p, d, X.sig(*rs)))
    k = 0
    # one alert object asked with several keys
    for (p, d, sig), via, order in itertools.product(sigs[part::parts], ('build', 'parse'), itertools.permutations(keys)):
        a = make(p, sig, via)
        for d2 in order + order[:1]:
            for pub in pubs[d2]:
                ctx.current = case = dict(payload=p, key=pub, signature=sig, order=order, note='one object')
                ctx.eq(a.verify(pub), ref_verify(p, pub, sig)[1], case, 'verification')
                ctx.eval()
    k = 0

    def check(p, pub, sig, note):
        nonlocal k
        k += 1
        if k % parts != part:
            return
        ctx.current = case = dict(payload=p, key=pub, signature=sig, note=note)
        must, may = ref_verify(p, pub, sig)
        for via in ('build', 'parse') + (('text',) if k % 7 == 0 else ()):
            a = make(p, sig, via)
            if k % 2:
                read(a, 'status_bar')
            if k % 3 == 0:
                for n in ('reserved', 'set_cancel', 'comment'):
                    read(a, n)
            got = a.verify(pub)
            ctx.eval()
            ctx.ok(isinstance(got, bool), case, 'answer %r' % (got,))
            if must and not got or got and not may:
                ctx.fail(case, 'verification gave %r' % got)
            if k % 5 == 0:
                ctx.eq(a.verify(pub), got, case, 'verified again')
        ctx.state((p, pub, sig))
        ctx.outcome('verified' if got else 'refused')
    for (p, d, sig), p2, d2 in itertools.product(sigs, pays, keys):
        for pub in pubs[d2]:
            check(p2, pub, sig, 'cross')
    for p, d, sig in sigs[::5] if not ctx.thorough else sigs:
        pub = pubs[d][0]
        for j in range(len(sig)):
            for x in (1, 0x80, 0xff):
                check(p, pub, sig[:j] + bytes([sig[j] ^ x]) + sig[j + 1:], 'changed')
            check(p, pub, sig[:j], 'cut')
        for j in range(len(p)):
            check(p[:j] + bytes([p[j] ^ 1]) + p[j + 1:], pub, sig, 'payload changed')
            check(p[:j], pub, sig, 'payload cut')
        for j in range(len(pub)):
            check(p, pub[:j] + bytes([pub[j] ^ 1]) + pub[j + 1:], sig, 'key changed')
        check(p, coins.Newbitcoin.alert_public_key, sig, 'coin key')
        for q in (b'', b'\4', bytes(65), b'\x04' + bytes(64)):
            check(p, q, sig, 'bad key')


def units(tier):
    for p in range(4):
        yield 'valid %d' % p, valid, (p, 4)
        yield 'damage %d' % p, damage, (p, 4)
        yield 'signed %d' % p, signed, (p, 4)
    yield 'orders', orders, ()
