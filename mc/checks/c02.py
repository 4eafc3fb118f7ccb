"""C02: malformed protocol data is rejected, never misread."""
import itertools
import sys
import time

from nbc import coins
from nbc.protocol import format as F, messages as M
from .. import msgs as G
from ..ref import wire as R

LEVEL = 'fault_enumeration'
RULE = 'every listed damage of every listed frame: truncations, byte values, counts, lengths, header fields; every short payload; distinct by frame bytes'
BOUNDS = dict(quick='17 commands: every payload of at most 2 bytes, of 3 and 4 bytes over a 12-symbol alphabet; 4 payloads per command with every truncation, every byte set to 10 values (all 256 for payloads up to 120 bytes), every two-byte insertion and removal; every count and length replaced by 30 claims up to 2^64-1; every header byte set to all 256 values, every length claim, every truncation of the frame; 8000 commands; work counted in function calls',
              thorough='payloads of 3 bytes complete for 5 commands, 5 bytes over the alphabet; all 256 values of every byte of every payload; pairs of changed bytes in the first 12 bytes')
ASSUMPTIONS = ['bytes after the last field may be ignored or refused (later protocol versions append fields)', 'non-canonical var-ints and lists beyond the documented maximum may be refused or read as what they denote',
               'a frame followed by other bytes is cut before parsing (C03)']
MAGIC = coins.Newbitcoin.magic
ALPHA = (0, 1, 2, 3, 4, 0x20, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff)


def judge(ctx, command, payload, fr=None, quiet=False):
    """Parses a well-formed frame with any payload and compares with the reference decoder."""
    t = G.schema(command)
    if fr is None:
        fr = R.frame(MAGIC, command, payload)
    ctx.current = fr
    try:
        want, end = R.dec(t, payload)
    except R.Bad:
        want = None
    ctx.eval()
    try:
        m = M.Message.parse(fr, MAGIC)
    except Exception as e:
        if want is not None and end == len(payload) and R.limits(t, want) and R.enc(t, want) == payload:
            ctx.fail(dict(frame=fr, command=command), 'valid data refused: %s' % str(e)[:200])
        ctx.outcome('refused')
        return None
    if want is None:
        ctx.fail(dict(frame=fr, command=command), 'malformed payload gave %s' % str(m)[:300])
    if m.command != command:
        ctx.fail(dict(frame=fr, command=command), 'read as %s' % m.command)
    got = R.canon(t, m)
    if got != want:
        ctx.fail(dict(frame=fr, command=command), 'fields %r, encoded %r' % (str(got)[:300], str(want)[:300]))
    again = m.binary(MAGIC)
    if again != R.frame(MAGIC, command, R.enc(t, want)):
        ctx.fail(dict(frame=fr, command=command), 'serialised again as %r' % again)
    if not quiet:
        str(m)
        if hasattr(m, '_debug'):
            m._debug()
    ctx.outcome('read')
    return m


def short(ctx, command, part, parts):
    th = ctx.thorough
    n = 0
    for k in range(3):
        for b in itertools.product(range(256), repeat=k):
            if k == 2 and b[0] % parts != part or k < 2 and part:
                continue
            judge(ctx, command, bytes(b))
            n += 1
    for k in (3, 4, 5) if th else (3, 4):
        for b in itertools.product(ALPHA, repeat=k):
            if b[0] % parts == part:
                judge(ctx, command, bytes(b))
                n += 1
    if th and command in ('reject', 'addr', 'alert', 'headers', 'inv'):
        for b in itertools.product(range(256), repeat=3):
            if b[0] % parts == part:
                judge(ctx, command, bytes(b), quiet=True)
                n += 1
    ctx.distinct(n)


def bases(command, full=False):
    t = G.schema(command)
    out = [R.encode(t, v) for v in G.values(t, False)]
    base = G.values(t, False)[0]
    for n, f in t[1]:
        if f[0] == 'array':
            for v in G.values(f, False)[:3]:
                out.append(R.encode(t, dict(base, **{n: v})))
        if f[0] in ('varstr', 'varint', 'ip'):
            for v in G.values(f, False):
                out.append(R.encode(t, dict(base, **{n: v})))
    return sorted(set(out), key=len)[:None if full else 4]


def damage(ctx, command, part, parts):
    k = 0

    def go(p):
        nonlocal k
        k += 1
        if k % parts == part:
            if ctx.state((command, p)):
                judge(ctx, command, p)
    for p in bases(command, True):
        ctx.sample(dict(command=command, payload=p[:100]))
        for n in range(len(p) + 1):
            go(p[:n])
        for tail in (b'\0', b'\1', b'\xff', bytes(9), b'\xff' * 40):
            go(p + tail)
    for p in bases(command, ctx.thorough):
        every = ctx.thorough or len(p) <= 120
        for j in range(min(len(p), 1500)):
            for v in range(256) if every else (0, 1, 2, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, p[j] ^ 1):
                if v != p[j]:
                    go(p[:j] + bytes([v]) + p[j + 1:])
        for j in range(min(len(p), 400)):
            go(p[:j] + p[j + 1:])
            go(p[:j] + p[j + 2:])
            for ins in (b'\0', b'\xff', b'\0\0', b'\1\0', b'\xfd\1'):
                go(p[:j] + ins + p[j:])
        if ctx.thorough:
            for a, b in itertools.combinations(range(min(len(p), 12)), 2):
                for x, y in itertools.product(ALPHA, repeat=2):
                    q = bytearray(p)
                    q[a], q[b] = x, y
                    go(bytes(q))


CLAIMS = [0, 1, 2, 3, 5, 0x7f, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x3e8, 0x3e9, 0x7fff, 0x8000, 0xffff, 0x10000, 50000, 50001, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, (1 << 32) + 1, (1 << 40), (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


class Work(object):
    """Counts function calls made by the code; stops it when far beyond the size of the data."""

    def __init__(self, limit):
        self.n, self.limit = 0, limit

    def __call__(self, frame, event, arg):
        if event in ('call', 'c_call'):
            self.n += 1
            if self.n > self.limit:
                sys.setprofile(None)
                raise MemoryError('work beyond the size of the data')

    def run(self, f):
        sys.setprofile(self)
        try:
            return f()
        finally:
            sys.setprofile(None)


def counts(t, b, o=0, out=None):
    """Offsets of all var-int counts and lengths in a payload."""
    k = t[0]
    if k in ('varint', 'varstr', 'array'):
        n, e = R.dec(R.VARINT, b, o)
        out.append((o, e))
        if k == 'varint':
            return e
        if k == 'varstr':
            return e + n
        for _ in range(n):
            e = counts(t[1], b, e, out)
        return e
    if k == 'struct':
        for n, f in t[1]:
            o = counts(f, b, o, out)
        return o
    return R.dec(t, b, o)[1]


def claims(ctx, command, part, parts):
    t = G.schema(command)
    k = 0
    for p in bases(command, True):
        offs = []
        counts(t, p, 0, offs)
        for (a, e), n in itertools.product(offs[:12], CLAIMS):
            forms = [R.varint(n)]
            for pre, size in ((b'\xfd', 2), (b'\xfe', 4), (b'\xff', 8)):
                if n < 1 << 8 * size:
                    forms.append(pre + n.to_bytes(size, 'little'))
            for form in forms:
                for tail in (p[e:], b'', p[e:e + 1], bytes(40)):
                    k += 1
                    if k % parts != part:
                        continue
                    q = p[:a] + form + tail
                    if not ctx.state((command, q)):
                        continue
                    fr = R.frame(MAGIC, command, q)
                    ctx.current = dict(frame=fr, claim=n)
                    w = Work(400 + 120 * len(q))

                    def parse():
                        try:
                            M.Message.parse(fr, MAGIC)
                        except Exception:
                            pass
                    w.run(parse)
                    if w.n > w.limit:
                        ctx.fail(dict(frame=fr, claim=n, calls=w.n), 'work is not bounded by the size of the data')
                    judge(ctx, command, q)


def heavy(ctx, command, item, n):
    """Large legal and illegal messages take time proportional to their size."""
    field, f = [(n_, f_) for n_, f_ in G.schema(command)[1] if f_[0] == 'array'][0]
    one = R.encode(f[1], item)
    base = G.values(G.schema(command), False)[0]

    def measure(count, claim):
        parts_ = []
        for n_, f_ in G.schema(command)[1]:
            parts_.append(R.varint(claim) + one * count if n_ == field else R.encode(f_, base[n_]))
        fr = R.frame(MAGIC, command, b''.join(parts_))
        best = None
        for _ in range(3):
            t0 = time.process_time()
            try:
                M.Message.parse(fr, MAGIC)
            except Exception:
                pass
            d = time.process_time() - t0
            best = d if best is None else min(best, d)
            if d > 12:
                break
        return best
    ctx.current = dict(command=command, items=n)
    a, b = measure(n // 8, n // 8), measure(n, n)
    c = measure(n, 1 << 40)
    ctx.notes.update({'seconds for %d items of %s' % (n, command): round(b, 3)})
    ctx.eval(3)
    ctx.state((command, n))
    # eight times the data: linear work is about 8 times, quadratic 64 times
    for x in (b, c):
        if x > 25 * max(a, 0.02) and x > 1.0:
            ctx.fail(dict(command=command, items=n), 'eight times the data took %.2f s instead of %.2f s' % (x, a))


def header(ctx, part, parts):
    k = 0
    for command in ('ping', 'verack', 'version', 'inv', 'tx'):
        p = bases(command)[-1]
        good = R.frame(MAGIC, command, p)

        def bad(fr, what):
            nonlocal k
            k += 1
            if k % parts != part or fr == good:
                return
            ctx.current = case = dict(frame=fr[:400], what=what)
            ctx.eval()
            try:
                m = M.Message.parse(fr, MAGIC)
            except Exception:
                ctx.outcome('refused')
                ctx.state(fr)
                return
            ctx.fail(case, 'accepted as %s' % str(m)[:200])
        for j in range(24):
            for v in range(256):
                if v != good[j]:
                    fr = good[:j] + bytes([v]) + good[j + 1:]
                    name = fr[4:16].rstrip(b'\0').decode('latin-1')
                    if fr[:4] == MAGIC and name in R.MESSAGES and fr[16:] == good[16:] or name in R.UNREGISTERED:
                        continue
                    bad(fr, 'header byte %d' % j)
        for n in range(len(good)):
            bad(good[:n], 'cut at %d' % n)
        for n in list(range(0, 300)) + CLAIMS + [len(p) + 1, len(p) - 1, len(p) + 24]:
            if 0 <= n < 1 << 32 and n != len(p):
                bad(good[:16] + n.to_bytes(4, 'little') + good[20:], 'length %d' % n)
                # with the checksum of what is there
                bad(good[:16] + n.to_bytes(4, 'little') + R.dsha(p)[:4] + p if n > len(p) else good[:16] + n.to_bytes(4, 'little') + good[20:], 'longer length, checksum of what is there')
        for j in range(len(p)):
            for v in (1, 0x80, 0xff):
                bad(good[:24 + j] + bytes([p[j] ^ v]) + good[25 + j:], 'payload changed')
        d = R.dsha(p)
        import hashlib
        for cs in (d[:4][::-1], d[4:8], d[-4:], hashlib.sha256(p).digest()[:4], bytes(4), R.dsha(good[:20] + p)[:4], R.dsha(b'')[:4], R.dsha(R.dsha(p))[:4]):
            bad(good[:20] + cs + p, 'checksum')
        for mg in (bytes(4), MAGIC[::-1], b'\xf9\xbe\xb4\xd9', MAGIC[:3] + b'\0', b'\0' + MAGIC[1:]):
            bad(mg + good[4:], 'magic')
            if k % parts == part:   # and a message is read with its own magic only
                own = mg + good[4:]
                ctx.eq(M.Message.parse(own, mg).magic, mg, dict(magic=mg), 'own magic')
            k += 1


def commands(ctx):
    """Only the exact zero-padded names denote messages."""
    names = set()
    for c in list(R.MESSAGES) + list(R.UNREGISTERED):
        b = c.encode()
        for j in range(len(b) + 1):
            names.add(b[:j])
            for x in (b'\0', b' ', b'x', b'\xff', b'\n'):
                names.add(b[:j] + x + b[j:])
                names.add(b[:j] + x + b[j + 1:])
        names |= {b.upper(), b.title(), b[::-1], b'\0' + b, b'\0\0' + b, b + b'\0x', b + b' ', b + b'\0' + b, b + b + b}
        names.add(G.schema(c) and getattr(M, (R.MESSAGES.get(c) or R.UNREGISTERED[c])[0]).name.encode() if isinstance(getattr(M, (R.MESSAGES.get(c) or R.UNREGISTERED[c])[0]).name, str) else b)
    names |= {b'', b'None', b'Message', b'object', b'binary', b'\xff' * 12, b'__class__', b'sendheaders', b'feefilter'}
    payloads = {c: R.encode(G.schema(c), G.values(G.schema(c), False)[0]) for c in R.MESSAGES}
    for n in sorted(x for x in names if len(x) <= 12):
        known = n.rstrip(b'\0').decode('latin-1')
        for p in sorted(set(payloads.values())):
            fr = MAGIC + n.ljust(12, b'\0') + len(p).to_bytes(4, 'little') + R.dsha(p)[:4] + p
            ctx.current = case = dict(frame=fr[:300])
            ctx.eval()
            if known in R.MESSAGES:
                judge(ctx, known, p, fr)
            elif known in R.UNREGISTERED:
                continue
            else:
                try:
                    m = M.Message.parse(fr, MAGIC)
                except Exception:
                    ctx.outcome('unknown')
                else:
                    ctx.fail(case, 'unknown command gave %s' % str(m)[:200])
            ctx.state(fr)
    # classes which declare not_regist are not known on the wire, others are
    ctx.current = case = dict(registered=True)
    a = type('Mine', (M.Message,), dict(command='mine', properties=[('n', F.FtNumber('I'))]))
    b = type('Hidden', (M.Message,), dict(command='hidden', not_regist=True, properties=[]))
    c = type('Ping', (M.Ping,), dict(command='ping', not_regist=True, properties=[]))
    fr = R.frame(MAGIC, 'mine', b'\1\2\3\4')
    ctx.eq(M.Message.parse(fr, MAGIC).n, 0x04030201, case, 'registered class')
    ctx.raises(lambda: M.Message.parse(R.frame(MAGIC, 'hidden', b''), MAGIC), case, 'class with not_regist')
    ctx.ok(type(M.Message.parse(R.frame(MAGIC, 'ping', bytes(8)), MAGIC)) is M.Ping, case, 'class with not_regist replaced another')


def units(tier):
    th = tier == 'thorough'
    yield 'commands', commands, ()
    for p in range(2):
        yield 'header %d' % p, header, (p, 2)
    inv = dict(object_type=1, hash=bytes(32))
    yield 'heavy inv', heavy, ('inv', inv, 60000)
    yield 'heavy getblocks', heavy, ('getblocks', bytes(32), 160000)
    yield 'heavy addr', heavy, ('addr', dict(timestamp=1, services=1, address='1.2.3.4', port=1), 40000)
    yield 'heavy tx', heavy, ('tx', dict(previous_output=dict(hash=bytes(32), index=1), signature_script=b'', sequence=1), 40000)
    yield 'heavy headers', heavy, ('headers', G.values(R.HEAD, False)[0], 30000)
    for c in R.MESSAGES:
        n = 8 if th else 1
        for p in range(n):
            yield 'short %s %d' % (c, p), short, (c, p, n)
        n = 8 if th else 2 if c in ('version', 'tx', 'block', 'headers') else 1
        for p in range(n):
            yield 'damage %s %d' % (c, p), damage, (c, p, n)
            yield 'claims %s %d' % (c, p), claims, (c, p, n)
