"""C20: Base58 and Base58Check."""
from nbc.util import base58 as impl
from ..ref import base58 as ref

LEVEL = 'exploration'
RULE = ('byte strings / base58 strings enumerated completely up to the stated lengths plus structured longer ones; '
        'mutations are all single-character edits; a case is non-trivial when its input differs from every other')
BOUNDS = dict(quick='bytes <= 2, base58 strings <= 3 chars, structured to 100 bytes and selected to 2000, all single edits of 14 payloads',
              thorough='bytes <= 2 and all 3-byte strings, base58 strings <= 4 chars, structured to 300 bytes, '
                       'all single edits of 14 payloads and all adjacent double substitutions of 2')
A = ref.ALPHABET


def enc(ctx, data):
    ctx.eval()
    ctx.current = data
    t = impl.b58encode(data)
    ctx.eq(t, ref.encode(data), data, 'b58encode')
    ctx.eq(impl.b58decode(t), data, data, 'b58decode(b58encode)')
    ctx.eq(impl.b58decode(t.decode()), data, data, 'b58decode of text')


def u_bytes(ctx, first, n):
    if n == 1:
        for b in range(256):
            enc(ctx, bytes([b]))
        enc(ctx, b'')
        ctx.distinct(257)
        return
    if n == 2:
        for a in range(first, first + 32):
            for b in range(256):
                enc(ctx, bytes([a, b]))
        ctx.distinct(32 * 256)
        return
    for a in range(first, first + 4):
        for b in range(256):
            for c in range(256):
                d = bytes([a, b, c])
                t = impl.b58encode(d)
                if t != ref.encode(d) or impl.b58decode(t) != d:
                    ctx.fail(d, 'b58encode/b58decode differ from the standard')
    ctx.eval(4 * 65536)
    ctx.distinct(4 * 65536)


def structured(top):
    for z in list(range(0, 12)) + [19, 20, 21, 31, 32, 33, 64, 78, 82]:
        for tail in (b'', b'\x01', b'\xff', b'\x80', b'\x39', b'\x3a', b'\x01\x00', b'\x00\x00\x01\x00\x00', b'a' * 20, b'\xff' * 33,
                     bytes(range(1, 60))):
            yield b'\0' * z + tail
    for n in (127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2000):
        yield b'\xff' * n
        yield b'\x01' + b'\0' * (n - 1)
        yield b'\0' * n
        yield b'\0' * n + b'\1'
        yield b'\0' * 3 + bytes((i * 37 + n) & 255 for i in range(n))
    for n in range(1, top):
        yield b'\xff' * n
        yield b'\x01' + b'\0' * (n - 1)
        yield bytes((i * 37 + n) & 255 for i in range(n))
        yield (58 ** n).to_bytes((58 ** n).bit_length() // 8 + 1, 'big').lstrip(b'\0')
        yield (58 ** n - 1).to_bytes((58 ** n).bit_length() // 8 + 1, 'big').lstrip(b'\0')


def u_structured(ctx, top):
    for d in structured(top):
        if ctx.state(d):
            enc(ctx, d)
    ctx.sample(d)
    for n in range(0, 60):
        ctx.eq(impl.b58encode_int(n), A[n].encode() if n < 58 else ref.encode(bytes([n])), n, 'b58encode_int')
    ctx.eq(impl.b58encode_int(0, default_one=False), b'', 0, 'b58encode_int without default')


def u_strings(ctx, firsts, n):
    """All base58 strings of exactly n characters that start with one of `firsts`."""
    def rec(prefix):
        if len(prefix) == n:
            ctx.eval()
            want = ref.decode(prefix)
            got = impl.b58decode(prefix.encode())
            if got != want:
                ctx.fail(prefix, 'b58decode: got %s expected %s' % (got.hex(), want.hex()))
            if impl.b58encode(got) != prefix.encode():
                ctx.fail(prefix, 'b58encode(b58decode) is not the string')
            if n <= 3:
                c = impl.decode_check(prefix.encode())
                if c != ref.decode_check(prefix):
                    ctx.fail(prefix, 'decode_check of a short string: %r' % (c,))
            return
        for ch in A:
            rec(prefix + ch)
    for f in firsts:
        rec(f)
    ctx.distinct(len(firsts) * 58 ** (n - 1))


def u_badchars(ctx):
    for good in (ref.encode_check(b'\0' * 21).decode(), ref.encode_check(b'payload').decode(), '1', '2', '11', 'z', 'Cn8eVZg', '1112', ref.encode(b'\0\0hello').decode(), 'zzzzzzzzzzzz'):
        for i in range(len(good) + 1):
            for b in range(256):
                ch = bytes([b])
                if ch.decode('latin-1') in A:
                    continue
                for s in (good[:i].encode() + ch + good[i:].encode(), good[:i].encode() + ch + good[i + 1:].encode()):
                    if not ctx.state(s):
                        continue
                    ctx.eval()
                    ctx.raises(lambda: impl.b58decode(s), s, 'b58decode of a string with a foreign character')
                    try:
                        r = impl.decode_check(s)
                    except Exception:
                        r = None
                    ctx.ok(r is None, s, 'decode_check accepted a string with a foreign character')
                    if b < 128:
                        t = s.decode()
                        ctx.raises(lambda: impl.b58decode(t), t, 'b58decode of text with a foreign character')
                        try:
                            r = impl.decode_check(t)
                        except Exception:
                            r = None
                        ctx.ok(r is None, t, 'decode_check accepted text with a foreign character')
    for s in (u'caf\xe9', u'1\u0131', u'\uff11'):
        ctx.raises(lambda: impl.b58decode(s), s, 'b58decode of non-ASCII text')


PAYLOADS = [b'', b'\0', b'\x80' + b'\x01' * 32, b'\x80' + b'\0' * 31 + b'\x01' + b'\x01', b'\0' + b'ffff' + b'\xab' * 32,
            b'\0' * 20, b'\0' * 4, b'\x6f' + b'0000' + bytes(range(32)), b'\x04\x88\xb2\x1e' + bytes(74), b'\xff' * 34, b'a', b'\0a', b'ab',
            bytes(range(37))]


def tamper(ctx, s, orig, base):
    if not ctx.state(s):
        return
    ctx.eval()
    want = ref.decode_check(s)
    try:
        got = impl.decode_check(s)
    except Exception:
        got = None
    if got != want:
        ctx.fail((base, s), 'decode_check of an altered string: got %r expected %r' % (got, want))
    try:
        got = impl.decode_check(s.decode())
    except Exception:
        got = None
    if got != want:
        ctx.fail((base, s), 'decode_check of altered text: got %r expected %r' % (got, want))
    ctx.outcome('accepted' if want is not None else 'refused')


def u_check(ctx, i):
    d = PAYLOADS[i]
    t = impl.encode_check(d)
    ctx.eq(t, ref.encode_check(d), d, 'encode_check')
    ctx.eq(impl.decode_check(t), d, d, 'decode_check(encode_check)')
    ctx.eq(impl.decode_check(t.decode()), d, d, 'decode_check of text')
    ctx.sample((d, t))
    s = t.decode()
    for p in range(len(s)):
        tamper(ctx, (s[:p] + s[p + 1:]).encode(), d, s)
        tamper(ctx, (s[:p] + s[p + 1:p + 2] + s[p:p + 1] + s[p + 2:]).encode(), d, s)
        tamper(ctx, s[:p].encode(), d, s)
        for c in A:
            tamper(ctx, (s[:p] + c + s[p + 1:]).encode(), d, s)
            tamper(ctx, (s[:p] + c + s[p:]).encode(), d, s)
    for c in A:
        tamper(ctx, (s + c).encode(), d, s)
    if ctx.thorough and i in (3, 6):
        for p in range(len(s) - 1):
            for c in A:
                for e in A:
                    tamper(ctx, (s[:p] + c + e + s[p + 2:]).encode(), d, s)
    # every bit of the raw checksum
    raw = ref.decode(s)
    for bit in range(32):
        r = bytearray(raw)
        r[len(raw) - 4 + bit // 8] ^= 1 << (bit % 8)
        tamper(ctx, ref.encode(bytes(r)), d, s)


def units(tier):
    th = tier == 'thorough'
    yield 'bytes1', u_bytes, (0, 1)
    for f in range(0, 256, 32):
        yield 'bytes2-%d' % f, u_bytes, (f, 2)
    yield 'structured', u_structured, (300 if th else 100,)
    for n in (1, 2):
        yield 'strings%d' % n, u_strings, (A, n)
    for i in range(0, 58, 8):
        yield 'strings3-%d' % i, u_strings, (A[i:i + 8], 3)
    yield 'badchars', u_badchars, ()
    for i in range(len(PAYLOADS)):
        yield 'check-%d' % i, u_check, (i,)
    if th:
        for c in A:
            yield 'strings4-' + c, u_strings, (c, 4)
        for f in range(0, 256, 4):
            yield 'bytes3-%d' % f, u_bytes, (f, 3)
