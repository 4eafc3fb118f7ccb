"""C16: wrong passphrases and damaged private-key fields."""
import json
import os

from .. import wfiles as F, fast
from ..wfiles import W, Spec
from ..ref import wal

LEVEL = 'fault_enumeration'
RULE = 'every listed passphrase and every listed alteration of the private-key field of every listed file; distinct by (file, passphrase) and file text'
BOUNDS = dict(quick='7 wallets x 4 passphrases x (every single-bit change, length change, one- and two-character passphrase: about 900 wrong passphrases); per file every nibble of the field set to all 16 values, every truncation, extension, block swap, duplication and removal, replaced fields; keys whose fingerprints differ in one byte only; every one-character change and truncation of the whole file (also of 3 public HD wallets), chain codes of 0..70 bytes, unknown types, missing fields',
              thorough='7 wallets x 8 passphrases x all two-byte passphrases; pairs of changed nibbles in the length field and the first block')
ASSUMPTIONS = ['passphrases with equal first 16 bytes after zero padding are the same key', 'large-number arithmetic is replaced by the reference (decided by C22/C23/C27)']
N = wal.N
WS = [Spec('addr', 0x5a5a << 200 | 3, True, True, False, 1), Spec('addr', N - 3, True, False, True, 0xffff), Spec('hd', 1, True, True, False, 0),
      Spec('hd', N - 77, True, True, True, 5, (3, b'\1\2\3\4', 0x80000000, bytes(range(32)))), Spec('hd', 0x1234 << 90, True, True, False, 9, (1, b'abcd', 7, bytes(32))),
      Spec('addr', 1, True, True, True, 0), Spec('hd', (1 << 255) + 9, True, True, False, 0x8000)]
PUBLIC = [Spec('hd', 5, False, True, False, 3), Spec('hd', N - 9, False, True, True, 0xffff, (3, b'\1\2\3\4', 0x7fffffff, bytes(range(32)))), Spec('hd', 0x77 << 180, False, True, False, 0, (255, b'abcd', 7, bytes(32)))]
PASS = [b'pw', b'0123456789abcdef', b'longer than sixteen bytes', b'\xff', b'\0\1', b'A' * 15, b'correct horse battery staple', b'z']


def norm(p):
    return p[:16].ljust(16, b'\0')


def attempt(ctx, path, pw, spec, case, must_raise=False):
    """Loading raises or gives the original keys."""
    ctx.current = case
    ctx.eval()
    try:
        w = W.loadFrom(path, pw)
    except Exception as e:
        ctx.outcome('refused')
        return False
    if F.keyview(w) != F.keyview(spec.make()):
        ctx.fail(case, 'loaded a wallet with other keys: %r' % (F.view(w),))
    if must_raise:
        ctx.fail(case, 'loaded')
    ctx.outcome('original')
    return True


def wrong(pw, th):
    out = {b'\0', b'wrong', pw + b'x', b'x' + pw, pw[:-1], pw[1:], pw[::-1], pw.swapcase(), pw * 2, pw + b'\0', b'\0' + pw, pw.strip() + b' '}
    base = norm(pw)
    for i in range(16):
        for b in range(8):
            out.add(base[:i] + bytes([base[i] ^ 1 << b]) + base[i + 1:])
    for a in range(256):
        out.add(bytes([a]))
        for b in range(256) if th else (0, 1, 32, 97, 255):
            out.add(bytes([a, b]))
    for n in range(1, 20):
        out |= {pw[:n], bytes([n]) * 16}
    out.discard(b'')
    return sorted(out)


def u_wrong(ctx, i, pw, part, th):
    fast.on()
    os.fsync = lambda fd: None
    s = WS[i]
    with F.Scratch() as scratch:
        path = scratch('w')
        W.saveTo(path, s.make(), pw)
        ctx.ok(attempt(ctx, path, pw, s, dict(wallet=s.key(), passphrase=pw)), dict(wallet=s.key(), passphrase=pw), 'the right passphrase is refused')
        for bad in wrong(pw, th)[part::4]:
            case = dict(wallet=s.key(), saved_with=pw, loaded_with=bad)
            F.prompt()
            attempt(ctx, path, bad, s, case)
            ctx.state((i, pw, bad))
            if len(bad) == 1 and bad.decode('latin-1').strip() == bad.decode('latin-1'):      # typed
                F.prompt('', bad.decode('latin-1'))
                attempt(ctx, path, '', s, dict(case, typed=True))
        F.prompt()
        attempt(ctx, path, pw, s, dict(wallet=s.key(), passphrase=pw, again=True))
    ctx.sample(case)


def fields(f, enc, pw, th):
    """Altered private-key fields (hex text)."""
    out = []
    for i in range(len(f)):
        for c in '0123456789abcdef':
            out.append(f[:i] + c + f[i + 1:])
    for i in range(0, len(f)):
        out += [f[:i], f[i:], f[:i] + f[i + 1:], f[:i] + '0' + f[i:]]
        if i % 2 == 0:
            out += [f[:i] + f[i + 2:], f[:i] + '00' + f[i:], f[:i] + f[i:i + 2] * 2 + f[i + 2:], f[:i] + f[i + 2:i + 4] + f[i:i + 2] + f[i + 4:]]
    blocks = [f[i:i + 32] for i in range(0, len(f), 32)]
    for i in range(len(blocks)):
        for j in range(len(blocks)):
            b = list(blocks)
            b[i], b[j] = b[j], b[i]
            out.append(''.join(b))
            out.append(''.join(blocks[:i] + [blocks[j]] + blocks[i:]))
            out.append(''.join(blocks[:i] + [blocks[j]] + blocks[i + 1:]))
        out.append(''.join(blocks[:i] + blocks[i + 1:]))
    for e in ('00', '0' * 30, '0' * 32, '0' * 34, 'ff', 'f' * 32, f):
        out += [f + e, e + f]
    out += ['', '00', '0' * 32, 'zz', f.upper(), 'é', '0x' + f, ' ' + f, f + '\n']
    raw = bytes.fromhex(f)
    for x in (1, 0x80, 0xff):
        for i in range(len(raw)):
            out.append((raw[:i] + bytes([raw[i] ^ x]) + raw[i + 1:]).hex())
    if not enc:
        for l in range(0, 100):
            out.append((b'%02x' % l + raw[2:]).hex())
        for t in (b'ff', b'FF', b' 0', b'0 ', b'-1', b'+1', b'0x', b'_1', b'\xff\xff', b'\n9'):
            out.append((t + raw[2:]).hex())
        for l in (0, 1, 31, 32, 33, 51, 52, 53):
            for body in (raw[2:], raw[2:] + b'\0' * 16, b'\0' * l, b'\1' * l, raw[2:][:l], raw[2:].rjust(l, b'\0')):
                out.append((b'%02x' % l + body).hex())
    if th:
        n = 4 if not enc else 32
        for i in range(n):
            for j in range(i):
                for a in '0358f':
                    for b in '0123456789abcdef':
                        out.append(f[:j] + a + f[j + 1:i] + b + f[i + 1:])
    return sorted(set(out) - {f})


def u_field(ctx, i, pw, part, parts, th):
    fast.on()
    os.fsync = lambda fd: None
    s = WS[i]
    with F.Scratch() as scratch:
        path = scratch('w')
        W.saveTo(path, s.make(), pw)
        with open(path) as f:
            text = f.read()
        names = private_fields(scratch, s, pw, text)
        ctx.ok(names, s.key(), 'no private-key field found in the file')
        for name in names:
            cfg = json.loads(text)
            for alt in fields(cfg[name], bool(pw), pw, th)[part::parts]:
                cfg[name] = alt
                with open(path, 'w') as f:
                    json.dump(cfg, f)
                F.prompt()
                attempt(ctx, path, pw, s, dict(wallet=s.key(), passphrase=pw, field=name, value=alt))
                ctx.state((i, pw, alt))
            for alt in (None, 0, 1, [], {}, True, False):
                cfg[name] = alt
                with open(path, 'w') as f:
                    json.dump(cfg, f)
                F.prompt()
                attempt(ctx, path, pw, s, dict(wallet=s.key(), passphrase=pw, field=name, value=alt))
            del cfg[name]
            with open(path, 'w') as f:
                json.dump(cfg, f)
            attempt(ctx, path, pw, s, dict(wallet=s.key(), passphrase=pw, field=name, removed=True))
    ctx.sample(dict(wallet=s.key(), passphrase=pw, field=alt))


def private_fields(scratch, s, pw, text):
    """The text fields that depend on the passphrase or, unencrypted, hold the key: found by difference, not by name."""
    cfg = json.loads(text)
    if pw:
        W.saveTo(scratch('o'), s.make(), pw + b'-other' if len(pw) < 10 else b'other')
        with open(scratch('o')) as f:
            o = json.load(f)
        return [k for k in cfg if isinstance(cfg[k], str) and cfg[k] != o.get(k)]
    needle = (wal.b32(s.d) if s.kind == 'hd' else wal.wif(s.d, s.compressed)).hex()
    return [k for k in cfg if isinstance(cfg[k], str) and needle in cfg[k]]


def u_flag(ctx):
    """Two files with the parts of the other: the private-key field of another wallet or passphrase."""
    fast.on()
    os.fsync = lambda fd: None
    with F.Scratch() as scratch:
        for i, s in enumerate(WS):
            for j, t in enumerate(WS):
                if s.kind != t.kind or i == j:
                    continue
                for pw in (b'pw', b'0123456789abcdef'):
                    W.saveTo(scratch('a'), s.make(), pw)
                    W.saveTo(scratch('b'), t.make(), b'other pass')
                    with open(scratch('a')) as f, open(scratch('b')) as g:
                        ca, cb = json.load(f), json.load(g)
                    for name in private_fields(scratch, s, pw, json.dumps(ca)):
                        ca[name] = cb.get(name)
                        with open(scratch('a'), 'w') as f:
                            json.dump(ca, f)
                        F.prompt()
                        attempt(ctx, scratch('a'), pw, s, dict(wallet=s.key(), field_of=t.key()))
                        ctx.state((i, j, pw))


def u_whole(ctx, i, pw, part, parts, specs=WS):
    """Every one-character change and truncation of the whole file; chain codes of other lengths, unknown types, fields missing."""
    fast.on()
    os.fsync = lambda fd: None
    s = specs[i]
    with F.Scratch() as scratch:
        path = scratch('w')
        W.saveTo(path, s.make(), pw)
        with open(path) as f:
            text = f.read()
        cfg = json.loads(text)
        alts = []
        for k, c in enumerate(text):
            if k % parts != part:
                continue
            for x in {'0', '1', '9', 'a', 'f', 'F', '"', ' ', ',', '}', '\\', '-', '.', chr(ord(c) ^ 1), chr(ord(c) ^ 2), chr(ord(c) ^ 4), chr(ord(c) ^ 32), '', c + c, c + '0'} - {c}:
                alts.append((text[:k] + x + text[k + 1:], False))
            alts.append((text[:k], True))
        if part == 0:
            for tp in ('', None, 'HDX', 1, 'other'):
                alts.append((json.dumps(dict(cfg, type=tp)), True))
            for k in cfg:
                d = dict(cfg)
                del d[k]
                alts.append((json.dumps(d), k == 'type'))
            if 'chain' in cfg:
                h = cfg['chain']
                for n in range(0, 140):
                    if n != len(h):
                        alts.append((json.dumps(dict(cfg, chain=(h * 3)[:n])), True))
                for x in (None, 5, 'zz' * 32, [h], h[:-1] + 'g'):
                    alts.append((json.dumps(dict(cfg, chain=x)), True))
            for x in ('[]', '{}', 'null', '5', text + text, text + 'x', '[' + text + ']', json.dumps(text)):
                alts.append((x, True))
        for alt, bad in alts:
            if alt == text:
                continue
            with open(path, 'w') as f:
                f.write(alt)
            F.prompt()
            attempt(ctx, path, pw, s, dict(wallet=s.key(), passphrase=pw, file=alt), bad)
            ctx.state((specs is WS, i, pw, alt))
    ctx.sample(dict(wallet=s.key(), passphrase=pw, file=alt))


def u_less(ctx, i, pw):
    """Files with a field missing (as older versions wrote them) and a shortened or lengthened private-key field."""
    fast.on()
    os.fsync = lambda fd: None
    s = WS[i]
    with F.Scratch() as scratch:
        path = scratch('w')
        W.saveTo(path, s.make(), pw)
        with open(path) as f:
            text = f.read()
        for name in private_fields(scratch, s, pw, text):
            cfg = json.loads(text)
            f0 = cfg[name]
            alts = [f0] + [f0[:n] for n in range(len(f0))] + [f0 + '00' * n for n in range(1, 70)]
            if not pw:
                alts += [f0[:4] + '00' * n for n in range(0, 70)]
            for gone in cfg:
                if gone == name:
                    continue
                for alt in alts:
                    d = dict(cfg)
                    d[name] = alt
                    del d[gone]
                    with open(path, 'w') as f:
                        json.dump(d, f)
                    F.prompt()
                    case = dict(wallet=s.key(), passphrase=pw, field=name, value=alt, missing=gone)
                    if d[name] != f0 and gone == 'encrypted':
                        continue
                    if alt[:4] == f0[:4] and set(alt[4:]) <= {'0'}:      # a key of zeros
                        attempt(ctx, path, pw, s, case, True)
                    else:
                        attempt(ctx, path, pw, s, case)
                    ctx.state((i, pw, gone, alt))
    ctx.sample(case)


NEAR = [(5544, 5943), (5877, 8196), (1812, 12066), (1470, 4937)]       # their fingerprints differ in the first, second, third, fourth byte only


def u_near(ctx):
    """Damage (up to four digits of the key) that leaves all but one byte of the fingerprint as it was."""
    fast.on()
    os.fsync = lambda fd: None
    base = 0x1234567890abcdef << 190
    with F.Scratch() as scratch:
        path = scratch('w')
        for pair in NEAR:
            for a, b in (pair, pair[::-1]):
                for test, pos in ((False, None), (True, (2, b'wxyz', 9, bytes(range(32))))):
                    s = Spec('hd', base + a, True, True, test, 7, *([pos] if pos else []))
                    W.saveTo(path, s.make(), b'')
                    with open(path) as f:
                        text = f.read()
                    for name in private_fields(scratch, s, b'', text):
                        cfg = json.loads(text)
                        cfg[name] = cfg[name].replace(wal.b32(base + a).hex(), wal.b32(base + b).hex())
                        ctx.ok(cfg[name] != json.loads(text)[name], s.key(), 'the field is unchanged')
                        with open(path, 'w') as f:
                            json.dump(cfg, f)
                        attempt(ctx, path, b'', s, dict(wallet=s.key(), field=name, value=cfg[name]))
                        ctx.state((a, b, test))
    ctx.sample(s.key())


def units(tier):
    th = tier == 'thorough'
    for i in range(len(WS)):
        for pw in (b'', PASS[i % 4]):
            yield 'less %d %r' % (i, pw), u_less, (i, pw)
    for i in range(len(WS)):
        for k, pw in enumerate(PASS if th else PASS[:4]):
            for part in range(4):
                yield 'wrong %d %d %d' % (i, k, part), u_wrong, (i, pw, part, th)
        for pw in (b'', b'pw', PASS[2]) if th else (b'', PASS[i % 4]):
            for part in range(4):
                yield 'field %d %r %d' % (i, pw, part), u_field, (i, pw, part, 4, th)
        for pw in PASS[1:] + [b''] if th else (b'', PASS[(i + 1) % 4]):
            for part in range(2):
                yield 'whole %d %r %d' % (i, pw, part), u_whole, (i, pw, part, 2)
    for i in range(len(PUBLIC)):
        for part in range(2):
            yield 'public %d %d' % (i, part), u_whole, (i, b'', part, 2, PUBLIC)
    yield 'swapped', u_flag, ()
    yield 'near', u_near, ()
