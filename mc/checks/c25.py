"""C25: signature and key encodings."""
import base64
import itertools
import os
import subprocess
import tempfile

from nbc.util.ecdsa import ellipticcurve as E, ecdsa as D, curves as K, keys, der, util as U
from ..ref import ec, curves as refcurves, derref as X

LEVEL = 'exploration'
RULE = 'every listed (order, r, s), every listed byte string, every listed key; distinct by (codec, order, value)'
BOUNDS = dict(quick='signature codecs: all (r, s) for orders 3..64, boundary (r, s) for 90 large orders; every truncation, extension and single-byte change of DER signatures, all DER shapes with lengths 0..4; keys: all keys of 3 toy curves as strings, 8 keys per named curve as string/DER/PEM with every truncation and one-byte extension; coordinates beyond the field (20 small points per curve, all on toy curves), other versions, tags, curves, key lengths in key files, digests longer than the curve; every other byte at every place of a key file; every other tag in front of every DER value',
              thorough='signature codecs: all (r, s) for orders 3..160, boundary (r, s) for orders of every bit length 3..530; DER shapes to length 6; 24 keys per named curve')
ASSUMPTIONS = ['PEM armour strictness and non-minimal DER integers/lengths are not claimed (the decoders follow BER there)']

CODECS = [('string', U.sigencode_string, U.sigdecode_string, U.sigencode_string_canonize),
          ('strings', U.sigencode_strings, U.sigdecode_strings, U.sigencode_strings_canonize),
          ('der', U.sigencode_der, U.sigdecode_der, U.sigencode_der_canonize)]


def want(kind, r, s, order):
    if kind == 'der':
        return X.sig(r, s)
    l = (order.bit_length() + 7) // 8
    a, b = r.to_bytes(l, 'big'), s.to_bytes(l, 'big')
    return a + b if kind == 'string' else (a, b)


def pair(ctx, r, s, order):
    for kind, enc, dec, canon in CODECS:
        case = (kind, order, r, s)
        e = enc(r, s, order)
        w = want(kind, r, s, order)
        if e != w:
            ctx.fail(case, 'encoding %r, expected %r' % (e, w))
        g = dec(e, order)
        if tuple(g) != (r, s):
            ctx.fail(case, 'decoded %r' % (g,))
        low = min(s, order - s)
        c = canon(r, s, order)
        if c != want(kind, r, low, order):
            ctx.fail(case, 'canonical encoding %r is not that of (r, %d)' % (c, low))
        ctx.eval()
        ctx.distinct()


def u_small(ctx, lo, hi):
    for order in range(lo, hi):
        ctx.current = order
        for r in range(1, order):
            for s in range(1, order):
                pair(ctx, r, s, order)
    ctx.sample(dict(orders=[lo, hi - 1], pairs='all'))


def u_large(ctx, orders):
    for order in orders:
        ctx.current = order
        h = order // 2
        vals = {1, 2, 127, 128, 129, 255, 256, 257, h - 1, h, h + 1, h + 2, order - 1, order - 2, order - 128, order // 3, order // 256}
        for k in range(0, order.bit_length(), 8 if order.bit_length() < 300 else 32):
            vals.update(((1 << k) - 1, 1 << k, (1 << (k + 7)), (1 << (k + 7)) - 1))
        vals = sorted(v for v in vals if 1 <= v < order)
        for r in vals:
            pair(ctx, r, 1, order)
            pair(ctx, r, h + 1, order)
            pair(ctx, r, r, order)
            pair(ctx, 1, r, order)
            pair(ctx, order - 1, r, order)
    ctx.sample(dict(orders=[hex(o) for o in orders[:3]]))


def refused(ctx, f, case):
    try:
        v = f()
    except Exception:
        return
    ctx.fail(case, 'malformed data accepted: %r' % (v,))


def u_strict(ctx, order):
    l = (order.bit_length() + 7) // 8
    for n in range(0, 2 * l + 4):
        for fill in (b'\x00', b'\x01', b'\xff'):
            d = fill * n
            if n == 2 * l:
                U.sigdecode_string(d, order)
            else:
                refused(ctx, lambda: U.sigdecode_string(d, order), ('string', order, d))
            for m in range(0, l + 3):
                if n > l + 2:
                    break
                if (n, m) != (l, l):
                    refused(ctx, lambda: U.sigdecode_strings((fill * n, fill * m), order), ('strings', order, n, m))
                ctx.eval()
                ctx.distinct()
            ctx.eval()
            ctx.distinct()
    vals = sorted({1, 127, 128, 255, 256, order - 1, order // 2, order // 256 + 1})
    for r in vals:
        for s in (1, 128, order - 1):
            if not (1 <= r < order and 1 <= s < order):
                continue
            good = X.sig(r, s)
            cases = [good[:i] for i in range(len(good))] + [good + bytes([b]) for b in (0, 1, 2, 0x30, 0x80, 0xff)] + [good + good, good + b'\x00\x00']
            inner = X.integer(r) + X.integer(s)
            cases += [X.tlv(0x30, inner + e) for e in (b'\x00', X.integer(1), b'\x05\x00')] + [X.tlv(0x30, X.integer(r)), b'\x30\x00', b'\x30', b'']
            for bad in cases:
                refused(ctx, lambda: U.sigdecode_der(bad, order), ('der', order, bad))
                ctx.eval()
                ctx.distinct()
            step = 1 if len(good) < 20 else 5
            for i in range(len(good)):
                for v in range(0, 256, step if i > 5 else 1):
                    check_der(ctx, good[:i] + bytes([v]) + good[i + 1:], order)


def check_der(ctx, data, order):
    try:
        w = X.parse_sig(data)
    except X.Bad:
        w = None
    try:
        g = U.sigdecode_der(data, order)
    except Exception:
        g = None
    ctx.eval()
    ctx.state(('der', data))
    if w is None and g is not None:
        ctx.fail(('der', data), 'malformed data accepted: %r' % (g,))
    if g is not None and tuple(g) != w:
        ctx.fail(('der', data), 'decoded %r, the data says %r' % (g, w))
    ctx.outcome('malformed' if w is None else 'well-formed')


def u_shapes(ctx, outer, top):
    """30 L 02 a <..> 02 b <..>, every combination of lengths and of the bytes present."""
    for a in range(0, top):
        for b in range(0, top):
            for na in range(0, top):
                for nb in range(0, top):
                    for first in (0x00, 0x01, 0x7f, 0x80, 0xff):
                        data = bytes([0x30, outer, 2, a]) + bytes([first] * na) + bytes([2, b]) + bytes([first] * nb)
                        check_der(ctx, data, 1 << 256)
    for tail in itertools.product((0, 1, 2, 3, 0x30, 0x80, 0x81, 0x82, 0xff), repeat=4):
        check_der(ctx, bytes((0x30, outer)) + bytes(tail), 1 << 64)
        check_der(ctx, bytes((0x30, 0x81, outer)) + bytes(tail), 1 << 64)


def u_prims(ctx, part):
    ctx.current = part
    if part == 0:
        vals = list(range(0, 66000, 1 if ctx.thorough else 7)) + [(1 << k) + d for k in range(1, 1300, 1 if ctx.thorough else 5) for d in (-1, 0, 1)]
        vals += [(1 << (8 * k + 7)) + d for k in range(0, 140) for d in (-1, 0)]
        for v in vals:
            e = der.encode_integer(v)
            ctx.eq(e, X.integer(v), ('integer', v), 'encode_integer')
            ctx.eq(der.remove_integer(e + b'xy'), (v, b'xy'), ('integer', v), 'remove_integer')
            ctx.eval()
            ctx.state(('int', v))
        for v in (0, 1, 127, 128, 65537):
            for rem, e in ((der.remove_integer, X.integer(v)), (der.remove_object, X.oid(1, 2, v))):
                for tag in range(256):
                    if tag != e[0]:
                        refused(ctx, lambda: rem(bytes([tag]) + e[1:]), (v, 'tag', tag))
                        ctx.eval()
    elif part == 1:
        for n in list(range(0, 700)) + [65534, 65535, 65536, 65537]:
            body = bytes(i & 255 for i in range(n))
            ctx.eq(der.encode_length(n), X.length(n), n, 'encode_length')
            ctx.eq(der.read_length(X.length(n) + b'z'), (n, len(X.length(n))), n, 'read_length')
            for k in range(len(X.length(n))):
                refused(ctx, lambda: der.read_length(X.length(n)[:k]), (n, 'length cut', k))
            for name, e, w, rem in (('octet', der.encode_octet_string(body), X.tlv(4, body), der.remove_octet_string),
                                    ('bits', der.encode_bitstring(body), X.tlv(3, body), der.remove_bitstring),
                                    ('seq', der.encode_sequence(body[:n // 2], body[n // 2:]), X.tlv(0x30, body), der.remove_sequence),
                                    ('cons', der.encode_constructed(n % 31, body), X.tlv(0xa0 + n % 31, body), der.remove_constructed)):
                ctx.eq(e, w, (name, n), 'encoding')
                got = rem(e + b'tail')
                ctx.eq(tuple(got), ((n % 31,) if name == 'cons' else ()) + (body, b'tail'), (name, n), 'decoding')
                for cut in (len(e) - 1, len(e) - n - 1, 1):
                    if 0 < cut < len(e):
                        refused(ctx, lambda: rem(e[:cut]), (name, n, 'cut to', cut))
                refused(ctx, lambda: rem(b'\x05' + e[1:]), (name, n, 'wrong tag'))
                if n in (0, 1, 3, 200):
                    for tag in range(256):
                        if tag != e[0] and not (name == 'cons' and 0xa0 <= tag <= 0xbf):
                            refused(ctx, lambda: rem(bytes([tag]) + e[1:]), (name, n, 'tag', tag))
                            ctx.eval()
                ctx.eval()
                ctx.state((name, n))
    else:
        for n in list(range(0, 40000, 3)) + [(1 << k) + d for k in range(3, 80) for d in (-1, 0, 1)]:
            ctx.eq(der.encode_number(n), X.base128(n), n, 'encode_number')
            ctx.eq(tuple(der.read_number(X.base128(n) + b'\x01')), (n, len(X.base128(n))), n, 'read_number')
            for first in (0, 1, 2):
                o = (first, n % 40, n, 5)
                ctx.eq(der.encode_oid(*o), X.oid(*o), o, 'encode_oid')
                ctx.eq(der.remove_object(X.oid(*o) + b'r'), (o, b'r'), o, 'remove_object')
            ctx.eval()
            ctx.state(('oid', n))


def u_toy(ctx, p):
    for a, b, n, pts in ec.prime_curves(p)[:4]:
        c = ec.C(p, a, b)
        G = pts[0]
        if p > 255 or n > 255:
            continue
        ic = E.CurveFp(p, a, b)
        curve = K.Curve('toy', ic, E.Point(ic, G[0], G[1], n), (1, 2, 3))
        for d in range(1, n):
            sk = keys.SigningKey.from_secret_exponent(d, curve)
            case = (p, a, b, d)
            ctx.current = case
            ctx.eq(sk.to_string(), bytes([d]), case, 'private string')
            k2 = keys.SigningKey.from_string(sk.to_string(), curve)
            ctx.eq(k2.privkey.secret_multiplier, d, case, 'private key')
            vs = sk.get_verifying_key().to_string()
            ctx.eq(vs, bytes(c.mul(d, G)), case, 'public string')
            v2 = keys.VerifyingKey.from_string(vs, curve)
            ctx.eq((v2.pubkey.point.x(), v2.pubkey.point.y()), c.mul(d, G), case, 'public key')
            ctx.eval()
            ctx.state(case)
        for x in range(0, 256):
            if x < n and x:
                continue
            refused(ctx, lambda: keys.SigningKey.from_string(bytes([x]), curve), (p, a, b, x))
        for x in range(0, 2 * p + 2):
            for y in range(0, 2 * p + 2):
                if not c.on(x, y):
                    refused(ctx, lambda: keys.VerifyingKey.from_string(bytes([x, y]), curve), (p, a, b, x, y))
                ctx.eval()
                ctx.state((p, a, b, x, y))


def openssl(args, data):
    return subprocess.run(['openssl'] + args, input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout


def u_keys(ctx, name, part, parts):
    curve = [k for k in K.curves if k.name == name][0]
    c, G, n = ec.std(name)
    l = (n.bit_length() + 7) // 8
    oid = refcurves.CURVES[name]['oid']
    ds = [1, 2, 255, 256, n - 1, n // 2, (1 << (8 * (l - 1))) - 1, 1 << (8 * (l - 1))]
    ds += [(1 << (8 * k)) + k for k in range(1, 18)] if ctx.thorough else []
    for d in [d for i, d in enumerate(ds) if i % parts == part]:
        if not 1 <= d < n:
            d = d % n or 1
        Q = c.mul(d, G)
        sk = keys.SigningKey.from_secret_exponent(d, curve)
        vk = sk.get_verifying_key()
        case = (name, d)
        ctx.current = case
        skd, vkd = X.privkey(oid, d, Q[0], Q[1], l), X.pubkey(oid, Q[0], Q[1], l)
        ctx.eq(sk.to_string(), d.to_bytes(l, 'big'), case, 'private string')
        ctx.eq(vk.to_string(), Q[0].to_bytes(l, 'big') + Q[1].to_bytes(l, 'big'), case, 'public string')
        ctx.eq(sk.to_der(), skd, case, 'private DER')
        ctx.eq(vk.to_der(), vkd, case, 'public DER')

        def pem(body, label):
            b = base64.b64encode(body)
            return b'-----BEGIN ' + label + b'-----\n' + b''.join(b[i:i + 64] + b'\n' for i in range(0, len(b), 64)) + b'-----END ' + label + b'-----\n'
        ctx.eq(sk.to_pem(), pem(skd, b'EC PRIVATE KEY'), case, 'private PEM')
        ctx.eq(vk.to_pem(), pem(vkd, b'PUBLIC KEY'), case, 'public PEM')
        params = pem(X.oid(*oid), b'EC PARAMETERS')
        for width in range(1, 80 if d < 3 else 3):       # as other programs wrap it
            for nl in (b'\n', b'\r\n', b' \n', b'\n\n'):
                def wrapped(t):
                    t = t.split(b'\n')
                    body = b''.join(t[1:-2])
                    return nl.join([t[0]] + [body[i:i + width] for i in range(0, len(body), width)] + [t[-2]]) + nl
                ctx.eq(der.unpem(wrapped(sk.to_pem())), skd, (case, width, nl), 'private PEM in lines of this width')
                ctx.eq(der.unpem(wrapped(vk.to_pem()).decode()), vkd, (case, width, nl), 'public PEM in lines of this width')
                ctx.eval(2)
        for what, f in (('string', lambda: keys.SigningKey.from_string(sk.to_string(), curve)), ('DER', lambda: keys.SigningKey.from_der(skd)),
                        ('PEM', lambda: keys.SigningKey.from_pem(sk.to_pem())), ('PEM text', lambda: keys.SigningKey.from_pem(params.decode() + sk.to_pem().decode())),
                        ('PEM crlf', lambda: keys.SigningKey.from_pem(sk.to_pem().replace(b'\n', b'\r\n')))):
            k2 = f()
            ctx.eq((k2.privkey.secret_multiplier, k2.curve.name, k2.to_der()), (d, name, skd), (case, what), 'private key read back')
            ctx.eval()
            ctx.state((case, what))
        for what, f in (('string', lambda: keys.VerifyingKey.from_string(vk.to_string(), curve)), ('DER', lambda: keys.VerifyingKey.from_der(vkd)),
                        ('PEM', lambda: keys.VerifyingKey.from_pem(vk.to_pem())), ('PEM text', lambda: keys.VerifyingKey.from_pem(vk.to_pem().decode()))):
            k2 = f()
            ctx.eq((k2.pubkey.point.x(), k2.pubkey.point.y(), k2.curve.name, k2.to_der()), Q + (name, vkd), (case, what), 'public key read back')
            ctx.eval()
            ctx.state((case, 'pub', what))
        if part == 0:
            o = openssl(['ec', '-inform', 'DER', '-pubout', '-outform', 'DER'], sk.to_der())
            if o:
                ctx.eq(o, vkd, case, 'what OpenSSL reads from the private DER')
                ctx.count('openssl_agrees')
        for i in range(len(vkd)):
            refused(ctx, lambda: keys.VerifyingKey.from_der(vkd[:i]), (case, 'public DER cut', i))
            ctx.eval()
        for i in range(len(skd)):
            refused(ctx, lambda: keys.SigningKey.from_der(skd[:i]), (case, 'private DER cut', i))
            ctx.eval()
        ctx.distinct(len(vkd) + len(skd))
        for t in (b'\x00', b'0', b'\x02\x01\x01'):
            refused(ctx, lambda: keys.VerifyingKey.from_der(vkd + t), (case, 'public DER + ', t))
            refused(ctx, lambda: keys.SigningKey.from_der(skd + t), (case, 'private DER + ', t))
        pt = vkd[-2 * l - 1:]
        head = X.tlv(0x30, X.oid(*X.OID_EC) + X.oid(*oid))
        for bad in (pt[:-1], pt + b'\x00', b'\x03' + pt[1:], pt[1:], pt[1:] + b'\x00', b'\x04' + pt):
            refused(ctx, lambda: keys.VerifyingKey.from_der(X.tlv(0x30, head + X.tlv(3, b'\x00' + bad))), (case, 'point', bad))
            refused(ctx, lambda: keys.VerifyingKey.from_string(bad, curve), (case, 'point string', bad)) if len(bad) != 2 * l else None
        refused(ctx, lambda: keys.VerifyingKey.from_der(X.tlv(0x30, head + X.tlv(3, b'\x00' + pt) + b'\x05\x00')), (case, 'junk in sequence'))
        refused(ctx, lambda: keys.VerifyingKey.from_der(X.tlv(0x30, X.tlv(0x30, X.oid(*X.OID_EC) + X.oid(*oid) + b'\x05\x00') + X.tlv(3, b'\x00' + pt))), (case, 'junk in algorithm'))
        for bad in (0, n, n + 1, (1 << (8 * l)) - 1):
            if bad < 1 << (8 * l):
                refused(ctx, lambda: keys.SigningKey.from_string(bad.to_bytes(l, 'big'), curve), (case, 'exponent', bad))
        for bad in (sk.to_string()[1:], sk.to_string() + b'\x00', b'\x00' + sk.to_string(), b''):
            refused(ctx, lambda: keys.SigningKey.from_string(bad, curve), (case, 'private string', bad))
        ctx.eval(20)
        ctx.distinct(20)
    ctx.sample(dict(curve=name, keys=[hex(d) for d in ds[:8]]))


def u_more(ctx, name):
    """Key files that are almost right, and coordinates beyond the field."""
    curve = [k for k in K.curves if k.name == name][0]
    c, G, n = ec.std(name)
    l = (n.bit_length() + 7) // 8
    oid = refcurves.CURVES[name]['oid']
    room = (1 << (8 * l)) - c.p
    s = lambda v: v.to_bytes(l, 'big')
    pts, x = [], 0
    if c.p % 4 == 3:
        while len(pts) < 20 and x < room:
            y = ec.sqrt_p3(x ** 3 + c.a * x + c.b, c.p)
            if y is not None:
                pts += [(x, y), (x, c.p - y)]
            x += 1
    pts += [G, c.mul(2, G), c.mul(n - 3, G)]
    for x, y in pts:
        case = (name, x, y)
        ctx.current = case
        vk = keys.VerifyingKey.from_string(s(x) + s(y), curve)
        ctx.eq((vk.pubkey.point.x(), vk.pubkey.point.y()), (x, y), case, 'point')
        for i, j in ((1, 0), (0, 1), (1, 1), (2, 0), (0, 3)):
            X1, Y1 = x + i * c.p, y + j * c.p
            if X1 < 1 << (8 * l) and Y1 < 1 << (8 * l):
                refused(ctx, lambda: keys.VerifyingKey.from_string(s(X1) + s(Y1), curve), case + ('plus p', i, j))
                refused(ctx, lambda: keys.VerifyingKey.from_der(X.pubkey(oid, X1, Y1, l)), case + ('DER', 'plus p', i, j))
                ctx.count('coordinates_beyond_the_field')
            ctx.eval()
            ctx.state(case + (i, j))
    for d in (1, 0x7f, 0xff, 1 << (8 * (l - 2)), (1 << (8 * (l - 1))) - 1, n - 1):
        Q = c.mul(d, G)
        case = (name, d)
        ctx.current = case
        raw = s(d)
        tail = X.tlv(0xa1, X.tlv(3, b'\x00\x04' + s(Q[0]) + s(Q[1])))

        def build(version=X.integer(1), body=raw, tag=0xa0, o=X.oid(*oid), end=tail):
            return X.tlv(0x30, version + X.tlv(4, body) + X.tlv(tag, o) + end)
        ctx.eq(build(), X.privkey(oid, d, Q[0], Q[1], l), case, 'the harness')
        short = raw.lstrip(b'\0')
        for k in range(len(raw) - len(short) + 1):
            ctx.eq(keys.SigningKey.from_der(build(body=raw[k:])).privkey.secret_multiplier, d, case + (k,), 'private key without %d leading zeros' % k)
            ctx.eval()
        bad = [dict(version=X.integer(v)) for v in (0, 2, 3, 255, 257)] + [dict(version=b''), dict(version=X.tlv(4, b'\1'))]
        bad += [dict(tag=t) for t in (0xa1, 0xa2, 0xbf, 0x80, 0x30, 0x06)]
        bad += [dict(o=X.oid(*oid) + e) for e in (b'\0', b'\5\0', X.oid(*oid))] + [dict(o=X.oid(*(oid[:-1] + (oid[-1] + 100,)))), dict(o=X.oid(*(oid + (1,)))), dict(o=X.oid(*oid[:-1])), dict(o=X.tlv(4, X.oid(*oid)[2:])), dict(o=b'')]
        bad += [dict(body=b) for b in (raw + b'\0', b'\0' + raw, b'\1' + raw, s(0), s(n), b'', s((1 << (8 * l)) - 1))]
        for kw in bad:
            refused(ctx, lambda: keys.SigningKey.from_der(build(**kw)), case + (kw,))
            ctx.eval()
            ctx.state(case + (repr(kw),))
        for o1 in (X.oid(1, 2, 840, 10045, 2, 2), X.oid(1, 2, 840, 10045, 2), X.oid(*oid), X.tlv(4, X.oid(*X.OID_EC)[2:])):
            refused(ctx, lambda: keys.VerifyingKey.from_der(X.tlv(0x30, X.tlv(0x30, o1 + X.oid(*oid)) + X.tlv(3, b'\0\4' + s(Q[0]) + s(Q[1])))), case + ('algorithm', o1))
        for o2 in (X.oid(*(oid + (1,))), X.oid(*oid[:-1]), X.oid(1, 2, 3), X.oid(*X.OID_EC)):
            refused(ctx, lambda: keys.VerifyingKey.from_der(X.tlv(0x30, X.tlv(0x30, X.oid(*X.OID_EC) + o2) + X.tlv(3, b'\0\4' + s(Q[0]) + s(Q[1])))), case + ('curve', o2))
        sk = keys.SigningKey.from_secret_exponent(d, curve)
        vk = sk.get_verifying_key()
        if d in (1, n - 1):
            # every other byte at every place of a key file, except inside the private key itself and the copy of the public key behind it
            vd, sd = vk.to_der(), sk.to_der()
            at = sd.index(X.tlv(4, raw))
            head = [i for i in range(at + len(X.tlv(4, raw)) + len(X.tlv(0xa0, X.oid(*oid)))) if not at + 2 <= i < at + 2 + l]
            for good, places, f in ((vd, range(len(vd)), keys.VerifyingKey.from_der), (sd, head, keys.SigningKey.from_der)):
                for i in places:
                    for v in range(256) if i < len(vd) - 2 * l or f == keys.SigningKey.from_der or ctx.thorough else (0, 1, good[i] ^ 1, good[i] ^ 128, 255):
                        other = good[:i] + bytes([v]) + good[i + 1:]
                        if v != good[i] and not (f == keys.SigningKey.from_der and any(X.oid(*o['oid']) in other for o in refcurves.CURVES.values() if o['oid'] != oid)):
                            refused(ctx, lambda: f(good[:i] + bytes([v]) + good[i + 1:]), case + (f.__self__.__name__, 'byte', i, 'is', v))
                            ctx.eval()
                    ctx.state(case + (f.__self__.__name__, i))
        for m in (l, l - 1, 1, 0):
            for fill in (b'\xff', b'\0', b'\1'):
                if not m:
                    continue
                g = sk.sign_digest(fill * m, k=7)
                ctx.ok(vk.verify_digest(g, fill * m), case + (m,), 'own signature')
        for m in (l + 1, l + 2, 2 * l, 200):
            for fill in (b'\xff', b'\0', b'\1'):
                refused(ctx, lambda: sk.sign_digest(fill * m, k=7), case + ('digest of', m))
                refused(ctx, lambda: vk.verify_digest(g, fill * m), case + ('digest of', m))
                for t in {m, l, max(l, min(m, 32))}:      # not even a signature of the whole number, or of its beginning or end
                    for cutd in (fill * m)[:t], (fill * m)[-t:]:
                        g2 = b''.join(s(v) for v in sk.sign_number(int.from_bytes(cutd, 'big'), k=7))
                        refused(ctx, lambda: vk.verify_digest(g2, fill * m), case + ('digest of', m, 'signed', t))
                refused(ctx, lambda: sk.sign_digest(fill * m), case + ('digest of', m))
                ctx.eval()
                ctx.state(case + ('digest', m, fill))


def units(tier):
    th = tier == 'thorough'
    top = 160 if th else 64
    for lo in range(3, top, 8 if not th else 4):
        yield 'orders %d..' % lo, u_small, (lo, min(lo + (8 if not th else 4), top + 1))
    orders = [0xff, 0x100, 0x101, 0xffff, 0x10000, 0x10001, 0xffffff, 0x1000000] + [d['n'] for d in refcurves.CURVES.values()]
    orders += [(1 << k) + d for k in (range(3, 531) if th else (15, 31, 32, 53, 54, 55, 63, 64, 65, 127, 128, 159, 160, 161, 191, 255, 256, 257, 384, 520, 521)) for d in (-1, 1, 3)]
    for i in range(0, len(orders), 8):
        yield 'large orders %d' % i, u_large, (orders[i:i + 8],)
    for o in (7, 0x80, 0xff, 0x101, 0xfff1, refcurves.CURVES['SECP256k1']['n'], refcurves.CURVES['NIST521p']['n']):
        yield 'strict %x' % o, u_strict, (o,)
    t = 7 if th else 5
    for outer in list(range(0, 2 * t + 5)) + [0x7f, 0x80, 0x81, 0x84, 0xff]:
        yield 'shape %d' % outer, u_shapes, (outer, t)
    for part in (0, 1, 2):
        yield 'primitives %d' % part, u_prims, (part,)
    for p in (7, 11, 13, 17):
        yield 'toy p=%d' % p, u_toy, (p,)
    for name in sorted(refcurves.CURVES, key=lambda k: -refcurves.CURVES[k]['n']):
        yield 'more %s' % name, u_more, (name,)
    parts = 4
    for name in sorted(refcurves.CURVES, key=lambda k: -refcurves.CURVES[k]['n']):
        for i in range(parts):
            yield 'keys %s %d' % (name, i), u_keys, (name, i, parts)
