"""C24: deterministic nonces."""
import hashlib

from nbc.util.ecdsa import ellipticcurve as E, ecdsa as D, curves as K, keys, rfc6979 as R, util as U
from ..ref import rfc6979 as ref, ec, curves as refcurves

LEVEL = 'exploration'
RULE = ('every private key for every small order, boundary keys for orders of each listed bit length; every listed hash function; '
        'digest lengths 1..64; distinct by (order, key, hash, digest)')
BOUNDS = dict(quick='orders 2..130 x every key x 6 hashes; orders of 31 bit lengths (lowest, highest, middle) x 4 keys x 6 hashes x digests of 1..64 bytes and of boundary values; SigningKey.sign_deterministic on the six named curves, with keys made in every way and with each of 11 hashes, as the default and given with the call',
              thorough='orders 2..600 x every key x 6 hashes; every bit length 8..530')
ASSUMPTIONS = ['reference written from RFC 6979 section 3.2, checked in setup.sh against appendix A vectors', 'hashlib and hmac are trusted']
HASHES = ['md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'sha3_224', 'sha3_256', 'sha3_512', 'blake2s', 'blake2b']


class Gen(E.Point):
    """A generator with any order: nonce generation depends on the generator only through its order."""

    def __init__(self, q):
        g = D.generator_secp256k1
        E.Point.__init__(self, g.curve(), g.x(), g.y())
        self.q = q

    def order(self):
        return self.q


def one(ctx, q, x, hname, digest):
    want, rej = ref.nonce(q, x, hname, digest)
    got = R.generate_k(Gen(q), x, getattr(hashlib, hname), digest)
    if got != want:
        ctx.fail(dict(order=q, key=x, hash=hname, digest=digest, rejected=rej), 'nonce %x, expected %x' % (got, want))
    ctx.eval()
    ctx.state((q, x, hname, digest))
    ctx.outcome('%d rejected' % min(rej, 5))


def u_small(ctx, lo, hi):
    for q in range(lo, hi):
        ctx.current = q
        for x in range(1, q):
            for i, hname in enumerate(HASHES[:6]):
                if q > 40 and (x + i) % 3 and not ctx.thorough:
                    continue
                one(ctx, q, x, hname, hashlib.new(hname, bytes([x & 255, i])).digest())
    ctx.sample(dict(orders=[lo, hi - 1], keys='all'))


def u_len(ctx, qlen):
    qs = sorted({(1 << (qlen - 1)) + 1, (1 << qlen) - 1, (1 << (qlen - 1)) + (1 << (qlen - 2)) + 5, (1 << (qlen - 1)) + (1 << (qlen // 2))})
    for q in qs:
        ctx.current = q
        for hname in HASHES[:6]:
            size = hashlib.new(hname).digest_size
            for x in {1, q - 1, q // 2, q // 3}:
                if not 1 <= x < q:
                    continue
                for digest in (hashlib.new(hname, b'sample').digest(), b'\x00' * size, b'\xff' * size, b'\x80' + b'\x00' * (size - 1), b'\x00' * (size - 1) + b'\x01'):
                    one(ctx, q, x, hname, digest)
            for h2 in ((q - 1), q, q + 1, q >> 1):       # leftmost bits around the order
                if h2 < (1 << qlen):
                    b = (h2 << (-qlen % 8)).to_bytes((qlen + 7) // 8, 'big')
                    one(ctx, q, 1, hname, b)
                    one(ctx, q, 1, hname, b + b'\xff')
                    one(ctx, q, 1, hname, h2.to_bytes((qlen + 7) // 8, 'big'))
        for k in range(1, 65):
            one(ctx, q, q // 2, 'sha256', bytes(range(200, 200 - k, -1)))
    ctx.sample(dict(bits=qlen, orders=[hex(q) for q in qs]))


def u_std(ctx, name):
    curve = [k for k in K.curves if k.name == name][0]
    c, G, n = ec.std(name)
    bl = (n.bit_length() + 7) // 8
    for d in (1, n - 1, n // 3):
        sk = keys.SigningKey.from_secret_exponent(d, curve, hashlib.sha1)
        for hname in HASHES:
            size = hashlib.new(hname).digest_size
            if size > bl or (d != n // 3 and hname not in ('sha1', 'sha256')):
                continue
            data = b'sample' if d != 1 else b''
            dg = hashlib.new(hname, data).digest()
            k = ref.nonce(n, d, hname, dg)[0]
            want = ec.sign(c, G, n, d, int.from_bytes(dg, 'big'), k)
            ctx.current = case = (name, d, hname, data)
            calls = [lambda: sk.sign_deterministic(data, hashfunc=getattr(hashlib, hname), sigencode=lambda r, s, o: (r, s)),
                     lambda: sk.sign_digest_deterministic(dg, hashfunc=getattr(hashlib, hname), sigencode=lambda r, s, o: (r, s))]
            if hname == 'sha1':
                calls.append(lambda: sk.sign_deterministic(data, sigencode=lambda r, s, o: (r, s)))
                calls.append(lambda: sk.sign_digest_deterministic(dg, sigencode=lambda r, s, o: (r, s)))
            for i, f in enumerate(calls):
                ctx.eq(f(), want, (case, i), 'deterministic signature')
                ctx.eval()
                ctx.state((case, i))
        x = U.string_to_number(sk.to_string())
        ctx.eq(x, d, (name, d), 'key kept')


def u_ways(ctx, name):
    """Every way of making a key x the hash it was made with: that hash is the one used by default, by the verifying key too."""
    curve = [k for k in K.curves if k.name == name][0]
    c, G, n = ec.std(name)
    bl = (n.bit_length() + 7) // 8
    pair = lambda r, s, o: (r, s)
    d = n // 5
    base = keys.SigningKey.from_secret_exponent(d, curve)
    raw, der, pem = base.to_string(), base.to_der(), base.to_pem()
    for hname in HASHES:
        if hashlib.new(hname).digest_size > bl:
            continue
        h = getattr(hashlib, hname)
        ways = [('exponent', keys.SigningKey.from_secret_exponent(d, curve, h)), ('string', keys.SigningKey.from_string(raw, curve, h)),
                ('der', keys.SigningKey.from_der(der, h)), ('pem', keys.SigningKey.from_pem(pem, h))]
        if hname == 'sha1':
            ways += [('exponent, default', base), ('string, default', keys.SigningKey.from_string(raw, curve)),
                     ('der, default', keys.SigningKey.from_der(der)), ('pem, default', keys.SigningKey.from_pem(pem))]
        data = b'made ' + hname.encode()
        dg = hashlib.new(hname, data).digest()
        want = ec.sign(c, G, n, d, int.from_bytes(dg, 'big'), ref.nonce(n, d, hname, dg)[0])
        for w, sk in ways:
            ctx.current = case = (name, hname, w)
            for i, f in enumerate([lambda: sk.sign_deterministic(data, sigencode=pair), lambda: sk.sign_digest_deterministic(dg, sigencode=pair)]):
                ctx.eq(f(), want, (case, i), 'deterministic signature with the hash the key was made with')
                ctx.eval()
                ctx.state((case, i))
            for other in HASHES:      # another hash given with the call
                if hashlib.new(other).digest_size <= bl and (hashlib.new(other).digest_size == hashlib.new(hname).digest_size or other == 'sha256'):
                    od = hashlib.new(other, data).digest()
                    ow = ec.sign(c, G, n, d, int.from_bytes(od, 'big'), ref.nonce(n, d, other, od)[0])
                    ctx.eq(sk.sign_deterministic(data, hashfunc=getattr(hashlib, other), sigencode=pair), ow, (case, other), 'deterministic signature with the hash of the call')
                    ctx.eq(sk.sign_digest_deterministic(od, hashfunc=getattr(hashlib, other), sigencode=pair), ow, (case, other), 'deterministic signature with the hash of the call')
                    ctx.eval()
            vk = sk.get_verifying_key()
            sig = sk.sign_deterministic(data)
            ctx.ok(vk.verify(sig, data) is True, case, 'verifying key uses another hash')
            ctx.ok(vk.verify(sk.sign(data, entropy=lambda k: b'\0' * (k - 1) + b'\5'), data, hashfunc=h) is True, case, 'sign uses another hash')
            ctx.eval(2)


def units(tier):
    th = tier == 'thorough'
    for name in refcurves.CURVES:
        yield 'ways %s' % name, u_ways, (name,)
    top = 600 if th else 130
    step = 10
    for lo in range(2, top, step):
        yield 'orders %d..' % lo, u_small, (lo, min(lo + step, top + 1))
    lens = range(8, 531) if th else [8, 9, 15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 153, 157, 158, 159, 160, 161, 163, 192, 224, 225, 249, 252, 255, 256, 257, 384, 512, 513, 521]
    for q in lens:
        yield 'bits %d' % q, u_len, (q,)
    for name in refcurves.CURVES:
        yield 'std %s' % name, u_std, (name,)
