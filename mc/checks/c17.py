"""C17: HD derivation is BIP32."""
import hashlib
import hmac
import itertools

from .. import entropy
from nbc import wallet as W
from nbc.util import ecdsa as Ec
from .. import fast
from ..ref import wal

LEVEL = 'model_checking'
BOUNDS = dict(quick='trees of 9 roots (seeds and direct keys, 2 networks), 9 boundary indexes to depth 2 and 3 indexes to depth 4, private, neutered and public-only in step; every derivation order of 4 siblings; chains to depth 255; text seeds of every Latin-1 character; 14 adversarial HMAC outputs at private and public nodes; 40 boundary keys; nodes alike but for one or two fields, in three orders in one process',
              thorough='18 roots, 9 indexes to depth 3, 4 indexes to depth 5; 300 boundary keys')
ASSUMPTIONS = ['the version number of a derived child is unspecified', 'large-number arithmetic is replaced by the reference (decided by C22/C23/C27) except in the unit named slow']
N = wal.N
IDX = [0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 255, 0x01000000]


def point(Q):
    return Ec.ellipticcurve.Point(Ec.SECP256k1.curve, Q[0], Q[1])


def wallet(n, private=True):
    """A wallet of the reference node."""
    kw = dict(vcn=1, testnet=n.testnet, depth=n.depth, parentfp=n.fp, childnum=n.num)
    return W.HDWallet(n.d if private else point(n.Q), n.chain, **kw)


def look(ctx, w, n, case):
    """w is the node n (private or public-only as n is)."""
    ctx.current = case
    ctx.eq(w.prvkey(), None if n.d is None else wal.b32(n.d), case, 'private key')
    ctx.eq(w.pubkey(), wal.full(n.Q)[1:], case, 'public key')
    ctx.eq((w.chain(), w.depth(), w.parentfp(), w.childnum(), w.fingerprint()), (n.chain, n.depth, n.fp if n.depth else b'\0' * 4, n.num, n.ident()), case, '(chain, depth, parent fingerprint, index, fingerprint)')
    ctx.eq(w.address(), wal.address(wal.comp(n.Q), w.vcn, n.testnet), case, 'address (network)')
    ctx.eq(w.to_extended_key(), n.ext(False), case, 'extended public key')
    if n.d is not None:
        ctx.eq(w.to_extended_key(True), n.ext(True), case, 'extended private key')


def step(ctx, w, n, i, case):
    """One derivation on both; returns (wallet, node) or None."""
    want = n.child(i)
    ctx.trans()
    ctx.current = case
    if want is None:
        ctx.raises(lambda: w.child(i), case, 'derivation BIP32 refuses')
        ctx.outcome('refused')
        return None
    got = w.child(i)
    look(ctx, got, want, case)
    ctx.outcome('derived')
    return got, want


def walk(ctx, w, pub, n, path, idx, depth):
    """Private wallet w and public-only wallet pub are node n; explores the tree below."""
    ctx.state((n.key(), 'prv'))
    for i in idx:
        case = dict(path=path + [i])
        r = step(ctx, w, n, i, case)
        rp = step(ctx, pub, n.neuter(), i, dict(case, public=True)) if pub is not None else None
        ctx.trace()
        if r is None:
            continue
        ch, cn = r
        # dropping the private key after the derivation
        neut = W.HDWallet.from_extended_key(ch.to_extended_key(), vcn=1)
        look(ctx, neut, cn.neuter(), dict(case, neutered=True))
        if i < 1 << 31:
            ctx.ok(rp is not None or pub is None, case, 'no public derivation')
            if rp is not None:
                ctx.eq(rp[0].to_extended_key(), neut.to_extended_key(), case, 'public derivation')
        if depth > 1:
            walk(ctx, ch, rp[0] if rp is not None else neut, cn, path + [i], idx, depth - 1)
        look(ctx, w, n, dict(case, parent_after=True))


ROOTS = [b'\x00', b'', bytes(range(16)), bytes(range(64)), b'x' * 65, 'HDWallet seed', b'\xff' * 32, b'seed', b'c17'] + [b'more %d' % i for i in range(9)]


def u_text(ctx):
    """A seed given as text is its Latin-1 bytes."""
    fast.on()
    for t in [chr(i) for i in range(256)] + [''.join(map(chr, range(256))), 'caf\xe9 \xff\0', 'x' * 200]:
        ctx.current = t
        w = W.HDWallet.from_master_seed(t, vcn=4)
        look(ctx, w, wal.master(t.encode('latin-1'), False), dict(seed=t))
        ctx.eq(W.HDWallet.from_master_seed(t.encode('latin-1'), vcn=4).to_extended_key(True), w.to_extended_key(True), t, 'the same seed as bytes')
        ctx.state(t)
        ctx.trans()


def u_tree(ctx, r, idx, depth):
    fast.on()
    seed = ROOTS[r]
    testnet = r % 2 == 1
    w = W.HDWallet.from_master_seed(seed, vcn=4, testnet=testnet)
    n = wal.master(seed.encode() if isinstance(seed, str) else seed, testnet)
    look(ctx, w, n, dict(seed=seed))
    pub = W.HDWallet.from_extended_key(w.to_extended_key(), vcn=4)
    look(ctx, pub, n.neuter(), dict(seed=seed, public=True))
    walk(ctx, w, pub, n, ['seed %r' % (seed,)], idx, depth)
    ctx.sample(dict(seed=seed, indexes=idx, depth=depth))


def u_vectors(ctx):
    fast.on()
    for seed, path in wal.VECTORS + [
        ('fffcf9f6f3f0edeae7e4e1dedbd8d5d2cfccc9c6c3c0bdbab7b4b1aeaba8a5a29f9c999693908d8a8784817e7b7875726f6c696663605d5a5754514e4b484542', [
            (None, 'xpub661MyMwAqRbcFW31YEwpkMuc5THy2PSt5bDMsktWQcFF8syAmRUapSCGu8ED9W6oDMSgv6Zz8idoc4a6mr8BDzTJY47LJhkJ8UB7WEGuduB', None),
            (0, 'xpub69H7F5d8KSRgmmdJg2KhpAK8SR3DjMwAdkxj3ZuxV27CprR9LgpeyGmXUbC6wb7ERfvrnKZjXoUmmDznezpbZb7ap6r1D3tgFxHmwMkQTPH', None)])]:
        w = W.HDWallet.from_master_seed(bytes.fromhex(seed), vcn=0)
        for i, xpub, xprv in path:
            if i is not None:
                w = w.child(i)
            ctx.eq(w.to_extended_key(), xpub.encode(), (seed, i), 'published vector')
            if xprv:
                ctx.eq(w.to_extended_key(True), xprv.encode(), (seed, i), 'published vector')
            ctx.trace()


def u_orders(ctx, private):
    """Siblings, cousins and other wallets in every order: no derivation influences another."""
    fast.on()
    n = wal.master(b'orders')
    m = wal.master(b'other', True)
    acts = [(n, 0), (n, 1), (n, 0x80000000 if private else 2), (m, 0), (n, 0)]
    want = [a.child(i) if private else a.neuter().child(i) for a, i in acts]
    for perm in itertools.permutations(range(len(acts))):
        ws = {id(a): wallet(a, private) for a in (n, m)}
        for j in perm:
            a, i = acts[j]
            case = dict(order=perm, at=j, private=private)
            ctx.current = case
            look(ctx, ws[id(a)].child(i), want[j], case)
            ctx.trans()
        for a in (n, m):
            look(ctx, ws[id(a)], a if private else a.neuter(), dict(order=perm, parents=True))
        ctx.state(('order', perm, private))
        ctx.trace()


def u_alike(ctx, private):
    """Nodes that are alike but for one or two fields (the sign of the point, chain, depth, parent, index, network), one after another in one process."""
    fast.on()
    d0 = 0x1234567 << 190 | 9
    base = dict(d=d0, chain=b'\x42' * 32, testnet=False, depth=3, fp=b'abcd', num=5)
    other = dict(d=(N - d0, d0 + 1), chain=(b'\x42' * 31 + b'\x43', b'\x43' + b'\x42' * 31), testnet=(True,), depth=(4, 254), fp=(b'abce',), num=(6, 0x80000005))
    kinds = [base]
    for a in other:
        for v in other[a]:
            kinds.append(dict(base, **{a: v}))
            for b in other:
                if b > a:
                    kinds += [dict(base, **{a: v, b: u}) for u in other[b]]
    nodes = []
    for k in kinds:
        n = wal.Node(k['d'], wal.pub(k['d']), k['chain'], k['testnet'], k['depth'], k['fp'], k['num'])
        nodes.append(n if private else n.neuter())
    for rnd, seq in enumerate((nodes, nodes[::-1], nodes)):
        for j, n in enumerate(seq):
            w = wallet(n, private)
            for i in ((0, 5, 0x80000000) if private else (0, 5)):
                case = dict(node=n.ext(private), index=i, round=rnd, at=j)
                r = step(ctx, w, n, i, case)
                ctx.ok(r is not None, case, 'nothing derived')
                ctx.state((n.ext(private), i, rnd))
            look(ctx, w, n, dict(parent=n.ext(private), round=rnd))
        ctx.trace()


def u_invalid(ctx):
    fast.on()
    n = wal.master(b'inv')
    for private in (True, False):
        w = wallet(n, private)
        for i in (-1, -2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 33, 2 ** 64, 1 << 40) + (() if private else (0x80000000, 0x80000001, 0xffffffff, 0x90000000)):
            ctx.raises(lambda: w.child(i), (private, i), 'invalid index')
            ctx.trans()
        look(ctx, w, n if private else n.neuter(), ('after refusals', private))
        d = wal.Node(n.d, n.Q, n.chain, False, 255, b'abcd', 7)
        w = wallet(d, private)
        for i in (0, 1, 0x80000000):
            ctx.raises(lambda: w.child(i), (private, i), 'depth over 255')
        d = wal.Node(n.d, n.Q, n.chain, False, 254, b'abcd', 7)
        step(ctx, wallet(d, private), d if private else d.neuter(), 3, ('depth 255', private))
        ctx.trace()


def u_chain(ctx, private):
    fast.on()
    n = wal.master(b'long')
    if not private:
        n = n.neuter()
    w = wallet(n, private)
    for k in range(255):
        i = [0, 1, 0x7fffffff, 3][k % 4] if not private or k % 3 else 0x80000000 + k
        r = step(ctx, w, n, i, dict(depth=k + 1))
        w, n = r
        ctx.state(n.key())
    ctx.raises(lambda: w.child(0), 'depth 256', 'depth over 255')
    ctx.trace()


class FakeMac(object):
    def __init__(self, out):
        self.out = out
        self.digest_size = 64
        self.block_size = 128

    def digest(self):
        return self.out

    def hexdigest(self):
        return self.out.hex()

    def update(self, x):
        pass

    def copy(self):
        return self


def u_mac(ctx, d):
    """Adversarial HMAC outputs: IL at and beyond the order, IL = 0, child key zero, child point infinity, doubling."""
    fast.on()
    n = wal.Node(d, wal.pub(d), b'\x22' * 32, False)
    chain = bytes(range(32))
    real = hmac.new, getattr(hmac, 'digest', None)
    for t in sorted({0, 1, 2, N - 1, N, N + 1, N + 5, 2 ** 256 - 1, N - d, d, N - d + 1, N - d - 1, (N + 1) // 2, 2 ** 255, 2 ** 200, 255}):
        out = wal.b32(t) + chain
        used = []

        def new(*a, **k):
            used.append(1)
            return FakeMac(out)
        for private, i in ((True, 0), (True, 0x80000000), (False, 0)):
            w = wallet(n, private)
            m = n if private else n.neuter()
            want = m.child(i, lambda k, x: out)
            case = dict(d=hex(d), IL=hex(t), private=private, index=i)
            ctx.current = case
            w.point()
            hmac.new, hmac.digest = new, lambda *a: new().digest()
            try:
                try:
                    got = w.child(i)
                except Exception as e:
                    got = None
            finally:
                hmac.new, hmac.digest = real
            if not used:
                ctx.notes['mac'] = 'HMAC not interceptable'
                return
            ctx.trans()
            ctx.state(('mac', d, t, private, i))
            if want is None:
                ctx.ok(got is None, case, 'gave a child where BIP32 has none')
            else:
                ctx.ok(got is not None, case, 'no child')
                look(ctx, got, want, case)
            ctx.outcome('mac %s' % ('none' if want is None else 'child'))
            ctx.trace()


def u_seed_mac(ctx):
    """Adversarial HMAC outputs of a seed: a key at and beyond the order is no key as it stands."""
    fast.on()
    chain = bytes(range(32))
    real = hmac.new, getattr(hmac, 'digest', None)
    for t in sorted({0, 1, 2, N - 2, N - 1, N, N + 1, N + 5, 2 ** 256 - 1, 2 ** 255, 2 ** 200, 255, N // 2}):
        for testnet in (False, True):
            case = dict(IL=hex(t), testnet=testnet)
            ctx.current = case
            used = []

            def new(*a, **k):
                used.append(1)
                return FakeMac(wal.b32(t) + chain)
            hmac.new, hmac.digest = new, lambda *a: new().digest()
            try:
                got = W.HDWallet.from_master_seed(b'any seed at all.', vcn=4, testnet=testnet)
            except Exception:
                got = None
            finally:
                hmac.new, hmac.digest = real
            if not used:
                ctx.notes['seed mac'] = 'HMAC not interceptable'
                return
            ctx.trans()
            ctx.trace()
            ctx.state(('seed', t, testnet))
            if t in (0, N):
                ctx.ok(got is None, case, 'a wallet without a key')
            elif got is None:
                ctx.ok(t >= N, case, 'no wallet')
            else:
                look(ctx, got, wal.Node(t % N, wal.pub(t % N), chain, testnet), case)


def u_keys(ctx, ds, slow=False):
    """Keys with leading zeros, small keys, keys whose point has a short coordinate."""
    fast.off() if slow else fast.on()
    for d in ds:
        n = wal.Node(d, wal.pub(d), bytes(16) + wal.b32(d)[:16], d % 2 == 0, 3, b'\0\0\1\0', 0x80000000)
        w, p = wallet(n), wallet(n, False)
        look(ctx, w, n, hex(d))
        look(ctx, p, n.neuter(), hex(d))
        for i in (0, 0x80000000, 0xffffffff) if not slow else (5,):
            step(ctx, w, n, i, (hex(d), i))
            step(ctx, p, n.neuter(), i, (hex(d), i, 'public'))
        ctx.state(n.key())
        ctx.trace()


def special(limit):
    out = [1, 2, 3, 7, 255, 256, N - 1, N - 2, N // 2, 1 << 128, (1 << 248) - 1, 1 << 247, 1 << 255]
    k, R = 0, None
    while len(out) < limit:
        k += 1
        R = wal.c.add(R, wal.G)
        if R[0] >> 248 == 0 or R[1] >> 248 == 0:
            out.append(k)
    return out


def units(tier):
    th = tier == 'thorough'
    for r in range(18 if th else 9):
        yield 'tree %d wide' % r, u_tree, (r, IDX, 3 if th else 2)
        yield 'tree %d deep' % r, u_tree, (r, [0, 0x80000000, 0x7fffffff] + ([1] if th else []), 5 if th else 4)
    yield 'vectors', u_vectors, ()
    yield 'text seeds', u_text, ()
    yield 'orders private', u_orders, (True,)
    yield 'orders public', u_orders, (False,)
    yield 'invalid', u_invalid, ()
    yield 'alike private', u_alike, (True,)
    yield 'alike public', u_alike, (False,)
    yield 'chain private', u_chain, (True,)
    yield 'chain public', u_chain, (False,)
    for d in (1, 2, N - 1, 0x1234 << 100):
        yield 'mac %d' % (d & 0xff), u_mac, (d,)
    yield 'seed mac', u_seed_mac, ()
    sp = special(300 if th else 40)
    for i in range(0, len(sp), 10):
        yield 'keys %d' % i, u_keys, (sp[i:i + 10],)
    yield 'slow', u_keys, ([1, N - 1, 0x123 << 99], True)
