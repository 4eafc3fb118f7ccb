"""C18: extended keys."""
import itertools

from .. import entropy
from nbc import wallet as W
from .. import fast
from ..ref import wal, ec, base58 as R
from .c17 import look, wallet

LEVEL = 'exploration'
RULE = 'every listed node in both forms; every one-character edit of the listed keys; every listed 78-byte content with a valid checksum; distinct by text'
BOUNDS = dict(quick='all combinations of 5 keys, 3 chain codes, 4 depths, 3 fingerprints, 4 indexes, 2 networks, private and public; 4 texts with every one-character change, deletion, insertion and swap; contents: every version byte flipped, boundary keys and coordinates, every key prefix byte, lengths 0..90, bytes behind, in front of and inside a complete key; the same for nodes of depth 0, 1, 9 and 255',
              thorough='9 keys, all 256 depths; 12 texts')
ASSUMPTIONS = ['depth 0 with a non-zero parent fingerprint or index may be accepted or refused', 'extended keys are given as bytes', 'large-number arithmetic is replaced by the reference (decided by C22/C23/C27)']
N, P = wal.N, wal.P
KEYS = [1, N - 1, 0x1234 << 96, 3, (1 << 200) + 5, 2, 7, N // 2, 1 << 255]
CHAINS = [bytes(32), b'\xff' * 32, bytes(range(32))]
V = {0x0488B21E: (False, False), 0x0488ADE4: (True, False), 0x043587CF: (False, True), 0x04358394: (True, True)}


def parse(text):
    """The node, None when not a valid extended key."""
    raw = R.decode_check(text)
    if raw is None or len(raw) != 78:
        return None
    v = V.get(int.from_bytes(raw[:4], 'big'))
    if v is None:
        return None
    prv, testnet = v
    if prv:
        d = int.from_bytes(raw[46:], 'big')
        if raw[45] or not 0 < d < N:
            return None
        Q = wal.pub(d)
    else:
        d = None
        Q = wal.parse_pub(raw[45:])
        if Q is None:
            return None
    return wal.Node(d, Q, raw[13:45], testnet, raw[4], raw[5:9], int.from_bytes(raw[9:13], 'big'))


def chk(ctx, text):
    ctx.eval()
    if not ctx.state(text):
        return
    ctx.current = text
    want = parse(text)
    if want is None:
        ctx.raises(lambda: W.HDWallet.from_extended_key(text), text, 'invalid extended key')
        ctx.outcome('refused')
        return
    if want.depth == 0 and (want.fp != b'\0' * 4 or want.num):
        return
    w = W.HDWallet.from_extended_key(text, vcn=5)
    look(ctx, w, want, text)
    ctx.ok(isinstance(W.HDWallet.from_extended_key(text).vcn, int), text, 'version number')
    if want.d is None:
        ctx.raises(lambda: w.to_extended_key(True), text, 'private extended key of a public node')
    ctx.outcome('accepted')


def u_nodes(ctx, d, depths):
    fast.on()
    Q = wal.pub(d)
    for chain, depth, fp, num, testnet in itertools.product(CHAINS, depths, (b'\0' * 4, b'\xff' * 4, b'\0\1\2\xff'), (0, 1, 0x7fffffff, 0x80000000, 0xffffffff), (False, True)):
        if depth == 0 and (num or fp != b'\0' * 4):
            continue
        n = wal.Node(d, Q, chain, testnet, depth, fp, num)
        case = n.key()
        for private in (True, False):
            m = n if private else n.neuter()
            w = wallet(n, private)
            look(ctx, w, m, case)
            chk(ctx, m.ext(private))
            if private:
                chk(ctx, m.ext(False))
                back = W.HDWallet.from_extended_key(w.to_extended_key(True))
                look(ctx, back, m, case)
            else:
                ctx.raises(lambda: w.to_extended_key(True), case, 'private extended key of a public node')
                look(ctx, W.HDWallet.from_extended_key(w.to_extended_key()), m, case)
    ctx.sample(dict(text=n.ext(True)))


def texts(th):
    out = []
    for j, d in enumerate(KEYS[:6] if th else KEYS[:2]):
        n = wal.Node(d, wal.pub(d), CHAINS[j % 3], j % 2 == 1, 1 + j, b'\1\2\3\4', 0x80000000)
        out += [n.ext(True), n.ext(False)]
    return out


def u_edit(ctx, t, lo, hi):
    A = R.ALPHABET.encode() + b'0OIl \x00\n\xff-'
    for i in range(lo, min(hi, len(t) + 1)):
        for a in A:
            chk(ctx, t[:i] + bytes([a]) + t[i + 1:])
            chk(ctx, t[:i] + bytes([a]) + t[i:])
        chk(ctx, t[:i])
        chk(ctx, t[i:])
        chk(ctx, t[:i] + t[i + 1:])
        chk(ctx, t[:i] + t[i + 1:i + 2] + t[i:i + 1] + t[i + 2:])
        chk(ctx, t[:i] + t[i:].swapcase())


def u_content(ctx, testnet, depth=9, d=0x77 << 120):
    fast.on()
    n = wal.Node(d, wal.pub(d), CHAINS[2], testnet, depth, b'\1\2\3\4' if depth else bytes(4), 5 if depth else 0)
    for private in (True, False):
        raw = R.decode_check(n.ext(private))
        out = set()
        for i in range(78):
            for b in range(8):
                out.add(raw[:i] + bytes([raw[i] ^ 1 << b]) + raw[i + 1:])
        for i in range(4):
            for x in range(256):
                out.add(raw[:i] + bytes([x]) + raw[i + 1:])
        for v in list(V) + [0, 0xffffffff, 0x049d7cb2, 0x049d7878, 0x04b24746, 0x045f1cf6, 0x1e0488b2]:
            out.add(v.to_bytes(4, 'big') + raw[4:])
        for x in range(256):
            out.add(raw[:45] + bytes([x]) + raw[46:])
            out.add(raw[:4] + bytes([x]) + raw[5:])
        for v in (0, 1, 2, N - 1, N, N + 1, 2 ** 256 - 1, P, P - 1, P + 1, 2 ** 255):
            out.add(raw[:45] + b'\0' + wal.b32(v))
        for x in list(range(0, 40)) + [P - 1, P, P + 1, P + 2, P + 3, P + 6, N, 2 ** 256 - 1, n.Q[0]]:
            for pre in (0, 1, 2, 3, 4, 5, 6, 7):
                out.add(raw[:45] + bytes([pre]) + wal.b32(x))
        for l in list(range(0, 78)) + list(range(79, 91)):
            out.add((raw + bytes(20))[:l])
            out.add(raw[-l:] if l else b'')
        for r in sorted(out):
            chk(ctx, R.encode_check(r))
            if len(r) == 78 and R.checksum(r)[3] % 16 == 0:
                chk(ctx, R.encode(r + R.checksum(r)[:3] + b'\0' if R.checksum(r)[3] else r + b'\0\0\0\0'))
        chk(ctx, R.encode(raw))
        whole = raw + R.checksum(raw)
        for l in list(range(1, 9)) + [16, 32, 78, 82]:
            for junk in (b'\0' * l, b'\xff' * l, (raw + raw)[:l], (R.checksum(whole) * 30)[:l]):
                for t in (whole + junk, junk + whole, raw + junk + R.checksum(raw), raw + R.checksum(raw + junk) + junk, whole + R.checksum(whole)):
                    chk(ctx, R.encode(t))
        chk(ctx, b'1' + n.ext(private))
        chk(ctx, n.ext(private) + b'1')


def units(tier):
    th = tier == 'thorough'
    for d in KEYS if th else KEYS[:5]:
        for k, depths in enumerate([range(j, 256, 8) for j in range(8)] if th else [(0, 1), (127, 255)]):
            yield 'nodes %d %d' % (d & 0xffff, k), u_nodes, (d, list(depths))
    for j, t in enumerate(texts(th)):
        for lo in range(0, 113, 28):
            yield 'edit %d %d' % (j, lo), u_edit, (t, lo, lo + 28)
    yield 'content', u_content, (False,)
    yield 'content test', u_content, (True,)
    for depth, d in ((0, N - 2), (1, 3), (255, 0x77 << 120)) if not th else itertools.product((0, 1, 2, 127, 128, 254, 255), (1, 3, 0x77 << 120, N - 2)):
        yield 'content %d %d' % (depth, d % 1000), u_content, (depth % 2 == 0, depth, d)
