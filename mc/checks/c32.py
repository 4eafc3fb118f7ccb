"""C32: operations on separate objects, and reads of one object, in threads and in every order within one process."""
import hashlib
import itertools
import os
import pickle
import random

from .. import entropy      # before nbc

LEVEL = 'model_checking'
BOUNDS = dict(quick='50 operations x 3 argument variants; every ordered pair of operations in its own process (the first one repeated afterwards), every ordered pair of two variants of one operation, one process running all ordered pairs in a row; two threads: every operation against a variant of itself preempted once at every line, once at every shared-object bytecode for the shorter ones, reads of 9 shared objects: every ordered pair of reads preempted once at every shared-object bytecode, twice at every line for the short ones; the same operation on the same values in both threads, switched at every line',
              thorough='every ordered triple of operations; every ordered pair of operations preempted once at every line; bytecode level for all; two preemptions of operation variants at line level (calls for the long ones)')
ASSUMPTIONS = ['calls of C functions are atomic (global interpreter lock)', 'large-number arithmetic is replaced by the reference (decided by C22/C23/C27)', 'signatures and random parts are judged by verification and recombination']


class Env(object):
    pass


def env():
    """Everything the operations need; called once per process, before the scheduler is installed."""
    from nbc import wallet as W, util, coins
    from nbc.protocol import format as F, messages as M
    from nbc.util import base58, key, ecc, piecewise, pyaes
    from .. import fast, msgs, wfiles
    from ..ref import wire, wal
    fast.on()
    entropy.free()
    os.fsync = lambda fd: None
    e = Env()
    e.__dict__.update(locals())
    return e


PAT = bytes((i * 89 + 7) % 256 for i in range(400))
KEYS = [0x1234567890abcdef << 150 | 77, (1 << 255) + 12345, 3]


def operations(e, probe=False):
    """name -> function of a variant number; every one makes its own objects and returns a comparable value."""
    W, util, coins, F, M, base58, key, ecc, piecewise, pyaes, msgs, wire, wal = e.W, e.util, e.coins, e.F, e.M, e.base58, e.key, e.ecc, e.piecewise, e.pyaes, e.msgs, e.wire, e.wal
    magic = coins.Newbitcoin.magic
    ops = {}

    def op(f):
        ops[f.__name__.replace('_', '-')] = f
        return f

    def build(command):
        t = msgs.schema(command)
        vals = msgs.values(t, False)
        many = msgs.values(t, True)

        def f(v):
            val = [vals[0], vals[1], many[-1]][v]
            return msgs.message(command, val).binary(magic)
        return f

    def parse(command):
        t = msgs.schema(command)
        vals = msgs.values(t, False)
        many = msgs.values(t, True)
        wires = [wire.frame(magic, command, wire.enc(t, wire.canon(t, x))) for x in (vals[0], vals[1], many[-1])]

        def f(v):
            p = M.Message.parse(wires[v], magic)
            return wire.canon(t, p), p.binary(magic), str(p)
        return f
    for c in ('version', 'addr', 'inv', 'headers', 'block', 'tx', 'getblocks', 'reject', 'ping'):
        ops['parse-' + c] = parse(c)
    for c in ('version', 'inv', 'tx', 'block'):
        ops['build-' + c] = build(c)

    def bad(f):
        try:
            return 'no error: %r' % (f(),)
        except Exception as x:
            return type(x).__name__
    whole = msgs.message('inv', msgs.values(msgs.schema('inv'), False)[1]).binary(magic)

    @op
    def parse_truncated(v):
        return bad(lambda: M.Message.parse(whole[:-1 - v], magic))

    @op
    def parse_checksum(v):
        return bad(lambda: M.Message.parse(whole[:20] + bytes([whole[20] ^ 1 << v]) + whole[21:], magic))

    @op
    def txn_hash(v):
        t = msgs.schema('tx')
        x = msgs.message('tx', msgs.values(t, True)[v])
        y = getattr(x, 'txn', None) or getattr(x, 'tx', None) or x
        return getattr(y, 'hash', None), x.binary(magic)

    @op
    def merkle(v):
        class H(object):
            def __init__(self, i):
                self.hash = hashlib.sha256(bytes([i, v])).digest()
        return util.get_merkle_root([H(i) for i in range(3 + v)])

    @op
    def target(v):
        return util.get_target([0x1d00ffff, 0x1b0404cb, 0x207fffff][v]), util.get_difficulty([0x1d00ffff, 0x1b0404cb, 0x207fffff][v])

    @op
    def header(v):
        return util.get_block_header(v + 1, PAT[v:v + 32], PAT[64 + v:96 + v], 1500000000 + v, 0x1d00ffff, v)

    # texts
    @op
    def b58_encode(v):
        return base58.b58encode(bytes(v) + PAT[v:v + 25])

    @op
    def b58_decode(v):
        return base58.b58decode(['1112', 'StV1DL6CwTryKyV', '2cFupjhnEsSn59qHXstmK2ffpLv2'][v])

    @op
    def b58_check(v):
        t = base58.encode_check(PAT[v:v + 21])
        return t, base58.decode_check(t), base58.decode_check(t[:-1] + (b'1' if isinstance(t, bytes) else '1'))

    @op
    def b58_bad(v):
        return bad(lambda: base58.b58decode(['0', 'aOb', 'x I'][v]))

    @op
    def wif(v):
        t = key.privkey_to_wif(PAT[v:v + 32] + (b'\x01' if v else b''))
        return t, key.privkey_from_wif(t)

    @op
    def compress_key(v):
        full = wal.full(wal.pub(KEYS[v]))
        return key.compress_public_key(full), key.decompress_public_key(wal.comp(wal.pub(KEYS[v])))

    @op
    def key_address(v):
        return key.publickey_to_address(wal.comp(wal.pub(KEYS[v])), 7 * v), key.pubkeyhash_to_address(PAT[v:v + 20], 300 * v)

    # ciphers
    def cipher(mode, two):
        def f(v):
            k, iv = PAT[v:v + (16, 24, 32)[v]], PAT[40 + v:56 + v]

            def mk():
                if mode is pyaes.AESModeOfOperationECB:
                    return mode(k)
                if mode is pyaes.AESModeOfOperationCTR:
                    return mode(k, pyaes.Counter(1000 + v))
                if mode is pyaes.AESModeOfOperationCFB:
                    return mode(k, iv, segment_size=(8, 4, 16)[v])
                return mode(k, iv)
            a, b = mk(), mk()
            p = [PAT[100:116], PAT[120 + v:136 + v]]
            x = [a.encrypt(q) for q in p]
            return x, [b.decrypt(q) for q in x]
        return f
    for n in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR'):
        ops['aes-' + n.lower()] = cipher(getattr(pyaes, 'AESModeOfOperation' + n), True)

    @op
    def aes_feeder(v):
        a = pyaes.Encrypter(pyaes.AESModeOfOperationCBC(PAT[v:v + 16], PAT[v + 30:v + 46]))
        d = pyaes.Decrypter(pyaes.AESModeOfOperationCBC(PAT[v:v + 16], PAT[v + 30:v + 46]))
        x = a.feed(PAT[:11 + v]) + a.feed(PAT[11 + v:20]) + a.feed()
        return x, d.feed(x[:7]) + d.feed(x[7:]) + d.feed()

    @op
    def aes_bad(v):
        return bad(lambda: pyaes.AESModeOfOperationCBC(PAT[:16], PAT[:16]).encrypt(PAT[:15 - v]))

    # wallets
    def wallet(v, private=True):
        return e.wfiles.Spec('addr', KEYS[v], private, v != 1, v == 2, 1000 * v + 5).make()

    def hd(v, private=True):
        return e.wfiles.Spec('hd', KEYS[v], private, True, v == 2, 1000 * v + 5, (v, b'\1\2\3\4', v, hashlib.sha256(bytes([v])).digest())).make()

    @op
    def addr_make(v):
        w, p = wallet(v), wallet(v, False)
        return e.wfiles.view(w), e.wfiles.view(p), str(w)

    @op
    def addr_switch(v):
        w = wallet(v)
        return [e.wfiles.view(x) for x in (w.compress(), w.decompress(), w.compress().decompress(), w)]

    @op
    def addr_sign(v):
        w = wallet(v)
        s = w.sign(PAT[v:v + 40])
        return w.verify(PAT[v:v + 40], s), w.verify(PAT[v + 1:v + 41], s), wallet(v, False).verify(PAT[v:v + 40], s), wallet((v + 1) % 3).verify(PAT[v:v + 40], s)

    @op
    def addr_cfg(v):
        w = wallet(v)
        return e.wfiles.view(W.Address.load_from_cfg(w.dump_to_cfg())), e.wfiles.view(W.Address.load_from_cfg(wallet(v, False).dump_to_cfg()))

    @op
    def addr_secret(v):
        c = wallet(v).dump_to_cfg(b'pass %d' % v)
        return e.wfiles.view(W.Address.load_from_cfg(c, b'pass %d' % v)), bad(lambda: W.Address.load_from_cfg(c, b'other'))

    @op
    def addr_bad(v):
        return bad(lambda: W.Address(privKey=[b'5Kb', b'L11', b'x'][v]))

    @op
    def addr_file(v):
        with e.wfiles.Scratch() as d:
            W.saveTo(d('w'), wallet(v), b'word')
            W.saveTo(d('w'), wallet((v + 1) % 3), b'word %d' % v)
            return e.wfiles.view(W.loadFrom(d('w'), b'word %d' % v)), sorted(os.listdir(d.path))

    @op
    def hd_make(v):
        return e.wfiles.view(hd(v)), e.wfiles.view(hd(v, False))

    @op
    def hd_seed(v):
        return e.wfiles.view(W.HDWallet.from_master_seed(['seed', b'\0' * 64, 'another one'][v], vcn=v))

    @op
    def hd_child(v):
        w = hd(v)
        return [w.child(i).to_extended_key(True) for i in (0, v, 0x80000000 + v)], hd(v, False).child(v).to_extended_key()

    @op
    def hd_ext(v):
        w = hd(v)
        return [e.wfiles.view(W.HDWallet.from_extended_key(t, vcn=v)) for t in (w.to_extended_key(), w.to_extended_key(True))]

    @op
    def hd_sign(v):
        w = hd(v)
        s = w.sign(PAT[v:v + 40])
        return w.verify(PAT[v:v + 40], s), hd(v, False).verify(PAT[v:v + 40], s), w.verify(PAT[:3], s), bad(lambda: hd(v, False).sign(b'x'))

    @op
    def hd_secret(v):
        c = hd(v).dump_to_cfg(b'pass %d' % v)
        return e.wfiles.view(W.HDWallet.load_from_cfg(c, b'pass %d' % v))

    @op
    def shared(v):
        k, l = KEYS[v], KEYS[(v + 1) % 3]
        return ecc.shared_secret(wal.full(wal.pub(k)), wal.wif(l, True)), ecc.shared_secret(wal.comp(wal.pub(l)), wal.wif(k, False))

    @op
    def split(v):
        k = wal.wif(KEYS[v], v != 1)
        parts = piecewise.split_private_key(k, 2 + v)
        return piecewise.combine_private_keys(parts[::-1]) == k, len(parts)

    @op
    def partial(v):
        k = wal.wif(KEYS[v], True)
        sets = piecewise.partial_split_private_key(k, 2, 3)
        return piecewise.partial_combine_private_keys([x for g in (sets[v:] + sets[:v])[:2] for x in sorted(g)]) == wal.wif(KEYS[v], False), len(sets)

    @op
    def alert(v):
        a = M.Alert(_alert(v), b'\x30\x06\x02\x01\x01\x02\x01\x01')
        return [getattr(a, n) for n in ('comment', 'version', 'set_cancel', 'status_bar', 'priority')], a.verify(coins.Newbitcoin.alert_public_key)

    @op
    def random_keys(v):
        a, b = W.Address.generate(vcn=v), W.Address.generate(vcn=v, compressed=False)
        return a.privKey != b.privKey, a.address == e.wfiles.Spec('addr', int.from_bytes(key.privkey_from_wif(a.privKey)[:32], 'big'), True, True, False, v).make().address, b.compressed
    from nbc.util.ecdsa import rfc6979, keys as ek, curves as ec_curves, der as ec_der

    @op
    def nonce(v):
        g = ec_curves.SECP256k1.generator
        return rfc6979.generate_k(g, KEYS[v], hashlib.sha256, hashlib.sha256(PAT[v:v + 9]).digest()), rfc6979.bits2octets(PAT[:32 - v], g.order()), rfc6979.bits2int(PAT[:20 + v], 150)

    @op
    def det_sign(v):
        sk = ek.SigningKey.from_secret_exponent(KEYS[v], ec_curves.SECP256k1, hashlib.sha256)
        s = sk.sign_deterministic(PAT[v:v + 20])
        return s, sk.get_verifying_key().verify(s, PAT[v:v + 20])

    @op
    def key_text(v):
        sk = ek.SigningKey.from_secret_exponent(KEYS[v], (ec_curves.SECP256k1, ec_curves.NIST256p, ec_curves.NIST256p)[v])
        vk = sk.get_verifying_key()
        a, b = ek.SigningKey.from_pem(sk.to_pem()), ek.VerifyingKey.from_der(vk.to_der())
        return sk.to_der(), a.to_string(), vk.to_pem(), b.to_string(), a.curve.name, b.curve.name

    @op
    def der(v):
        d = ec_der.encode_sequence(ec_der.encode_integer(KEYS[v]), ec_der.encode_oid(1, 2, 840 + v, 10045), ec_der.encode_octet_string(PAT[:120 + v * 100]))
        rest, tail = ec_der.remove_sequence(d + b'xy')
        i, rest = ec_der.remove_integer(rest)
        o, rest = ec_der.remove_object(rest)
        return d, tail, i, o, ec_der.remove_octet_string(rest), ec_der.unpem(ec_der.topem(d, 'X'))
    if probe:
        for n in list(ops):
            for v in range(3):
                try:
                    r = ops[n](v)
                except Exception as x:
                    raise AssertionError('operation %s(%d) fails alone: %r' % (n, v, x))
                if ops[n](v) != r:
                    raise AssertionError('operation %s(%d) is not repeatable: %r' % (n, v, r))
    return ops


def _alert(v):
    import struct
    return (struct.pack('<iqqii', v, 100 + v, 200, 5 + v, 6) + bytes([2]) + struct.pack('<ii', v, 9) + struct.pack('<ii', 1, 2 + v) + bytes([1, 3]) + b'/x/' + struct.pack('<i', 50 + v) +
            bytes([4]) + b'comm' + bytes([6]) + b'status'[:6] + bytes([0]))


def fork(f):
    """f() in a process of its own; its result or the text of its exception."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                out = (True, f())
            except BaseException as x:
                out = (False, '%s: %s' % (type(x).__name__, x))
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    ok, v = pickle.loads(data)
    return v if ok else 'raised ' + v


# The names are fixed here so that units() need not import the code.
NAMES = ('parse-version parse-addr parse-inv parse-headers parse-block parse-tx parse-getblocks parse-reject parse-ping build-version build-inv build-tx build-block parse-truncated parse-checksum txn-hash merkle '
         'target header b58-encode b58-decode b58-check b58-bad wif compress-key key-address aes-ecb aes-cbc aes-cfb aes-ofb aes-ctr aes-feeder aes-bad addr-make addr-switch addr-sign addr-cfg addr-secret addr-bad '
         'addr-file hd-make hd-seed hd-child hd-ext hd-sign hd-secret shared split partial alert random-keys nonce det-sign key-text der').split()


def guarded(f, v):
    try:
        return f(v)
    except Exception as x:
        return 'raised %s: %s' % (type(x).__name__, x)


def alone(ctx, e, only=None):
    """Every operation's result in a process of its own."""
    ops = operations(e) if only else fork_ops(e)
    assert sorted(ops) == sorted(NAMES), sorted(set(ops) ^ set(NAMES))
    base = {}
    for n in only or NAMES:
        for v in range(3):
            base[n, v] = fork(lambda: guarded(ops[n], v))
    return ops, base


def fork_ops(e):
    """The operations, without running one of them in this process."""
    err = fork(lambda: operations(e, True) and None)
    assert err is None, err
    return operations(e)


def judge(ctx, hist, got, base, how):
    for (n, v), g in zip(hist, got):
        ctx.eq(g, base[n, v], dict(history=hist, how=how), 'result of %s(%d), alone in a fresh process it is the second' % (n, v))


def u_orders(ctx, part, parts, depth):
    e = env()
    ops, base = alone(ctx, e)
    jobs = []
    for h in itertools.product(NAMES, repeat=depth):
        h = tuple((n, 0) for n in h)
        jobs.append(h + (h[0],) if depth == 2 else h)
    if depth == 2:
        for n in NAMES:
            for p in itertools.permutations(range(3)):
                jobs.append(tuple((n, v) for v in p) + ((n, p[0]),))
    for h in jobs[part::parts]:
        ctx.current = h
        got = fork(lambda: [guarded(ops[n], v) for n, v in h])
        if not isinstance(got, list):
            ctx.fail(dict(history=h), 'ended with %r' % (got,))
        judge(ctx, h, got, base, 'fresh process')
        ctx.state(h)
        ctx.trans(len(h))
        ctx.trace()
    ctx.outcome('orders')


def u_long(ctx, part, parts):
    """One process: all ordered pairs in a row."""
    e = env()
    ops, base = alone(ctx, e)
    names = NAMES[part:] + NAMES[:part]
    last = []
    for step in range(1, len(names)):
        for i in range(len(names)):
            n, v = names[(i * step) % len(names)], (i + step) % 3
            last.append((n, v))
            g = guarded(ops[n], v)
            ctx.current = last[-3:]
            ctx.eq(g, base[n, v], dict(history='%d operations in a row' % len(last), last=last[-6:], part=part), 'result of %s(%d)' % (n, v))
            ctx.trans()
            ctx.state(tuple(last[-2:]))
    ctx.trace()
    ctx.outcome('row')


def u_threads(ctx, pairs, level, bound, part, parts, visits=None):
    from .. import sched
    e = env()
    ops, base = alone(ctx, e, sorted({n for p in pairs for n, v in p}))
    sched.install()
    for a, b in pairs:
        res = {}

        def make():
            res.clear()
            entropy.stream('threads')
            random.seed(1)

            def main():
                t = sched.Thread(target=lambda: res.__setitem__('b', guarded(ops[b[0]], b[1])))
                t.start()
                res['a'] = guarded(ops[a[0]], a[1])
                sched.wait_all()

            def check(s):
                case = dict(threads=[a, b], level=level, schedule=ex.plan)
                ctx.eq(res['a'], base[a], case, 'result of %s(%d)' % a)
                ctx.eq(res['b'], base[b], case, 'result of %s(%d)' % b)
                ctx.state((a, b, ex.plan))
            return main, check
        ctx.current = (a, b)
        ex = sched.Explorer(bound, level, visits=visits)
        for plan in ex.all(make, part, parts):
            pass
        ctx.trans(ex.points)
        ctx.trace(ex.schedules)
        ctx.count('schedules', ex.schedules)
        ctx.outcome('%s/%s' % (a[0], b[0]) if a[0] != b[0] else a[0])


# ------------------------------------------------------------ reads of one shared object

def shared_objects(e):
    W, F, M, msgs, wire, wal = e.W, e.F, e.M, e.msgs, e.wire, e.wal
    magic = e.coins.Newbitcoin.magic
    sig = e.fork_sig

    def msg(command, i):
        t = msgs.schema(command)
        return M.Message.parse(wire.frame(magic, command, wire.enc(t, wire.canon(t, msgs.values(t, False)[i]))), magic)
    D = PAT[:33]

    def reads(*names):
        return {n: (lambda o, n=n: getattr(o, n)) for n in names}
    addr = dict(reads('address', 'privKey', 'pubKey', 'vcn', 'compressed'), pub=lambda w: w.publicKey(), text=str, verify=lambda w: w.verify(D, sig), wrong=lambda w: w.verify(D + b'x', sig),
                sign=lambda w: w.verify(D, w.sign(D)), cfg=lambda w: w.dump_to_cfg(), switch=lambda w: (w.compress().address, w.decompress().address))
    hd = dict(pub=lambda w: w.pubkey(), address=lambda w: w.address(), ext=lambda w: w.to_extended_key(), finger=lambda w: w.fingerprint(), child=lambda w: w.child(1).to_extended_key(),
              child2=lambda w: w.child(2).to_extended_key(), verify=lambda w: w.verify(D, sig), text=str, chain=lambda w: (w.chain(), w.depth(), w.parentfp(), w.childnum()))
    hdp = dict(hd, sign=lambda w: w.verify(D, w.sign(D)), extp=lambda w: w.to_extended_key(True), hard=lambda w: w.child(0x80000000).to_extended_key(True), prv=lambda w: w.prvkey())
    message = lambda c: dict(binary=lambda m: m.binary(magic), other=lambda m: m.binary(b'abcd'), text=str, fields=lambda m: wire.canon(msgs.schema(c), m), magic=lambda m: m.magic, command=lambda m: m.command)
    alert = {n: (lambda o, n=n: list(getattr(o, n)) if isinstance(getattr(o, n), (list, tuple)) else getattr(o, n))
             for n in ('version', 'set_cancel', 'min_ver', 'set_sub_ver', 'comment', 'status_bar', 'reserved')}
    alert['text'] = str
    alert['verify'] = lambda a: a.verify(wal.full(wal.pub(KEYS[0])))
    ecb = dict(enc=lambda c: c.encrypt(PAT[:16]), enc2=lambda c: c.encrypt(PAT[16:32]), dec=lambda c: c.decrypt(PAT[:16]), dec2=lambda c: c.decrypt(PAT[16:32]))
    S = e.wfiles.Spec
    ch = (0, b'\0' * 4, 0, b'\x42' * 32)
    out = {
        'address': (lambda: S('addr', KEYS[0], True, True, False, 5).make(), addr),
        'hd': (lambda: S('hd', KEYS[0], True, True, False, 5, ch).make(), hdp),
        'hd-public': (lambda: S('hd', KEYS[0], False, True, False, 5, ch).make(), hd),
        'alert': (lambda: M.Alert(_alert(1), sig), alert),
        'ecb': (lambda: e.pyaes.AESModeOfOperationECB(PAT[:32]), ecb),
    }
    for c in ('version', 'inv', 'tx', 'block'):
        out['message-' + c] = (lambda c=c: msg(c, 1), message(c))
    return out


SHARED_NAMES = ('address', 'hd', 'hd-public', 'alert', 'ecb', 'message-version', 'message-inv', 'message-tx', 'message-block')


def u_shared(ctx, name, level, bound, part, parts, visits=None, only=None):
    from .. import sched
    e = env()
    e.fork_sig = fork(lambda: e.wfiles.Spec('addr', KEYS[0], True, True, False, 5).make().sign(PAT[:33]))
    make_obj, reads = shared_objects(e)[name]
    base = {n: fork(lambda: guarded(f, make_obj())) for n, f in reads.items()}
    # every order of three reads of one object
    names = sorted(reads)
    if part == 0:
        for h in itertools.product(names, repeat=3):
            o = make_obj()
            for n in h:
                ctx.eq(guarded(reads[n], o), base[n], dict(object=name, reads=h), 'read %s' % n)
            ctx.trans(3)
            ctx.state((name, h))
    sched.install()
    pairs = [(a, b) for a in names for b in names if only is None or (a in only and b in only)]
    for a, b in pairs[part::parts]:
        res = {}

        def make():
            res.clear()
            entropy.stream('threads')
            random.seed(1)

            def main():
                o = make_obj()
                t = sched.Thread(target=lambda: res.__setitem__('b', guarded(reads[b], o)))
                t.start()
                res['a'] = guarded(reads[a], o)
                sched.wait_all()
                res['then'] = (guarded(reads[a], o), guarded(reads[b], o))

            def check(s):
                case = dict(object=name, threads=[a, b], level=level, schedule=ex.plan)
                ctx.eq(res['a'], base[a], case, 'read %s' % a)
                ctx.eq(res['b'], base[b], case, 'read %s' % b)
                ctx.eq(res['then'], (base[a], base[b]), case, 'reads afterwards')
                ctx.state((name, a, b, ex.plan))
            return main, check
        ctx.current = (name, a, b)
        ex = sched.Explorer(bound, level, visits=visits)
        for plan in ex.all(make):
            pass
        ctx.trans(ex.points)
        ctx.trace(ex.schedules)
        ctx.count('schedules', ex.schedules)
        ctx.outcome('shared %s' % name)


SOME = {'hd': ('pub', 'address', 'child', 'child2', 'sign', 'verify', 'extp'), 'hd-public': ('pub', 'child', 'child2', 'verify', 'ext'), 'address': ('pub', 'sign', 'verify', 'switch', 'cfg'), 'alert': ('version', 'set_cancel', 'comment', 'reserved', 'text')}
LONG = 'parse-version parse-addr parse-headers parse-block parse-tx build-version build-block addr-switch addr-file addr-sign addr-secret hd-child hd-ext hd-sign hd-secret split partial aes-ecb aes-cbc aes-cfb aes-ofb aes-ctr aes-feeder addr-cfg addr-make hd-make hd-seed random-keys det-sign key-text'.split()


def units(tier):
    q = tier == 'quick'
    for k in range(16 if q else 32):
        yield ('orders-2-%d' % k, u_orders, (k, 16 if q else 32, 2))
    if not q:
        for k in range(128):
            yield ('orders-3-%d' % k, u_orders, (k, 128, 3))
    for k in (0, 17) if q else range(0, len(NAMES), 5):
        yield ('row-%d' % k, u_long, (k, 0))
    for n in NAMES:
        pairs = [((n, 0), (n, 1)), ((n, 2), (n, 0))]
        yield ('same-%s' % n, u_threads, ([((n, 1), (n, 1))], 'line', 1, 0, 1, (2 if n not in LONG else 1) if q else 4))
        if q:
            yield ('line-%s' % n, u_threads, (pairs, 'line', 1, 0, 1, 2 if n not in LONG else 1))
            if n not in LONG:
                yield ('op-%s' % n, u_threads, (pairs[:1], 'op', 1, 0, 1, 2))
        else:
            for k in range(4):
                yield ('op-%s-%d' % (n, k), u_threads, (pairs, 'op', 1, k, 4))
                yield ('line2-%s-%d' % (n, k), u_threads, (pairs[:1], 'line' if n not in LONG else 'call', 2, k, 4))
    if not q:
        for a in NAMES:
            yield ('pairs-%s' % a, u_threads, ([((a, 0), (b, 1)) for b in NAMES if b != a], 'line', 1, 0, 1))
    for s in SHARED_NAMES:
        for k in range(6):
            yield ('shared-%s-%d' % (s, k), u_shared, (s, 'line' if q and s not in ('alert', 'message-inv') else 'op', 1, k, 6, 1 if q else None, SOME.get(s) if q else None))
            if not q:
                yield ('shared2-%s-%d' % (s, k), u_shared, (s, 'call', 2, k, 6))
