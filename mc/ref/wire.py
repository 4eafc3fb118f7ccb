"""Reference of the Bitcoin wire format (protocol documentation), independent of the code under test.

A type is a tuple: ('int', size, signed, order), ('varint',), ('bytes', n), ('varstr',), ('ip',), ('array', type, min,
max), ('struct', fields), ('opt', type, default).  Values are plain Python: int, bytes, list, dict.
"""
import hashlib
import ipaddress
import re


class Bad(Exception):
    pass


def i(size, signed=False, order='little'):
    return ('int', size, signed, order)


U8, U32, U64, S32, S64, PORT = i(1), i(4), i(8), i(4, True), i(8, True), i(2, False, 'big')
VARINT, VARSTR, IP, H32 = ('varint',), ('varstr',), ('ip',), ('bytes', 32)


def arr(t, lo=0, hi=None):
    return ('array', t, lo, hi)


def struct(*fields):
    return ('struct', fields)


ADDR0 = struct(('services', U64), ('address', IP), ('port', PORT))
ADDR = struct(('timestamp', U32), ('services', U64), ('address', IP), ('port', PORT))
INV = struct(('object_type', U32), ('hash', H32))
OUTPOINT = struct(('hash', H32), ('index', U32))
TXIN = struct(('previous_output', OUTPOINT), ('signature_script', VARSTR), ('sequence', U32))
TXOUT = struct(('value', S64), ('pk_script', VARSTR))
TX = struct(('version', U32), ('tx_in', arr(TXIN, 1)), ('tx_out', arr(TXOUT, 1)), ('lock_time', U32))
HEADFIELDS = (('version', U32), ('prev_block', H32), ('merkle_root', H32), ('timestamp', U32), ('bits', U32), ('nonce', U32))
HEAD = struct(*(HEADFIELDS + (('txn_count', VARINT),)))
ALERT = struct(('version', S32), ('relay_until', S64), ('expiration', S64), ('id', S32), ('cancel', S32), ('set_cancel', arr(S32)), ('min_ver', S32), ('max_ver', S32),
               ('set_sub_ver', arr(VARSTR)), ('priority', S32), ('comment', VARSTR), ('status_bar', VARSTR), ('reserved', VARSTR))
_inv = struct(('inventory', arr(INV, 0, 50000)))
_loc = struct(('version', U32), ('block_locator_hashes', arr(H32, 1)), ('hash_stop', H32))
_none = struct()
_nonce = struct(('nonce', ('bytes', 8)))

MESSAGES = {
    'version': ('Version', struct(('version', S32), ('services', U64), ('timestamp', S64), ('addr_recv', ADDR0), ('addr_from', ADDR0), ('nonce', ('bytes', 8)), ('user_agent', VARSTR),
                                  ('start_height', S32), ('relay', ('opt', U8, 1)))),
    'verack': ('VersionAck', _none), 'getaddr': ('GetAddress', _none), 'mempool': ('MemoryPool', _none),
    'addr': ('Address', struct(('addr_list', arr(ADDR, 0, 1000)))),
    'inv': ('Inventory', _inv), 'getdata': ('GetData', _inv), 'notfound': ('NotFound', _inv),
    'getblocks': ('GetBlocks', _loc), 'getheaders': ('GetHeaders', _loc),
    'tx': ('Transaction', TX),
    'block': ('Block', struct(*(HEADFIELDS + (('txns', arr(TX)),)))),
    'headers': ('Headers', struct(('headers', arr(HEAD)))),
    'ping': ('Ping', _nonce), 'pong': ('Pong', _nonce),
    'reject': ('Reject', struct(('message', VARSTR), ('ccode', U8), ('reason', VARSTR))),
    'alert': ('Alert', struct(('payload', VARSTR), ('signature', VARSTR))),
}
# defined by the code but documented as not accepted from peers
UNREGISTERED = {
    'filterload': ('FilterLoad', struct(('filter', arr(U8)), ('n_hashes_func', U32), ('n_tweak', U32), ('n_flags', U8))),
    'filteradd': ('FilterAdd', struct(('data', VARSTR))),
    'filterclear': ('FilterClear', _none),
    'merkleblock': ('MerkleBlock', struct(*(HEADFIELDS + (('total_transactions', U32), ('hashes', arr(H32)), ('flags', arr(U8)))))),
}


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def varint(v):
    if not 0 <= v < 1 << 64:
        raise Bad('varint %r' % v)
    for lim, pre, size in ((0xfd, b'', 1), (1 << 16, b'\xfd', 2), (1 << 32, b'\xfe', 4), (1 << 64, b'\xff', 8)):
        if v < lim:
            return pre + v.to_bytes(size, 'little')


def ip16(v):
    if isinstance(v, bytes):
        return v
    if isinstance(v, str) and re.match(r'[0-9]{1,9}(\.[0-9]{1,9}){3}\Z', v):   # leading zeros read as decimal
        v = '.'.join(str(int(x)) for x in v.split('.'))
    try:
        a = ipaddress.ip_address(v)
    except ValueError as e:
        raise Bad(str(e))
    return bytes(10) + b'\xff\xff' + a.packed if a.version == 4 else a.packed


def get(o, name):
    return o[name] if isinstance(o, dict) else getattr(o, name)


def canon(t, v):
    """The value in comparable form, from reference values or objects of the code; Bad when the type cannot hold it."""
    k = t[0]
    if k == 'int':
        n = int(v)
        if not (-(1 << 8 * t[1] - 1) if t[2] else 0) <= n < 1 << 8 * t[1] - t[2]:
            raise Bad('number %r' % (v,))
        return n
    if k == 'varint':
        if not 0 <= v < 1 << 64:
            raise Bad('varint %r' % (v,))
        return int(v)
    if k == 'bytes':
        if not isinstance(v, bytes) or len(v) != t[1]:
            raise Bad('bytes %r' % (v,))
        return v
    if k == 'varstr':
        if isinstance(v, str):
            try:
                return v.encode('latin-1')
            except UnicodeError as e:
                raise Bad(str(e))
        if not isinstance(v, bytes):
            raise Bad('string %r' % (v,))
        return v
    if k == 'ip':
        return ip16(v)
    if k == 'array':
        return tuple(canon(t[1], x) for x in v)
    if k == 'opt':
        return canon(t[1], v)
    return tuple((n, canon(f, get(v, n))) for n, f in t[1])


def enc(t, v):
    """Bytes of a canonical value."""
    k = t[0]
    if k == 'int':
        return (v % (1 << 8 * t[1])).to_bytes(t[1], t[3])
    if k == 'varint':
        return varint(v)
    if k == 'bytes' or k == 'ip':
        return v
    if k == 'varstr':
        return varint(len(v)) + v
    if k == 'array':
        return varint(len(v)) + b''.join(enc(t[1], x) for x in v)
    if k == 'opt':
        return enc(t[1], v)
    return b''.join(enc(f, x) for (n, f), (_, x) in zip(t[1], v))


def encode(t, v):
    return enc(t, canon(t, v))


def take(b, o, n):
    if len(b) - o < n:
        raise Bad('data ends inside a field')
    return b[o:o + n], o + n


def dec(t, b, o=0):
    """(canonical value, end), Bad when the data does not hold one."""
    k = t[0]
    if k == 'int':
        x, o = take(b, o, t[1])
        return int.from_bytes(x, t[3], signed=t[2]), o
    if k == 'varint':
        x, o = take(b, o, 1)
        if x[0] < 0xfd:
            return x[0], o
        x, o = take(b, o, {0xfd: 2, 0xfe: 4, 0xff: 8}[x[0]])
        return int.from_bytes(x, 'little'), o
    if k == 'bytes':
        return take(b, o, t[1])
    if k == 'ip':
        return take(b, o, 16)
    if k == 'varstr':
        n, o = dec(VARINT, b, o)
        return take(b, o, n)
    if k == 'array':
        n, o = dec(VARINT, b, o)
        if n > len(b) - o:   # every element is at least one byte
            raise Bad('list longer than the data')
        out = []
        for _ in range(n):
            x, o = dec(t[1], b, o)
            out.append(x)
        return tuple(out), o
    if k == 'opt':
        try:
            return dec(t[1], b, o)
        except Bad:
            return t[2], o
    out = []
    for n, f in t[1]:
        x, o = dec(f, b, o)
        out.append((n, x))
    return tuple(out), o


def limits(t, v):
    """Whether all lists of a canonical value have a length the type allows."""
    k = t[0]
    if k == 'array':
        return len(v) >= t[2] and (t[3] is None or len(v) <= t[3]) and all(limits(t[1], x) for x in v)
    if k == 'struct':
        return all(limits(f, x) for (n, f), (_, x) in zip(t[1], v))
    return True


def frame(magic, command, payload):
    return magic + command.encode('latin-1').ljust(12, b'\0') + len(payload).to_bytes(4, 'little') + dsha(payload)[:4] + payload


def merkle(hashes):
    h = list(hashes)
    while len(h) > 1:
        h = [dsha(h[j] + h[min(j + 1, len(h) - 1)]) for j in range(0, len(h), 2)]
    return h[0]
