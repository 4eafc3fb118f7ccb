"""The subset of DER used for ECDSA signatures and keys, from X.690."""


def length(n):
    if n < 0x80:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(b)]) + b


def tlv(tag, body):
    return bytes([tag]) + length(len(body)) + body


def integer(n):
    return tlv(2, n.to_bytes(n.bit_length() // 8 + 1, 'big'))


def sig(r, s):
    return tlv(0x30, integer(r) + integer(s))


def base128(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.append(n & 0x7f | 0x80)
        n >>= 7
    return bytes(reversed(out))


def oid(*ps):
    return tlv(6, bytes([40 * ps[0] + ps[1]]) + b''.join(base128(p) for p in ps[2:]))


OID_EC = (1, 2, 840, 10045, 2, 1)


def pubkey(curve_oid, x, y, l):
    pt = b'\x04' + x.to_bytes(l, 'big') + y.to_bytes(l, 'big')
    return tlv(0x30, tlv(0x30, oid(*OID_EC) + oid(*curve_oid)) + tlv(3, b'\x00' + pt))


def privkey(curve_oid, d, x, y, l):
    pt = b'\x04' + x.to_bytes(l, 'big') + y.to_bytes(l, 'big')
    return tlv(0x30, integer(1) + tlv(4, d.to_bytes(l, 'big')) + tlv(0xa0, oid(*curve_oid)) + tlv(0xa1, tlv(3, b'\x00' + pt)))


class Bad(Exception):
    pass


def take(tag, data):
    """(body, rest) of one element; lengths in any form (BER), everything must be present."""
    if len(data) < 2 or data[0] != tag:
        raise Bad('tag')
    n, off = data[1], 2
    if n & 0x80:
        k = n & 0x7f
        if k == 0 or len(data) < 2 + k:
            raise Bad('length')
        n, off = int.from_bytes(data[2:2 + k], 'big'), 2 + k
    if off + n > len(data):
        raise Bad('truncated')
    return data[off:off + n], data[off + n:]


def take_int(data):
    body, rest = take(2, data)
    if not body or body[0] & 0x80:
        raise Bad('integer')
    return int.from_bytes(body, 'big'), rest


def parse_sig(data):
    body, rest = take(0x30, data)
    if rest:
        raise Bad('trailing')
    r, rest = take_int(body)
    s, rest = take_int(rest)
    if rest:
        raise Bad('trailing')
    return r, s


def selftest():
    assert oid(*OID_EC).hex() == '06072a8648ce3d0201'
    assert sig(1, 128).hex() == '300702010102020080'
    assert parse_sig(sig(0xff, 0)) == (0xff, 0)
    assert length(300) == b'\x82\x01\x2c'
