"""Pieces shared by the checks of the network node."""
from .netenv import Net, install


def lab():
    """The node and message helpers; the outside world is replaced first (only inside a unit)."""
    install()
    from . import nodes
    return nodes


def want(P, stream):
    """Reference: [(end offset, command, fields)] of the complete well-formed frames of a stream."""
    R, out, pos = P.R, [], 0
    while len(stream) - pos >= 24:
        n = int.from_bytes(stream[pos + 16:pos + 20], 'little')
        end = pos + 24 + n
        if end > len(stream):
            break
        head, p = stream[pos:pos + 24], stream[pos + 24:end]
        raw = head[4:16]
        c = raw.rstrip(b'\0')
        if head[:4] == P.MAGIC and R.dsha(p)[:4] == head[20:24] and c.decode('latin-1') in R.MESSAGES:
            c = c.decode('latin-1')
            try:
                v, used = R.dec(R.MESSAGES[c][1], p)
                out.append((end, c, v))
            except R.Bad:
                pass
        pos = end
    return out


def snap(o):
    """What a connection remembers, as far as it is plain data."""
    return repr(sorted((k, bytes(v) if isinstance(v, bytearray) else v) for k, v in vars(o).items()
                       if isinstance(v, (bytes, bytearray, int, float, str, bool, type(None), list, tuple))))


def peer_of(net, remote):
    for p in net.node.peers:
        if p.address == remote.address:
            return p


def got(net, address):
    return [(c, v) for a, c, v, t in net.dispatched if a == address]


def show(segs):
    return [s.hex() if len(s) < 400 else '%s...(%d bytes)' % (s[:48].hex(), len(s)) for s in segs]


def frame(P, command, payload, magic=None, check=None):
    raw = command if isinstance(command, bytes) else command.encode()
    return (magic or P.MAGIC) + raw.ljust(12, b'\0') + len(payload).to_bytes(4, 'little') + (check or P.R.dsha(payload)[:4]) + payload


def kinds(P):
    """Frames of every kind: good ones and ones to be skipped."""
    inv = [dict(object_type=i % 3, hash=bytes([i % 251]) * 32) for i in range(400)]
    addr = [dict(timestamp=1500000000 + i, services=i, address='9.8.7.%d' % i, port=1000 + i) for i in range(3)]
    good = dict(
        ping=P.msg('ping', nonce=b'\xf9\x6e\x62\x63\0\0\0\1'),          # contains the magic
        pong=P.msg('pong', nonce=b'pongpong'), verack=P.msg('verack'), getaddr=P.msg('getaddr'), mempool=P.msg('mempool'),
        version=P.version(), addr=P.msg('addr', addr_list=addr), inv=P.msg('inv', inventory=inv[:2]), inv0=P.msg('inv', inventory=[]),
        big=P.msg('inv', inventory=inv), reject=P.msg('reject', message=b'tx', ccode=1, reason=P.msg('ping', nonce=b'embedded')))
    p = good['ping'][24:]
    junk = dict(
        unknown=frame(P, 'sendcmpct', b'123456789'), unknown0=frame(P, 'foo', b''), nocommand=frame(P, b'', b''),
        check=frame(P, 'ping', p, check=b'\0\0\0\0'), magic=frame(P, 'ping', p, magic=b'\xf9\xbe\xb4\xd9'), magic0=frame(P, 'verack', b'', magic=b'\xf9\xbe\xb4\xd9'),
        short=frame(P, 'ping', p[:7]), empty=frame(P, 'ping', b''), badver=frame(P, 'version', good['version'][24:60]), badinv=frame(P, 'inv', b'\x05' + bytes(36)),
        badname=frame(P, b'pi\xffng', p), inner=frame(P, b'ping\0x', p), zeros=bytes(24))
    return good, junk


def exact(P, total):
    """A well-formed frame of exactly that many bytes."""
    for d in range(40):
        m = P.msg('reject', message=b'tx', ccode=7, reason=bytes(i % 253 for i in range(total - 24 - 3 - 1 - 5 + d)))
        if len(m) == total:
            return m
    raise AssertionError(total)


__all__ = ['Net', 'lab', 'want', 'snap', 'peer_of', 'got', 'show', 'kinds', 'exact', 'frame']
