"""Base58 / Base58Check, from the published description (big-endian base conversion, one '1' per leading zero byte)."""
import hashlib

ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
INDEX = {c: i for i, c in enumerate(ALPHABET)}


def encode(data):
    n = int.from_bytes(data, 'big')
    out = []
    while n:
        n, r = divmod(n, 58)
        out.append(ALPHABET[r])
    for b in data:
        if b:
            break
        out.append('1')
    return ''.join(reversed(out)).encode()


def decode(text):
    """None when a character is not in the alphabet."""
    if isinstance(text, bytes):
        text = text.decode('latin-1')
    n = 0
    for c in text:
        if c not in INDEX:
            return None
        n = n * 58 + INDEX[c]
    pad = 0
    for c in text:
        if c != '1':
            break
        pad += 1
    return b'\0' * pad + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def checksum(data):
    return hashlib.sha256(hashlib.sha256(data).digest()).digest()[:4]


def encode_check(data):
    return encode(data + checksum(data))


def decode_check(text):
    raw = decode(text)
    if raw is None or len(raw) < 4 or checksum(raw[:-4]) != raw[-4:]:
        return None
    return raw[:-4]


def selftest():
    assert encode(bytes.fromhex('0000287fb4cd')) == b'11233QC4'
    assert decode('11233QC4') == bytes.fromhex('0000287fb4cd')
