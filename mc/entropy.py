"""os.urandom under the harness's control. Import before any nbc module (they bind the name at import)."""
import hashlib
import os
import random

_real = os.urandom
source = [None]


def _urandom(n):
    return _real(n) if source[0] is None else source[0](n)


os.urandom = _urandom
random._urandom = _urandom


class Scripted(object):
    """Answers requests of the given size from the script, every other request from a fixed stream."""

    def __init__(self, items=(), tag='x'):
        self.items = list(items)
        self.tag = tag
        self.n = 0
        self.calls = 0

    def __call__(self, n):
        self.calls += 1
        for i, b in enumerate(self.items):
            if len(b) == n:
                return self.items.pop(i)
        out = b''
        while len(out) < n:
            self.n += 1
            out += hashlib.sha256(('%s-%d' % (self.tag, self.n)).encode()).digest()
        return out[:n]


def script(*items, **kw):
    source[0] = Scripted(items, kw.get('tag', 'x'))
    return source[0]


def stream(tag):
    source[0] = Scripted((), tag)


def free():
    source[0] = None
