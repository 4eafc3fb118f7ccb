"""Wallet construction and comparison shared by C14, C15, C16, C32."""
import getpass
import os
import shutil
import tempfile

from . import entropy
from nbc import wallet as W
from nbc.util import ecdsa as Ec
from .ref import wal


class Scratch(object):
    """A scratch directory, removed at the end."""

    def __init__(self):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.path = tempfile.mkdtemp(prefix='nbcmc-', dir=base)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def __call__(self, name):
        return os.path.join(self.path, name)


class Asked(BaseException):
    """The code asked for a passphrase although none is to be asked for."""


_answers = []


def prompt(*answers):
    _answers[:] = answers


def _ask(*a, **k):
    if not _answers:
        raise Asked('asked for a passphrase')
    return _answers.pop(0)


getpass.getpass = _ask


def point(Q):
    return Ec.ellipticcurve.Point(Ec.SECP256k1.curve, Q[0], Q[1])


class Spec(object):
    """What a wallet is made from; make() builds it."""

    def __init__(self, kind, d, private, compressed, testnet, vcn, hd=None):
        self.kind, self.d, self.private, self.compressed, self.testnet, self.vcn = kind, d, private, compressed, testnet, vcn
        self.hd = hd or (0, b'\0' * 4, 0, b'\x42' * 32)     # depth, fp, num, chain

    def key(self):
        return (self.kind, self.d, self.private, self.compressed, self.testnet, self.vcn, self.hd)

    def make(self):
        Q = wal.pub(self.d)
        if self.kind == 'addr':
            if self.private:
                return W.Address(privKey=wal.wif(self.d, self.compressed), vcn=self.vcn, testnet=self.testnet)
            return W.Address(pubKey=wal.comp(Q) if self.compressed else wal.full(Q), vcn=self.vcn, testnet=self.testnet)
        depth, fp, num, chain = self.hd
        return W.HDWallet(self.d if self.private else point(Q), chain, vcn=self.vcn, testnet=self.testnet, depth=depth, parentfp=fp, childnum=num)

    def node(self):
        depth, fp, num, chain = self.hd
        return wal.Node(self.d if self.private else None, wal.pub(self.d), chain, self.testnet, depth, fp, num)

    def view(self):
        """What view(wallet) must be."""
        Q = wal.pub(self.d)
        pk = wal.comp(Q) if self.compressed else wal.full(Q)
        if self.kind == 'addr':
            return ('addr', wal.wif(self.d, self.compressed) if self.private else None, pk, wal.address(pk, self.vcn, self.testnet), self.vcn, self.testnet, self.compressed)
        n = self.node()
        return ('hd', wal.b32(self.d) if self.private else None, wal.full(Q)[1:], wal.address(wal.comp(Q), self.vcn, self.testnet), self.vcn,
                n.ext(False), n.ext(True) if self.private else None, n.chain, n.depth, n.fp if n.depth else b'\0' * 4, n.num)


def view(w):
    if isinstance(w, W.Address):
        return ('addr', w.privKey, w.publicKey(), w.address, w.vcn, bool(w.testnet), bool(w.compressed))
    return ('hd', w.prvkey(), w.pubkey(), w.address(), w.vcn, w.to_extended_key(), w.to_extended_key(True) if w.prvkey() else None,
            w.chain(), w.depth(), w.parentfp(), w.childnum())


def keyview(w):
    """The keys only."""
    if isinstance(w, W.Address):
        return ('addr', w.privKey, w.pubKey)
    return ('hd', w.prvkey(), w.pubkey())


def specs(keys, vcns, hds):
    out = []
    for i, d in enumerate(keys):
        for vcn in vcns:
            for testnet in (False, True):
                for private in (True, False):
                    for compressed in (True, False):
                        out.append(Spec('addr', d, private, compressed, testnet, vcn))
                    for hd in hds:
                        out.append(Spec('hd', d, private, True, testnet, vcn, hd))
    return out
