"""The node under the harness: a subclass that records what is dispatched, through the hooks the code offers."""
from . import netenv

netenv.install()
import nbc.node                                        # noqa
from nbc.node import StopNode, AddrInUseError          # noqa
from nbc.node import basenode, raw                     # noqa
from nbc import coins, protocol                        # noqa
from .ref import wire as R                             # noqa

MAGIC = coins.Newbitcoin.magic
NAMES = {c: getattr(protocol.messages, R.MESSAGES[c][0]).name for c in R.MESSAGES}
NAMES = {c: n if isinstance(n, str) else c for c, n in NAMES.items()}


def recorder(command, name):
    t = R.MESSAGES[command][1]

    def method(self, peer, **kw):
        self.net.dispatched.append((peer.address, command, R.canon(t, kw), self.net.w.now))
        if self.net.on_dispatch:
            self.net.on_dispatch(peer, command, kw)
        base = getattr(super(self.Probe, self), 'command_' + name, None)
        if base:
            base(peer, **kw)
    return method


def probe(base, plain=False):
    d = {} if plain else {'command_' + n: recorder(c, n) for c, n in NAMES.items()}

    def begin_loop(self):
        self.net.begin()
    d['begin_loop'] = begin_loop

    def disconnected(self, peer):
        self.net.gone.append((peer.address, self.net.w.now))
        base.disconnected(self, peer)
    d['disconnected'] = disconnected
    cls = type('Probe', (base,), d)
    cls.Probe = cls
    return cls


_classes = {}


def make(net, listen, seek, max_peers, bootstrap, log, seeds, base, plain=False, **kw):
    base = base or basenode.BaseNode
    if (base, plain) not in _classes:
        _classes[base, plain] = probe(base, plain)
    coin = coins.Newbitcoin
    if seeds is not None:
        coin = type('TestCoin', (coins.Newbitcoin,), dict(dns_seeds=list(seeds)))
    net.dispatched = []
    net.gone = []
    net.on_dispatch = None
    cls = _classes[base, plain]
    node = cls.__new__(cls)
    node.net = net
    node.__init__(address=listen, seek_peers=seek, max_peers=max_peers, bootstrap=bootstrap, log=log, coin=coin, **kw)
    return node


def msg(command, **kw):
    """Wire bytes of a message, from the reference encoder."""
    return R.frame(MAGIC, command, R.encode(R.MESSAGES[command][1], kw))


def addr0(ip='1.2.3.4', port=8333, services=1):
    return dict(services=services, address=ip, port=port)


def version(seen='5.6.7.8', services=1, **kw):
    d = dict(version=70002, services=services, timestamp=1500000000, addr_recv=addr0(seen), addr_from=addr0(), nonce=b'nonce123', user_agent=b'/ref:1/', start_height=77, relay=1)
    d.update(kw)
    return msg('version', **d)


VERACK = msg('verack')


def decode(data):
    """[(command, canonical fields)] of a byte stream the node sent; the rest as ('?', bytes)."""
    out = []
    while data:
        if len(data) < 24 or data[:4] != MAGIC:
            out.append(('?', data))
            break
        n = int.from_bytes(data[16:20], 'little')
        p = data[24:24 + n]
        c = data[4:16].rstrip(b'\0').decode('latin-1')
        if len(p) < n or R.dsha(p)[:4] != data[20:24] or c not in R.MESSAGES:
            out.append(('?', data))
            break
        try:
            v, end = R.dec(R.MESSAGES[c][1], p)
        except R.Bad:
            v, end = None, None
        if end != n:
            out.append(('?', data))
            break
        out.append((c, dict(v)))
        data = data[24 + n:]
    return out


def commands(data):
    return [c for c, _ in decode(data)]
