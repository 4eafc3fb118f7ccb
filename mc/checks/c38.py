"""C38: block-height sources."""
import io
import itertools
import json
import socket
import sys
import urllib.error
import urllib.request

import nbc.util as U
from nbc import coins

LEVEL = 'model_checking'
BOUNDS = dict(quick='all JSON documents of depth up to 3 over 12 leaves, 3 keys and lists of up to 2 elements along and around the path, x 30 paths; 60 texts that are not JSON or not a number; 10 network failures; all assignments of 9 outcomes to the 4 sources of the coin',
              thorough='lists of up to 3 elements, depth 4')
ASSUMPTIONS = ['urllib.request.urlopen is replaced by a stand-in']
BIG = 10 ** 30
LEAVES = [0, 1, -1, 555555, BIG, '777', '', 'x', None, True, 1.5, '12a']
PATHS = ['a', 'b', 'a/b', 'b/a', 'a/a', 'a/0', 'a/1', 'a/2', '0', '1', '2', '0/a', '1/0', '0/0', 'a/b/c', 'a/0/b', 'a/b/0', 'c', 'a/c', '', '/', 'a/', 'a/x', '01', 'a/00', 'data/blocks', 'a/b/c/d', 'b/1/a', '0/a/1', '1/1/1']


class World(object):
    def __init__(self):
        self.pages = {}
        self.asked = []

    def urlopen(self, req, *a, **kw):
        url = req if isinstance(req, str) else req.get_full_url()
        self.asked.append(url)
        p = self.pages[url]
        if isinstance(p, BaseException):
            raise p
        return Page(p)


class Page(io.BytesIO):
    def getcode(self):
        return 200
    status = 200


def install():
    w = World()
    urllib.request.urlopen = w.urlopen
    sys.stdout = io.StringIO()
    return w


def walk(doc, path):
    """(found, value)."""
    for c in path.split('/'):
        if isinstance(doc, dict):
            if c not in doc:
                return False, None
            doc = doc[c]
        elif isinstance(doc, list):
            if not c.isdigit() or int(c) >= len(doc):
                return False, None
            doc = doc[int(c)]
        else:
            return False, None
    return True, doc


def judge(ctx, got, found, v, case):
    if found and type(v) is int:
        ctx.eq(got, v, case, 'height')
        ctx.ok(type(got) is int, case, 'not an integer')
        ctx.outcome('number')
    elif found and isinstance(v, str) and v.isdigit():
        ctx.eq(got, int(v), case, 'height given as text')
        ctx.outcome('text')
    elif found and type(v) in (float, bool):
        ctx.ok(got is None or type(got) is int and got == int(v), case, 'gave %r' % (got,))
        ctx.outcome('odd')
    else:
        ctx.eq(got, None, case, 'no height there')
        ctx.outcome('none')


def docs(depth, top):
    if depth == 0:
        return list(LEAVES)
    sub = docs(depth - 1, top)
    small = sub if depth == 1 else sub[:len(LEAVES)] + sub[len(LEAVES)::max(1, len(sub) // 40)]
    out = list(LEAVES)
    for k in ('a', 'b', '0'):
        out += [{k: x} for x in small]
    out += [{'a': x, 'b': y} for x in small[:20] for y in small[-12:]]
    for n in range(top + 1):
        out += [list(t) for t in itertools.product(small[::max(1, len(small) // 12)], repeat=n)]
    return out


def u_json(ctx, depth, top, part, parts):
    w = install()
    fs = {p: U.fetch_url_json_path_int('http://u/%d' % i, p) for i, p in enumerate(PATHS)}
    ds = docs(depth, top)
    for n, d in enumerate(ds):
        if n % parts != part:
            continue
        raw = json.dumps(d).encode()
        for i, p in enumerate(PATHS):
            case = dict(document=raw[:300], path=p)
            ctx.current = case
            w.pages = {'http://u/%d' % i: raw}
            w.asked = []
            got = fs[p]()
            ctx.eq(w.asked, ['http://u/%d' % i], case, 'requests')
            found, v = walk(d, p)
            if '/-' not in p:
                judge(ctx, got, found, v, case)
            ctx.trans()
        ctx.state(raw)
        ctx.trace(len(PATHS))
    ctx.sample(case)


TEXTS = [b'', b' ', b'{', b'}', b'[', b'nul', b'{"a":', b'{"a":1', b'{"a":1}}', b'<html>', b'\xff\xfe', b'\x00', b'a', b'1,2', b'0x10', b'1e5', b'1.5', b'--1', b'+', b'-', b'1 2', b'"1', b'NaN', b'Infinity', b'{"a":NaN}', b'{"a":Infinity}', b'{"a":-Infinity}', b'{"a":1e400}', b'[' * 50, b'[' * 100000, b'1' * 30, b'true', b'null']
NUMBERS = [(b'0', 0), (b'1', 1), (b'575000', 575000), (b'575000\n', 575000), (b' 12 ', 12), (b'%d' % BIG, BIG), (b'-1', -1), (b'007', 7)]
FAILS = [urllib.error.URLError('x'), socket.timeout('x'), ConnectionResetError(104, 'x'), OSError(101, 'x'), ValueError('x'), urllib.error.HTTPError('http://u', 404, 'x', {}, None), UnicodeError('x'), EOFError('x'), MemoryError('x'), KeyError('x')]


class Stop(Page):
    """Fails while being read."""
    def read(self, *a):
        raise ConnectionResetError(104, 'x')


def u_texts(ctx):
    w = install()
    plain = U.fetch_url_int('http://u')
    for raw, v in NUMBERS:
        ctx.current = raw
        w.pages = {'http://u': raw}
        ctx.eq(plain(), v, raw, 'height')
        ctx.trans()
        ctx.trace()
        ctx.state(raw)
    # long documents: the height at the beginning and at the end
    for size in (1000, 4096, 8192, 65536, 100000, 1 << 20, 3 << 20):
        for k, doc in enumerate((b'{"a":7,"z":"' + b'x' * size + b'"}', b'{"z":"' + b'x' * size + b'","a":7}', b' ' * size + b'{"a":7}', b'{"a":7}' + b'\n' * size)):
            ctx.current = case = dict(size=size, kind=k)
            w.pages = {'http://u': doc}
            ctx.eq(U.fetch_url_json_path_int('http://u', 'a')(), 7, case, 'height in a long document')
            ctx.trans()
            ctx.trace()
            ctx.state((size, k))
        w.pages = {'http://u': b' ' * size + b'7\n'}
        ctx.eq(plain(), 7, dict(size=size), 'height after white space')
    for raw in TEXTS:
        ctx.current = raw[:100]
        w.pages = {'http://u': raw}
        got = plain()
        want = int(raw) if raw.isdigit() else None
        ctx.eq(got, want, raw[:100], 'not a height')
        for p in PATHS:
            f = U.fetch_url_json_path_int('http://u', p)
            got = f()
            ctx.eq(got, None, (raw[:100], p), 'not a height')
            ctx.trans()
        ctx.trace()
        ctx.state(raw[:1000])
    for e in FAILS:
        for f in (plain, U.fetch_url_json_path_int('http://u', 'a')):
            w.pages = {'http://u': e}
            ctx.current = repr(e)
            try:
                got = f()
            except Exception as x:
                ctx.ok(x is e, repr(e), 'another exception %r' % x)
                got = None
            ctx.eq(got, None, repr(e), 'a height out of nothing')
            # and works again afterwards
            w.pages = {'http://u': b'5' if f is plain else b'{"a":5}'}
            ctx.eq(f(), 5, repr(e), 'height after a failure')
            ctx.trans(2)
            ctx.trace()
    # no state between calls and between sources
    fs = [U.fetch_url_int('http://u/1'), U.fetch_url_int('http://u/2'), U.fetch_url_json_path_int('http://u/3', 'a'), U.fetch_url_json_path_int('http://u/4', 'a/b'), U.fetch_url_json_path_int('http://u/3', 'b')]
    for order in itertools.permutations(range(5)):
        for k in range(3):
            w.pages = {'http://u/1': b'%d' % (k + 1), 'http://u/2': b'%d' % (k + 10), 'http://u/3': b'{"a":%d,"b":%d}' % (k + 20, k + 30), 'http://u/4': b'{"a":{"b":%d}}' % (k + 40)}
            for i in order:
                ctx.eq(fs[i](), (1, 10, 20, 40, 30)[i] + k, (order, k, i), 'height')
                ctx.trans()
        ctx.state(order)
        ctx.trace()


GOOD = {'https://blockchain.info/latestblock': lambda n: json.dumps({'hash': 'x', 'time': 5, 'block_index': 9, 'height': n, 'txIndexes': [1, 2]}),
        'https://blockexplorer.com/q/getblockcount': lambda n: str(n),
        'http://btc.blockr.io/api/v1/coin/info': lambda n: json.dumps({'status': 'success', 'data': {'coin': {'name': 'Bitcoin'}, 'last_block': {'nb': n, 'fee': '0.1'}}, 'code': 200}),
        'https://chain.so/api/v2/get_info/BTC': lambda n: json.dumps({'status': 'success', 'data': {'name': 'Bitcoin', 'network': 'BTC', 'blocks': n}})}
NAMES = {'blockchain.info': 'https://blockchain.info/latestblock', 'blockexplorer.com': 'https://blockexplorer.com/q/getblockcount', 'blockr.io': 'http://btc.blockr.io/api/v1/coin/info', 'chain.so': 'https://chain.so/api/v2/get_info/BTC'}


def u_guess(ctx, part):
    """The coin's own sources, each with its own outcome."""
    w = install()
    outcomes = [('ok', None), ('empty', b''), ('html', b'<html>'), ('other', b'{"error":"x"}'), ('null', b'null'), ('fails', urllib.error.URLError('x'))]
    names = sorted(NAMES)
    for n, t in enumerate(itertools.product(outcomes, repeat=4)):
        if n % 8 != part:
            continue
        case = dict(zip(names, [k for k, _ in t]))
        ctx.current = case
        w.pages = {}
        for i, name in enumerate(names):
            kind, page = t[i]
            w.pages[NAMES[name]] = GOOD[NAMES[name]](500000 + i).encode() if kind == 'ok' else page
        got = U.guess_block_height(coins.Newbitcoin, timeout=20)
        ctx.ok(set(got) <= set(names), case, 'unknown source: %r' % (got,))
        for i, name in enumerate(names):
            if t[i][0] == 'ok':
                ctx.eq(got.get(name), 500000 + i, case, 'height of ' + name)
            else:
                ctx.eq(got.get(name), None, case, 'height of ' + name)
        ctx.trans()
        ctx.trace()
        ctx.state(tuple(k for k, _ in t))


def units(tier):
    th = tier == 'thorough'
    for k in range(8):
        yield 'json-%d' % k, u_json, (4 if th else 3, 3 if th else 2, k, 8)
        yield 'guess-%d' % k, u_guess, (k,)
    yield 'texts', u_texts, ()
