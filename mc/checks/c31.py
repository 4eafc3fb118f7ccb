"""C31: DNS seeding and height guessing under all schedules."""
import collections
import itertools

LEVEL = 'model_checking'
BOUNDS = dict(quick='seeder: 1-3 lookups (results, duplicates, failures before, between and after results) with 1-2 callers popping and asking the length; height guess: 1-3 sources (value, none, failure, slower or faster than the timeout by several margins); every schedule with at most 2 preemptions (3 for the smallest, 1 for the largest), decisions at every bytecode that can touch shared objects, every lock, thread and timer operation',
              thorough='3 preemptions (4 for the smallest), more sources')
ASSUMPTIONS = ['calls of C functions are atomic (global interpreter lock)', 'the lookup and the sources are stand-ins; their results are taken from a table']


def setup():
    from .. import sched
    sched.install()
    import random
    import nbc.util as U
    from nbc.util import bootstrap as B
    random.choice = lambda s: s[0] if len(s) else (_ for _ in ()).throw(IndexError('Cannot choose from an empty sequence'))
    return sched, U, B


X, Y, Z = ('1.1.1.1', 8333), ('2.2.2.2', 8333), ('3.3.3.3', 18333)


def info(a):
    return (2, 1, 6, '', a)


class Lookup(object):
    """getaddrinfo of a seed: a list, possibly an error instead, or a bad entry in it."""

    def __init__(self, table, S):
        self.table, self.S = table, S

    def __call__(self, host, port, *a, **kw):
        self.S[0].point()
        r = self.table[host]
        if isinstance(r, Exception):
            raise r
        return [x if not isinstance(x, tuple) or len(x) != 2 else info(x) for x in r]


SEEDS = {
    'one': [('a', [X])], 'two': [('a', [X, Y])], 'dup': [('a', [X]), ('b', [X])], 'three': [('a', [X]), ('b', [Y, Z])],
    'fail': [('a', OSError('no name')), ('b', [Y])], 'bad': [('a', [X, None, Y])], 'none': [], 'empty': [('a', []), ('b', [X])], 'wide': [('a', [X]), ('b', [Y]), ('c', [Z])],
    'odd': [(None, None), ('b', [Y, Y])],
}


def seeder(ctx, seeds, callers, level, bound, part, parts):
    sched, U, B = setup()
    table = {h: r for h, r in SEEDS[seeds] if h}
    B.socket.getaddrinfo = Lookup(table, sched.S)
    sources = [(h, 53) if h else 'not a pair' for h, r in SEEDS[seeds]]
    offered = collections.Counter()
    least = collections.Counter()
    for h, r in SEEDS[seeds]:
        if isinstance(r, list):
            offered.update(x for x in r if x)
            if None in r:
                r = r[:r.index(None)]       # what follows a malformed result may be lost with it
            least.update(r)
    res = {}

    def make():
        res.clear()
        res.update(popped=[], bad=[])

        left = [ops.count('pop') for ops in callers]

        def caller(i, d, ops):
            for o in ops:
                if o == 'len':
                    n = len(d)
                    if not 0 <= n <= sum(offered.values()):
                        res['bad'].append('length %r' % n)
                else:
                    before = -sum(v for j, v in enumerate(left) if j != i) + len(d)     # the others' pending calls may take that many
                    try:
                        a = d.pop()
                    except Exception as e:
                        if before > 0:
                            res['bad'].append('pop raised %r with %d addresses' % (e, before))
                        left[i] -= 1
                        continue
                    left[i] -= 1
                    res['popped'].append(a)

        def main():
            d = B.DNSSeeder(sources)
            ts = [sched.Thread(target=caller, args=(i, d, ops)) for i, ops in enumerate(callers) if i]
            for t in ts:
                t.start()
            caller(0, d, callers[0])
            sched.wait_all()
            n = len(d)
            rest = []
            while len(rest) < 20:
                try:
                    rest.append(d.pop())
                except Exception:
                    break
            if len(rest) != n:
                res['bad'].append('length %d, but %d addresses could be taken' % (n, len(rest)))
            try:
                res['bad'].append('an empty seeder gave %r' % (d.pop(),))
            except Exception:
                pass
            res['rest'] = rest

        def check(s):
            case = dict(seeds=SEEDS[seeds], callers=callers, schedule=ex.plan)
            ctx.ok(not res['bad'], case, '; '.join(res['bad']))
            have = collections.Counter(res['popped'] + res['rest'])
            ctx.ok(not have - offered, case, 'addresses nobody returned, or given twice: %s' % list((have - offered).elements()))
            ctx.ok(not least - have, case, 'addresses lost: %s' % list((least - have).elements()))
            ctx.state((seeds, callers, tuple(res['popped']), tuple(res['rest'])))
            ctx.outcome('%d popped early' % len(res['popped']))
        return main, check
    ex = sched.Explorer(bound, level, ('bootstrap.py',))
    run(ctx, ex, make, part, parts)


def crowd(ctx, sizes):
    """Many addresses, each lookup ending before the next seed is begun, or all of them at once at the end."""
    sched, U, B = setup()
    import random
    pick = random.choice
    for late in (False, True):
        for where in (0, -1, None):
            begun = []

            class Sync(object):
                def __init__(self, target=None, args=(), kwargs=None, name=None, daemon=None, group=None):
                    self.f = lambda: target(*args, **(kwargs or {}))
                    self.daemon = daemon

                def start(self):
                    begun.append(self.f) if late else self.f()

                def setDaemon(self, d):
                    self.daemon = d

                def join(self, timeout=None):
                    pass

                def is_alive(self):
                    return False
            table = {'s%d' % i: [info(('10.%d.%d.%d' % (i, j // 250, j % 250 + 1), 8000 + i)) for j in range(n)] for i, n in enumerate(sizes)}
            B.socket.getaddrinfo = lambda h, p, *a, **kw: list(table[h])
            case = dict(sizes=sizes, late=late, taken=where)
            ctx.current = case
            real = B.threading.Thread
            B.threading.Thread = Sync
            random.choice = (lambda s: s[where]) if where is not None else (lambda s: s[len(s) // 2])
            try:
                d = B.DNSSeeder([(h, 53) for h in sorted(table)])
                for f in begun:
                    f()
                want = collections.Counter(x[4] for r in table.values() for x in r)
                ctx.eq(len(d), sum(want.values()), case, 'length')
                got = collections.Counter()
                for k in range(sum(want.values())):
                    got[d.pop()] += 1
                    if k % 50 == 0:
                        ctx.eq(len(d), sum(want.values()) - k - 1, case, 'length after %d' % (k + 1))
                ctx.ok(got == want, case, 'addresses lost or invented: %s' % list(((got - want) + (want - got)).elements())[:5])
                ctx.eq(len(d), 0, case, 'length at the end')
            finally:
                B.threading.Thread = real
                random.choice = pick
            ctx.trans(sum(sizes))
            ctx.trace()
            ctx.state((sizes, late, where))


def run(ctx, ex, make, part, parts):
    ctx.current = None
    for plan in ex.all(make, part, parts):
        pass
    ctx.count('schedules', ex.schedules)
    ctx.trans(ex.points)
    ctx.trace(ex.schedules)


SOURCES = {
    'one': [('a', 100, 0)], 'two': [('a', 100, 0), ('b', 200, 0)], 'none': [('a', None, 0), ('b', 5, 0)], 'fail': [('a', ValueError('x'), 0), ('b', 5, 0)], 'nothing': [],
    'slow': [('a', 100, 1.0), ('b', 200, 9.0)], 'edge': [('a', 100, 5.0), ('b', 200, 0)], 'late': [('a', 100, 6.0), ('b', 200, 7.0)], 'order': [('a', 1, 4.0), ('b', 2, 2.0), ('c', 3, 0)],
    'lates': [('a', 1, 8.0), ('b', 2, 0), ('c', ValueError('y'), 4.9)], 'same': [('a', 7, 0), ('b', 7, 0), ('c', 8, 0)], 'slowfail': [('a', ValueError('z'), 9.0), ('b', 3, 1.0)],
}


def heights(ctx, sources, timeout, level, bound, part, parts):
    sched, U, B = setup()
    table = SOURCES[sources]
    res = {}

    def make():
        res.clear()
        res.update(done={}, finished=[])

        def source(name, value, delay):
            def f():
                if delay:
                    sched.sleep(delay)
                else:
                    sched.S[0].point()
                if isinstance(value, Exception):
                    raise value
                res['done'][name] = sched.S[0].now
                return value
            return f

        class C(object):
            block_height_guess = [(n, source(n, v, d)) for n, v, d in table]

        def main():
            s = sched.S[0]
            t0 = s.now
            r = U.guess_block_height(C) if timeout is None else U.guess_block_height(C, timeout)
            res['took'] = s.now - t0
            res['at'] = set(res['done'])
            res['copy'] = dict(r)
            res['result'] = r
            # threads which ended while the caller was still waiting must be in the result
            sched.wait_all()

        def check(s):
            case = dict(sources=[(n, repr(v), d) for n, v, d in table], timeout=timeout, schedule=ex.plan)
            r = res['result']
            limit = 5.0 if timeout is None else max(0.0, timeout)
            values = {n: v for n, v, d in table}
            ctx.eq(dict(r), res['copy'], case, 'the result after all sources ended')
            for n in r:
                ctx.ok(n in values and r[n] == values[n], case, 'source %r has %r' % (n, r[n]))
                ctx.ok(n in res['at'], case, 'source %r had not finished' % n)
            if not any(k in s.plan and s.plan[k] in late for k, d, a, run_, late in s.log):
                # nobody's timer fired early: the sources that were fast enough are there
                ctx.ok(res['took'] <= limit + .001, case, 'took %.1f s' % res['took'])
                for n, v, d in table:
                    if not isinstance(v, Exception) and d < limit:
                        ctx.ok(n in r, case, 'the result lacks %r, which took %.1f s of %.1f' % (n, d, limit))
            ctx.state((sources, timeout, tuple(sorted(r.items(), key=repr)), res['took']))
            ctx.outcome('%d of %d sources' % (len(r), len(table)))
        return main, check
    ex = sched.Explorer(bound, level, ('util/__init__.py',))
    run(ctx, ex, make, part, parts)


def units(tier):
    q = tier == 'quick'
    P, L = 'pop', 'len'
    jobs = [('one', ((P,),), 3), ('one', ((P, P),), 2), ('two', ((P,),), 2), ('two', ((P, L),), 2), ('dup', ((P,),), 2), ('three', ((P,),), 1), ('fail', ((P, L),), 2), ('bad', ((P,),), 2), ('none', ((P,),), 2), ('empty', ((P,),), 2),
            ('odd', ((P,),), 2), ('wide', ((),), 0), ('one', ((P,), (P,)), 2), ('two', ((P,), (P,)), 2), ('two', ((L,), (P,)), 1), ('dup', ((P,), (P,)), 1), ('three', ((P, P), (P, P)), 1), ('wide', ((P,), (L,)), 0)]
    for seeds, callers, bound in jobs:
        b = bound if q else bound + 1
        n = 8 if b > 1 else 1
        if not q:
            n = 24
        for k in range(n):
            yield ('seeder-%s-%s-%d' % (seeds, '+'.join(''.join(c) for c in callers), k), seeder, (seeds, callers, 'op', b, k, n))
    for sizes in ((1, 1), (100, 100, 5), (130, 130, 130), (300, 2), (2, 300), (1, 1000, 1), (20,) * 20, (1,) * 100, (257, 0, 3), (64, 64, 1)):
        yield 'crowd %s' % (sizes if len(sizes) < 4 else len(sizes),), crowd, (sizes,)
    for s in SOURCES:
        for t in (None, 0.0, 2.5, -1.0) if q else (None, 5.0, 0.0, 2.5, -1.0, 100.0, 4.0):
            b = 1 if (len(SOURCES[s]) > 2 or t is not None) else 2
            if not q:
                b += 1
            n = 4 if b > 1 else 1
            if b > 2:
                n = 16
            for k in range(n):
                yield ('heights-%s-%s-%d' % (s, t, k), heights, (s, t, 'op', b, k, n))
