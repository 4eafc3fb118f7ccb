"""Runner: work units in forked processes, known findings, replay files, evidence."""
import collections
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
_mono = time.monotonic        # units may replace the functions of the time module
JOBS = int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 4)


class Violation(BaseException):
    """Raised by a check to stop its unit; BaseException so that code under test cannot swallow it."""

    def __init__(self, case, msg):
        BaseException.__init__(self, msg)
        self.case = case
        self.msg = msg


class Hang(BaseException):
    pass


def h64(key):
    if not isinstance(key, bytes):
        key = repr(key).encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), 'big')


def show(x, limit=4000):
    """JSON-able rendering of a case."""
    if isinstance(x, (bytes, bytearray)):
        x = 'hex:' + bytes(x).hex()
    if isinstance(x, (str, int, float, bool)) or x is None:
        if isinstance(x, str) and len(x) > limit:
            return x[:limit] + '...(%d)' % len(x)
        if isinstance(x, int) and not isinstance(x, bool) and abs(x) > 1 << 53:
            return hex(x)
        return x
    if isinstance(x, dict):
        return {str(show(k)): show(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [show(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(str(show(v)) for v in x)
    return repr(x)[:limit]


class Ctx(object):
    """What a unit reports to. One per unit, in the unit's own process."""

    def __init__(self, prop, tier, seed, known):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self._known = known          # {kid: what}
        self.known_hit = {}
        self.state_set = set()
        self.counts = collections.Counter()
        self.outcomes = collections.Counter()
        self.samples = []
        self.notes = {}
        self.violation = None

    # ---- coverage
    def state(self, key):
        """Counts a state; True when it is new in this unit."""
        k = h64(key)
        if k in self.state_set:
            return False
        self.state_set.add(k)
        return True

    def count(self, what, n=1):
        self.counts[what] += n

    def trans(self, n=1):
        self.counts['transitions'] += n

    def trace(self, n=1):
        self.counts['traces'] += n

    def eval(self, n=1):
        self.counts['evaluations'] += n

    def distinct(self, n=1):
        """n further cases known to be distinct from all others counted."""
        self.counts['distinct'] += n

    def outcome(self, o):
        self.outcomes[str(o)[:80]] += 1

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(show(s))

    # ---- verdicts
    def fail(self, case, msg, kid=None):
        if kid is not None and kid in self._known:
            self.known_hit[kid] = self._known[kid]
            return
        raise Violation(case, '%s%s' % (msg, '' if kid is None else ' [%s]' % kid))

    def ok(self, cond, case, msg, kid=None):
        if not cond:
            self.fail(case, msg, kid)

    def eq(self, got, want, case, what='result', kid=None):
        if type(got) is not type(want) and not (isinstance(got, (int, str, bytes)) and isinstance(want, type(got))):
            if isinstance(want, bool) or isinstance(got, bool) or got != want:
                return self.fail(case, '%s: got %s, expected %s' % (what, show(got), show(want)), kid)
        if got != want:
            self.fail(case, '%s: got %s, expected %s' % (what, show(got), show(want)), kid)

    def raises(self, f, case, what, excs=Exception, kid=None):
        """f must raise; returns the exception."""
        try:
            v = f()
        except excs as e:
            return e
        self.fail(case, '%s: accepted, gave %s' % (what, show(v)), kid)


def known_findings(prop):
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {k['id']: k['what'] for k in data.get('findings', []) if k['property'] == prop}


# ------------------------------------------------------------------ units in processes

def _run_unit(mod, unit, ctx, limit, conn):
    name, func, args = unit
    hung = []

    def on_alarm(sig, frame):
        hung.append(1)
        raise Hang('no result after %d s' % limit)

    res = {}
    try:
        soft = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, limit, 5)
        t0 = _mono()
        try:
            func(ctx, *args)
        except Violation as v:
            ctx.violation = dict(case=show(v.case), message=str(v.msg))
        except Hang as e:
            ctx.violation = dict(case=None, message='hang: %s' % e, tb=traceback.format_exc())
        except (SystemExit, KeyboardInterrupt) as e:
            ctx.violation = dict(case=None, message='code under test raised %r' % e, tb=traceback.format_exc())
        except BaseException as e:
            ctx.violation = dict(case=show(getattr(ctx, 'current', None)),
                                 message='unexpected %s: %s' % (type(e).__name__, str(e)[:500]),
                                 tb=traceback.format_exc()[-4000:])
        if hung and not ctx.violation:
            ctx.violation = dict(case=None, message='hang (swallowed by the code under test)')
        signal.setitimer(signal.ITIMER_REAL, 0)
        res = dict(counts=dict(ctx.counts), states=ctx.state_set, outcomes=dict(ctx.outcomes), samples=ctx.samples,
                   known=ctx.known_hit, violation=ctx.violation, notes=ctx.notes, wall=_mono() - t0)
    except BaseException as e:      # pragma: no cover
        res = dict(violation=dict(case=None, message='unit could not run: %r' % e, tb=traceback.format_exc()))
    finally:
        try:
            with os.fdopen(conn, 'wb') as f:
                pickle.dump(res, f, protocol=4)
        finally:
            os._exit(0)


class Pool(object):
    """Runs units, each in its own forked process; yields (index, result)."""

    def __init__(self, mod, units, mkctx, limit, jobs=JOBS):
        self.mod, self.units, self.mkctx, self.limit, self.jobs = mod, units, mkctx, limit, jobs
        self.live = {}

    def start(self, i):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            for fd in list(self.live):
                try:
                    os.close(fd)
                except OSError:
                    pass
            devnull = os.open(os.devnull, os.O_WRONLY)   # the code under test prints
            os.dup2(devnull, 1)
            if not os.environ.get('VERIF_DEBUG'):
                os.dup2(devnull, 2)
            _run_unit(self.mod, self.units[i], self.mkctx(), self.limit, w)
            os._exit(1)
        os.close(w)
        self.live[r] = (i, pid, bytearray(), time.monotonic())

    def run(self):
        todo = list(range(len(self.units)))[::-1]
        while todo or self.live:
            while todo and len(self.live) < self.jobs:
                self.start(todo.pop())
            ready, _, _ = select.select(list(self.live), [], [], 1.0)
            now = time.monotonic()
            for fd in list(self.live):
                i, pid, buf, t0 = self.live[fd]
                if fd in ready:
                    data = os.read(fd, 1 << 20)
                    if data:
                        buf += data
                        continue
                elif now - t0 <= self.limit + 30:
                    continue
                else:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.close(fd)
                del self.live[fd]
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                _, status = os.waitpid(pid, 0)
                try:
                    res = pickle.loads(bytes(buf))
                except Exception:
                    res = dict(violation=dict(case=None, message='the process running this unit died (status %d) or hung' % status))
                yield i, res

    def stop(self):
        for fd, (i, pid, buf, t0) in list(self.live.items()):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
            os.close(fd)
        self.live = {}


def load(prop):
    return importlib.import_module('mc.checks.' + prop.lower())


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(prop, tier)


def check(prop, tier, only=None, write=True):
    t0 = time.monotonic()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    known = known_findings(prop)
    total = dict(counts=collections.Counter(), states=set(), outcomes=collections.Counter(), samples=[], known={}, notes={})
    violations = []
    nunits = 0
    mod = None
    walls = []
    try:
        mod = load(prop)
        units = list(mod.units(tier))
    except Exception as e:
        violations.append((-1, 'import', dict(case=None, message='the code cannot be set up: %r' % e, tb=traceback.format_exc())))
        units = []
    limit = getattr(mod, 'LIMIT', {}).get(tier, 180 if tier == 'quick' else 3600)
    if only is not None:
        units = [u for u in units if u[0] == only]
    pool = Pool(mod, units, lambda: Ctx(prop, tier, seed, known), limit)
    for i, res in pool.run():
        nunits += 1
        total['counts'].update(res.get('counts', {}))
        total['states'] |= res.get('states', set())
        total['outcomes'].update(res.get('outcomes', {}))
        total['samples'].append((i, res.get('samples', [])))
        total['known'].update(res.get('known', {}))
        for k, v in res.get('notes', {}).items():
            total['notes'].setdefault(k, v)
        walls.append((res.get('wall', 0), units[i][0]))
        if res.get('violation'):
            violations.append((i, units[i][0], res['violation']))
            pool.stop()
            break
    if violations and violations[0][0] >= 0 and os.environ.get('VERIF_NOCONFIRM') is None and 'hang' not in violations[0][2]['message'][:5]:
        # the same unit in a fresh process must fail again (all nondeterminism is owned by the harness)
        i, name, v = violations[0]
        again = [r for _, r in Pool(mod, [units[i]], lambda: Ctx(prop, tier, seed, known), limit).run()]
        v['confirmed'] = bool(again and again[0].get('violation'))
        if not v['confirmed']:
            print('note: unit %s did not fail again when re-run' % name)
    wall = time.monotonic() - t0
    if os.environ.get('VERIF_DEBUG'):
        for w, n in sorted(walls)[-int(os.environ.get("VERIF_SLOW", 8)):]:
            print('  %.2fs %s' % (w, n))
    for kid in sorted(total['known']):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, kid, total['known'][kid]))
    ev = evidence(prop, tier, seed, mod, total, nunits, len(units), wall, len(violations))
    if write:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', prop + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        os.replace(path + '.tmp', path)
    cov = ' '.join('%s=%s' % (k, v) for k, v in sorted(ev['coverage'].items()) if isinstance(v, (int, bool)))
    print('%s %s: %d/%d units, %s, %.1f s' % (prop, tier, nunits, len(units), cov, wall))
    if violations:
        i, name, v = violations[0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        tag = hashlib.sha256(('%s %s %r' % (prop, name, v)).encode('utf-8', 'surrogatepass')).hexdigest()[:10]
        rel = os.path.join('replays', '%s-%s.json' % (prop, tag))
        with open(os.path.join(VERIF, rel), 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, unit=name, **v), f, indent=1)
            f.write('\n')
        print('unit %s: %s' % (name, v['message']))
        if v.get('case') is not None:
            print('case: %s' % json.dumps(v['case'])[:1500])
        if v.get('tb'):
            print(v['tb'])
        print('VIOLATION property=%s replay=%s' % (prop, rel))
        return 1
    return 0


def evidence(prop, tier, seed, mod, total, done, nunits, wall, nviol):
    c = total['counts']
    level = getattr(mod, 'LEVEL', 'model_checking')
    samples = [s for _, ss in sorted(total['samples'], key=lambda x: x[0]) for s in ss][:6]
    cov = dict(exhaustive=(nviol == 0 and done == nunits), units=done, samples=samples,
               bounds=getattr(mod, 'BOUNDS', {}).get(tier, ''),
               outcomes=dict(total['outcomes'].most_common(20)), distinct_outcomes=len(total['outcomes']))
    cov.update(total['notes'])
    nstates = len(total['states']) + c.get('distinct', 0)
    if level == 'model_checking':
        cov.update(states=nstates, transitions=c.get('transitions', 0), traces_validated_against_impl=c.get('traces', 0))
        if c.get('evaluations'):
            cov['evaluations'] = c['evaluations']
    else:
        cov.update(evaluations=c.get('evaluations', 0), distinct_nontrivial=nstates, rule=getattr(mod, 'RULE', ''))
    for k, v in c.items():
        if k not in ('distinct', 'transitions', 'traces', 'evaluations'):
            cov[k] = v
    return dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 3), violations=nviol)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    os.environ['VERIF_SEED'] = str(r.get('seed', 1))
    print('replaying unit %s of %s' % (r['unit'], r['property']))
    return check(r['property'], r['tier'], only=None if r['unit'] == 'import' else r['unit'], write=False)
