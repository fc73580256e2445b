"""Harness shared by every check: scenarios, monitors' verdicts, evidence.

A check is a list of scenarios.  A scenario is a function of a Ctx; it drives the
real code (loaded by py2loader from the working tree) and reports what its
monitors saw.  Each (scenario, index) pair is one task, run in its own forked
process under its own deterministic random stream, so that any task can be
replayed alone.  Verdicts are three-valued: a violation with a witness, held on
what was observed, or inconclusive (exit 2) when nothing decisive was observed.
"""

import hashlib
import json
import math
import os
import pickle
import select
import signal
import sys
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Inconclusive(Exception):
    """The scenario could not observe what it needs; says nothing."""


class Violation(Exception):
    def __init__(self, mechanism, message, **witness):
        Exception.__init__(self, message)
        self.mechanism, self.message, self.witness = \
            mechanism, message, witness


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, (str, bool, type(None))):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in
                list(x.items())[:200]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    return repr(x)[:300]


class Ctx(object):
    """What one task sees and reports through."""

    def __init__(self, prop, scenario, index, seed, tier):
        self.prop, self.scenario, self.index = prop, scenario, index
        self.seed, self.tier = seed, tier
        h = hashlib.sha256(
            ('%s/%s/%d/%d' % (prop, scenario, index, seed)).encode()).digest()
        self.rng = np.random.RandomState(
            np.frombuffer(h, dtype=np.uint32).copy())
        self.counters = {}
        self.cases = set()
        self.nontrivial = set()
        self.evaluations = 0
        self.samples = []
        self.violations = []
        self.notes = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def newrng(self):
        return np.random.RandomState(self.rng.randint(1, 2**31 - 1))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, desc, nontrivial=True):
        """One evaluation of the oracle, described by `desc`."""
        self.evaluations += 1
        if nontrivial:
            s = desc if isinstance(desc, str) else json.dumps(
                jsonable(desc), sort_keys=True)
            self.nontrivial.add(hashlib.md5(s.encode()).hexdigest()[:16])
            if len(self.samples) < 1:
                self.samples.append('%s#%d: %s' % (
                    self.scenario, self.index, s[:600]))

    def fail(self, mechanism, message, **witness):
        self.violations.append(dict(
            mechanism=mechanism, message=message[:2000],
            witness=jsonable(witness)))
        if len(self.violations) > 40:
            raise Violation(mechanism, 'too many violations')

    # -- oracles ------------------------------------------------------------

    def close(self, a, b, mechanism, message, rtol=1e-7, atol=1e-7, /, **w):
        """a and b are equal log densities / numbers."""
        self.count('comparisons')
        if same(a, b, rtol, atol):
            return True
        self.fail(mechanism, '%s: got %r, expected %r' % (message, a, b),
                  got=a, expected=b, **w)
        return False

    def true(self, cond, mechanism, message, **w):
        self.count('assertions')
        if not cond:
            self.fail(mechanism, message, **w)
        return bool(cond)

    def raises(self, exc, f, mechanism, message, **w):
        self.count('assertions')
        try:
            r = f()
        except exc as e:
            return e
        except Exception as e:
            self.fail(mechanism, '%s: raised %s: %s' % (
                message, type(e).__name__, e), **w)
            return None
        self.fail(mechanism, '%s: returned %r' % (message, jsonable(r)), **w)
        return None

    def stat(self, mechanism, message, test, n=400, stages=None, **w):
        """test(n) -> p-value (fresh samples each call). Escalating: a false
        alarm needs three independent rejections."""
        stages = stages or ((1, 1e-3), (4, 1e-4), (12, 1e-6))
        ps = []
        for mult, level in stages:
            p = test(int(n * mult))
            self.count('statistical tests')
            ps.append(p)
            if p is None or not p < level:
                return True
        self.fail(mechanism, '%s: p-values %s' % (message, ps), pvalues=ps,
                  **w)
        return False


def same(a, b, rtol=1e-7, atol=1e-7):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def ks_pvalue(u):
    from scipy import stats
    return float(stats.kstest(np.asarray(u, dtype=float), 'uniform').pvalue)


def ks2_pvalue(a, b):
    from scipy import stats
    return float(stats.ks_2samp(a, b).pvalue)


def chi2_pvalue(observed, probs):
    """Goodness of fit of counts {key: n} to probabilities {key: p}. Mass in
    keys of zero probability is an outright failure (p = 0)."""
    from scipy import stats
    n = sum(observed.values())
    if any(c and probs.get(k, 0) <= 0 for k, c in observed.items()):
        return 0.
    total = sum(probs.values())
    rest = max(0., 1. - total)
    cells = sorted(((p, observed.get(k, 0)) for k, p in probs.items()
                    if p > 0))
    if rest > 1e-9:
        seen = sum(observed.get(k, 0) for k in probs)
        cells.append((rest, n - seen))
        cells.sort()
    pooled = []
    p_acc = o_acc = 0.
    for p, o in cells:
        p_acc += p
        o_acc += o
        if p_acc * n >= 8:
            pooled.append((p_acc, o_acc))
            p_acc = o_acc = 0.
    if p_acc or o_acc:
        if pooled:
            pooled[-1] = (pooled[-1][0] + p_acc, pooled[-1][1] + o_acc)
        else:
            return None
    if len(pooled) < 2:
        return None
    s = sum(p for p, _ in pooled)
    e = np.asarray([p / s * n for p, _ in pooled])
    o = np.asarray([o for _, o in pooled], dtype=float)
    x2 = float(((o - e) ** 2 / e).sum())
    return float(stats.chi2.sf(x2, len(pooled) - 1))


def independence_pvalue(xs, ys):
    """Chi-square test of independence of two discrete sequences."""
    from scipy import stats
    ax, ay = sorted(set(xs)), sorted(set(ys))
    if len(ax) < 2 or len(ay) < 2:
        return None
    t = np.zeros((len(ax), len(ay)))
    ix, iy = {a: i for i, a in enumerate(ax)}, {a: i for i, a in enumerate(ay)}
    for x, y in zip(xs, ys):
        t[ix[x], iy[y]] += 1
    # drop sparse rows/columns
    while t.size and t.shape[0] > 1 and (
            t.sum(1).min() * t.sum(0).min() / t.sum()) < 5:
        if t.sum(1).min() <= t.sum(0).min() and t.shape[0] > 2:
            t = np.delete(t, t.sum(1).argmin(), 0)
        elif t.shape[1] > 2:
            t = np.delete(t, t.sum(0).argmin(), 1)
        elif t.shape[0] > 2:
            t = np.delete(t, t.sum(1).argmin(), 0)
        else:
            return None
    return float(stats.chi2_contingency(t, correction=False)[1])


def serial_pvalue(us):
    """Are uniforms drawn in a row independent of each other? Bonferroni over
    the autocorrelations at every lag."""
    from scipy import stats
    u = np.asarray(us, dtype=float) - .5
    n = len(u)
    if n < 100:
        return None
    f = np.fft.rfft(u, 2 * n)
    lags = np.arange(1, n // 2 + 1)
    z = 12 * np.fft.irfft(f * np.conj(f), 2 * n)[lags] / np.sqrt(n - lags)
    return min(1., 2 * float(stats.norm.sf(np.abs(z).max())) * len(lags))


def uniform_test(us):
    """p-value (Bonferroni) over marginals and pairs, within and across
    samples."""
    us = np.asarray(us)
    n, d = us.shape
    ps = []
    for i in range(d):
        ps.append(ks_pvalue(us[:, i]))
    b = 4
    for i in range(d):
        for j in range(i):
            cells = (us[:, i] * b).astype(int).clip(0, b - 1) * b + \
                (us[:, j] * b).astype(int).clip(0, b - 1)
            ps.append(chi2_pvalue(
                {k: int((cells == k).sum()) for k in range(b * b)},
                {k: 1. / (b * b) for k in range(b * b)}))
    ps += [serial_pvalue(us[:, i]) for i in range(d)]
    ps = [p for p in ps if p is not None]
    return min(1., min(ps) * len(ps)) if ps else None


# ------------------------------------------------------------------ runner ---

def _src_frames(tb, srcs):
    return [f for f in traceback.extract_tb(tb)
            if any(f.filename.startswith(s) for s in srcs)]


def _watch_lines(src, lines):
    """Record which lines of the tree under test this task executes; each
    line reports once, so the cost is negligible."""
    try:
        mon = sys.monitoring
        mon.use_tool_id(mon.COVERAGE_ID, 'vlib')
        src = os.path.realpath(src) + os.sep

        def on_line(code, line):
            if code.co_filename.startswith(src) and code.co_name[0] != '<':
                lines.add((code.co_filename[len(src):], line))
            return mon.DISABLE
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.restart_events()
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    except Exception:
        pass


def _run_task(prop, scen, index, seed, tier, timeout):
    import py2loader
    lines = set()
    _watch_lines(py2loader.REPO_SRC, lines)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    ctx = Ctx(prop, scen['name'], index, seed, tier)
    np.random.seed(ctx.rng.randint(2**31 - 1))
    status = 'ok'
    err = None
    t0 = time.time()

    def on_alarm(signum, frame):
        raise TimeoutError('task exceeded %ds' % timeout)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        scen['fn'](ctx)
    except Violation as v:
        if v.message != 'too many violations':
            ctx.violations.append(dict(
                mechanism=v.mechanism, message=v.message,
                witness=jsonable(v.witness)))
    except Inconclusive as e:
        status, err = 'inconclusive', str(e)
    except TimeoutError as e:
        if scen.get('hang'):
            frames = _src_frames(
                sys.exc_info()[2], [py2loader.REPO_SRC])
            ctx.violations.append(dict(
                mechanism='hang:%s' % scen['name'],
                message='no answer within %ds: %s' % (
                    timeout, traceback.format_exc()[-1500:]), witness={}))
        else:
            status, err = 'timeout', traceback.format_exc()[-1500:]
    except MemoryError:
        status, err = 'inconclusive', 'memory'
    except BaseException as e:
        # A valid request failed, or the code answered in a shape that the
        # oracle cannot read: neither happens when the property holds.
        frames = _src_frames(sys.exc_info()[2], [py2loader.REPO_SRC])
        where = frames[-1].name if frames else 'harness'
        ctx.violations.append(dict(
            mechanism='crash:%s:%s:%s' % (
                scen['name'], type(e).__name__, where),
            message='%s: %s\n%s' % (type(e).__name__, str(e)[:500],
                                    traceback.format_exc()[-2500:]),
            witness={}))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    for v in ctx.violations:
        v.update(scenario=scen['name'], index=index)
    return dict(
        scenario=scen['name'], index=index, status=status, error=err,
        counters=ctx.counters, evaluations=ctx.evaluations,
        nontrivial=ctx.nontrivial, samples=ctx.samples,
        violations=ctx.violations, notes=ctx.notes, lines=lines, wall=time.time() - t0)


class Pool(object):

    def __init__(self, jobs):
        self.jobs = jobs
        self.running = {}       # fd -> (pid, task, chunks, deadline)

    def spawn(self, task, args):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                out = pickle.dumps(_run_task(*args))
                with os.fdopen(w, 'wb') as f:
                    f.write(out)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.running[r] = [pid, task, [], time.time() + args[-1] + 30]

    def wait(self, timeout):
        """Yield finished (task, result-or-None)."""
        done = []
        if not self.running:
            return done
        ready, _, _ = select.select(list(self.running), [], [], timeout)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                self.running[fd][2].append(chunk)
                continue
            done.append(self._reap(fd))
        now = time.time()
        for fd in list(self.running):
            if now > self.running[fd][3]:
                self._kill(self.running[fd][0])
                done.append(self._reap(fd, killed=True))
        return done

    def abandon(self):
        tasks = []
        for fd in list(self.running):
            self._kill(self.running[fd][0])
            tasks.append(self._reap(fd, killed=True)[0])
        return tasks

    @staticmethod
    def _kill(pid):
        for target in (lambda: os.killpg(pid, signal.SIGKILL),
                       lambda: os.kill(pid, signal.SIGKILL)):
            try:
                target()
            except OSError:
                pass

    def _reap(self, fd, killed=False):
        pid, task, chunks, _ = self.running.pop(fd)
        os.close(fd)
        _, status = os.waitpid(pid, 0)
        # Whatever the task left behind in its process group ends with it.
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            return task, pickle.loads(b''.join(chunks))
        except Exception:
            return task, None


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        d = json.load(f)
    return [e for e in d.get('findings', []) if e['property'] == prop]


def scenario(quick, thorough=None, timeout=180, hang=False, min_ok=1):
    """Decorator: how many tasks of this scenario each tier runs."""
    def wrap(fn):
        fn._scenario = dict(
            name=fn.__name__, fn=fn, quick=quick,
            thorough=quick * 8 if thorough is None else thorough,
            timeout=timeout, hang=hang, min_ok=min_ok)
        return fn
    return wrap


def collect(module):
    return [v._scenario for v in vars(module).values()
            if callable(v) and hasattr(v, '_scenario')]


def main(prop, module, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    replay = None
    args = list(argv)
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--seed':
            seed = int(args.pop(0))
        elif a == '--only':
            only = args.pop(0)
        elif a == '--replay':
            with open(args.pop(0)) as f:
                replay = json.load(f)
            seed, tier = replay['seed'], replay['tier']
    t0 = time.time()
    scens = collect(module)
    budget = float(os.environ.get(
        'VERIF_BUDGET', '600' if tier == 'quick' else '3000'))
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(
        8, len(os.sched_getaffinity(0)))

    tasks = []
    for s in scens:
        if replay:
            if s['name'] == replay['scenario']:
                tasks.append((s, replay['index']))
            continue
        if only and s['name'] not in only.split(','):
            continue
        for i in range(s[tier]):
            tasks.append((s, i))
    # Interleave so that a cut by the time budget thins every scenario evenly;
    # the first task of each scenario always starts first.
    tasks.sort(key=lambda t: (t[1] / max(1., float(t[0][tier]))
                              if not replay else 0, t[0]['name']))
    results, lost, decided = [], [], False
    pool = Pool(jobs)
    i = skipped = 0
    known = load_known(prop)
    hard = budget + (150 if tier == 'quick' else 600)
    while i < len(tasks) or pool.running:
        if time.time() - t0 > hard:
            skipped += len(tasks) - i
            i = len(tasks)
            lost.extend(pool.abandon())
            continue
        while i < len(tasks) and len(pool.running) < jobs:
            if time.time() - t0 > budget:
                skipped += len(tasks) - i
                i = len(tasks)
                break
            s, idx = tasks[i]
            i += 1
            pool.spawn((s['name'], idx), (
                prop, s, idx, seed, tier, s['timeout']))
        for task, res in pool.wait(1.0):
            (results if res is not None else lost).append(
                res if res is not None else task)
            if res is not None and not decided and any(
                    not any(k['mechanism'] == v['mechanism'] for k in known)
                    for v in res['violations']):
                # The verdict is in; see a little more of it and stop.
                decided = True
                budget = min(budget, time.time() - t0 + (
                    0 if os.environ.get('VERIF_FAILFAST') else 60))
                hard = min(hard, budget + 30)

    violations = [v for r in results for v in r['violations']]
    unlisted, listed = [], {}
    for v in violations:
        k = next((k for k in known if k['mechanism'] == v['mechanism']), None)
        if k is None:
            unlisted.append(v)
        else:
            listed.setdefault(k['mechanism'], []).append(v)

    counters, nontrivial, samples, per = {}, set(), [], {}
    for r in results:
        for k, n in r['counters'].items():
            counters[k] = counters.get(k, 0) + n
        nontrivial |= {(r['scenario'], h) for h in r['nontrivial']}
        p = per.setdefault(r['scenario'], dict(
            tasks=0, ok=0, evaluations=0, inconclusive=0, wall_s=0.))
        p['tasks'] += 1
        p['ok'] += r['status'] == 'ok'
        p['inconclusive'] += r['status'] != 'ok'
        p['evaluations'] += r['evaluations']
        p['wall_s'] = round(p['wall_s'] + r['wall'], 2)
        if r['samples'] and sum(
                s.startswith(r['scenario'] + '#') for s in samples) < 1:
            samples.extend(r['samples'])
    problems = ['%s#%d %s: %s' % (r['scenario'], r['index'], r['status'],
                                  (r['error'] or '')[-700:])
                for r in results if r['status'] != 'ok']
    problems += ['%s#%d: task process lost' % t for t in lost]

    evaluations = sum(r['evaluations'] for r in results)
    executed = {}
    for r in results:
        for f, n in r['lines']:
            executed.setdefault(f, set()).add(n)
    if os.environ.get('VERIF_LINES'):
        by = {}
        for r in results:
            for f, n in r['lines']:
                by.setdefault(f, {}).setdefault(n, set()).add(r['scenario'])
        with open(os.environ['VERIF_LINES'], 'w') as f:
            json.dump({f: {n: sorted(s) for n, s in d.items()}
                       for f, d in by.items()}, f)
    evidence = dict(
        property=prop, tier=tier, seed=seed,
        level=getattr(module, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(nontrivial),
            rule=module.RULE, samples=samples[:30] or ['none'],
            observed=dict(sorted(counters.items())),
            source_lines_executed={
                'src/' + f: len(s) for f, s in sorted(executed.items())},
            scenarios=dict(sorted(per.items())), tasks=len(results),
            tasks_skipped_by_budget=skipped,
            inconclusive=problems[:20],
            known_findings_seen={k: len(v) for k, v in listed.items()}),
        assumptions=getattr(module, 'ASSUMPTIONS', []) + [
            'the Python 2 sources run on Python 3.12 through '
            '/verif/lib/py2loader.py, which reproduces Python 2 division, '
            'ordering, list-returning builtins and module names'],
        wall_s=round(time.time() - t0, 2), violations=len(unlisted))
    if not replay and not only:
        path = os.path.join(VERIF, 'evidence', prop + '.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1)
        os.rename(path + '.tmp', path)

    for k in known:
        if k['mechanism'] in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if unlisted:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        seen = {}
        for v in unlisted:
            seen.setdefault(v['mechanism'], []).append(v)
        for n, (m, vs) in enumerate(sorted(seen.items())):
            v = vs[0]
            path = os.path.join(d, '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(
                    property=prop, seed=seed, tier=tier,
                    scenario=v['scenario'], index=v['index'], mechanism=m,
                    occurrences=len(vs), message=v['message'],
                    witness=v['witness'],
                    rerun='bash bin/check %s --replay %s' % (prop, path)),
                    f, indent=1)
            print('  [%s x%d] %s' % (
                m, len(vs), v['message'].strip()[-1200:]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        print('%s: violated (%d evaluations, %.0fs)' % (
            prop, evaluations, time.time() - t0))
        return 1
    if replay:
        print('replay: no violation')
        return 0
    starved = [s['name'] for s in scens
               if (not only or s['name'] in only.split(','))
               and per.get(s['name'], {}).get('ok', 0) < min(
                   s['min_ok'], s[tier])]
    for p in problems[:10]:
        print('inconclusive: ' + p)
    if starved or evaluations == 0:
        print('%s: INCONCLUSIVE, not observed: %s' % (prop, starved))
        return 2
    print('%s: held on %d evaluations (%d distinct), %d tasks, %.0fs%s' % (
        prop, evaluations, len(nontrivial), len(results), time.time() - t0,
        ', %d tasks skipped by the time budget' % skipped if skipped else ''))
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(evidence['coverage']['observed'], indent=1))
        print(json.dumps(evidence['coverage']['scenarios'], indent=1))
    return 0
