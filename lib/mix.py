"""Mixtures and crosscat states: generators, an independent reference model,
and monitors that compare a live View / State with it.

The reference is computed from the partition, hyperparameters and the caller's
own copy of the data, with the closed forms in prims; it never asks the code
under test for a density.
"""

import itertools
import math

import numpy as np

import prims

NAN = float('nan')
INF = float('inf')

MIXED = ['bernoulli', 'categorical', 'exponential', 'geometric', 'lognormal',
         'normal', 'poisson', 'vonmises']
DISCRETE_FINITE = ['bernoulli', 'categorical']


def isnan(x):
    return x is None or (isinstance(x, (float, np.floating)) and math.isnan(x))


def lse(xs):
    xs = list(xs)
    m = max(xs) if xs else -INF
    if m == -INF:
        return -INF
    return m + math.log(math.fsum(math.exp(x - m) for x in xs))


# -------------------------------------------------------------- recording ---

class RecordingRng(np.random.RandomState):
    """A RandomState that logs every weighted categorical draw and, when
    steered, may replace its outcome."""

    def __init__(self, seed):
        np.random.RandomState.__init__(self, seed)
        self.log = []
        self.on = False
        self.steer = None           # RandomState, or None

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None and self.steer is not None and size is None:
            n = a if np.isscalar(a) else len(a)
            ok = [i for i in range(n) if p[i] > 1e-250]
            i = ok[self.steer.randint(len(ok))]
            r = i if np.isscalar(a) else np.asarray(a)[i]
        else:
            r = np.random.RandomState.choice(self, a, size, replace, p)
        if self.on and p is not None:
            self.log.append((list(range(a)) if np.isscalar(a) else list(a),
                             np.asarray(p, dtype=float), size, r))
        return r

    def __reduce__(self):
        return (_remake, (np.random.RandomState.get_state(self),))

    def __deepcopy__(self, memo):
        return _remake(np.random.RandomState.get_state(self))


def _remake(state):
    r = RecordingRng(0)
    r.set_state(state)
    return r


# -------------------------------------------------------------- generators ---

def gen_spec(rng, types=None):
    name = (types or MIXED)[rng.randint(len(types or MIXED))]
    return dict(cctype=name, distargs=prims.gen_distargs(name, rng),
                hypers=prims.gen_hypers(name, rng))


def gen_column(rng, spec, n, missing=0.):
    xs = []
    styles = [int(rng.randint(0, 3)) for _ in range(2)]
    for _ in range(n):
        if rng.rand() < missing:
            xs.append(NAN)
        else:
            xs.append(float(prims.gen_value(
                spec['cctype'], rng, spec['distargs'],
                styles[rng.randint(2)])))
    if all(isnan(x) for x in xs):
        # a column without a single observed cell has no hyperparameter grid
        xs[rng.randint(n)] = float(prims.gen_value(
            spec['cctype'], rng, spec['distargs'], 0))
    return xs


def gen_table(rng, n_rows, n_cols, types=None, missing=0., outputs=None):
    """X, specs keyed by column id. No row is entirely missing a column set
    by accident in a way that matters; all-NaN rows are legal."""
    outputs = list(range(n_cols)) if outputs is None else outputs
    specs = {c: gen_spec(rng, types) for c in outputs}
    X = {c: gen_column(rng, specs[c], n_rows, missing) for c in outputs}
    return X, specs


def gen_partition(rng, items, alpha=None):
    alpha = alpha or float(np.exp(rng.uniform(-1.5, 1.5)))
    z, counts = {}, []
    for i in items:
        p = np.asarray(counts + [alpha], dtype=float)
        k = int(rng.choice(len(p), p=p / p.sum()))
        if k == len(counts):
            counts.append(0)
        counts[k] += 1
        z[i] = k
    return z


def relabel(rng, z, gaps=True):
    """The same partition under other labels (gaps, any order)."""
    ks = sorted(set(z.values()))
    pool = list(range(len(ks) + (4 if gaps else 0)))
    new = list(rng.permutation(pool)[:len(ks)])
    m = {k: int(v) for k, v in zip(ks, new)}
    return {i: m[k] for i, k in z.items()}


def gen_new_value(rng, spec):
    return float(prims.gen_value(spec['cctype'], rng, spec['distargs'],
                                 int(rng.randint(0, 3))))


def make_view(rng, X, specs, cols=None, Zr=None, alpha=None, token=None,
              view_rng=None, hypers=True):
    from cgpm.mixtures.view import View
    cols = list(X) if cols is None else list(cols)
    token = 1000 if token is None else token
    return View(
        X, outputs=[token] + cols, alpha=alpha,
        cctypes=[specs[c]['cctype'] for c in cols],
        distargs=[specs[c]['distargs'] for c in cols],
        hypers=[dict(specs[c]['hypers']) if specs[c]['hypers'] and hypers
                else None for c in cols],
        Zr=None if Zr is None else [Zr[r] for r in sorted(Zr)],
        rng=view_rng or np.random.RandomState(rng.randint(2**31 - 1)))


def make_state(rng, X, specs, outputs=None, Zv=None, Zrv=None, alpha=None,
               view_alphas=None, Cd=None, Ci=None, state_rng=None,
               hypers=True):
    from cgpm.crosscat.state import State
    outputs = list(X) if outputs is None else list(outputs)
    return State(
        np.asarray([X[c] for c in outputs], dtype=float).T,
        outputs=outputs, cctypes=[specs[c]['cctype'] for c in outputs],
        distargs=[specs[c]['distargs'] for c in outputs],
        hypers=[dict(specs[c]['hypers']) if specs[c]['hypers'] and hypers
                else None for c in outputs],
        Zv=None if Zv is None else dict(Zv), Zrv=Zrv, alpha=alpha,
        view_alphas=view_alphas, Cd=Cd, Ci=Ci,
        rng=state_rng or np.random.RandomState(rng.randint(2**31 - 1)))


def random_state(rng, n_rows=None, n_cols=None, types=None, missing=None,
                 outputs=None, state_rng=None, labels=True, rows_alpha=None,
                 cols_alpha=None, **kw):
    """A state with a random partition; returns (state, X, specs)."""
    n_rows = n_rows or int(rng.randint(2, 10))
    n_cols = n_cols or int(rng.randint(1, 6))
    if missing is None:
        missing = float(rng.choice([0., .15, .4]))
    if outputs is None and rng.rand() < .4:
        outputs = [int(c) for c in rng.permutation(30)[:n_cols]]
    X, specs = gen_table(rng, n_rows, n_cols, types, missing, outputs)
    Zv = gen_partition(rng, list(X), cols_alpha)
    if labels and rng.rand() < .5:
        Zv = relabel(rng, Zv)
    Zrv = {}
    for v in set(Zv.values()):
        zr = gen_partition(rng, range(n_rows), rows_alpha)
        if labels and rng.rand() < .5:
            zr = relabel(rng, zr)
        Zrv[v] = [zr[r] for r in range(n_rows)]
    st = make_state(
        rng, X, specs, Zv=Zv, Zrv=Zrv,
        alpha=float(np.exp(rng.uniform(-1.5, 1.5))),
        view_alphas={v: float(np.exp(rng.uniform(-1.5, 1.5))) for v in Zrv},
        state_rng=state_rng, **kw)
    return st, X, specs


def random_view(rng, n_rows=None, n_cols=None, types=None, missing=None,
                view_rng=None, labels=True, rows_alpha=None):
    n_rows = n_rows or int(rng.randint(2, 10))
    n_cols = n_cols or int(rng.randint(1, 5))
    if missing is None:
        missing = float(rng.choice([0., .15, .4]))
    outputs = None
    if rng.rand() < .4:
        outputs = [int(c) for c in rng.permutation(30)[:n_cols]]
    X, specs = gen_table(rng, n_rows, n_cols, types, missing, outputs)
    zr = gen_partition(rng, range(n_rows), rows_alpha)
    if labels and rng.rand() < .5:
        zr = relabel(rng, zr)
    view = make_view(rng, {c: list(X[c]) for c in X}, specs, Zr=zr,
                     alpha=float(np.exp(rng.uniform(-1.5, 1.5))),
                     view_rng=view_rng)
    return view, X, specs


# --------------------------------------------------------------- reference ---

def large_state(rng, n_rows=None, n_cols=None, **kw):
    """Dozens of rows and clusters, a dozen columns, several views: numbers
    of two digits, and counts beyond any small limit."""
    kw.setdefault('missing', float(rng.choice([0., .1])))
    return random_state(
        rng, n_rows or int(rng.randint(40, 90)),
        n_cols or int(rng.randint(11, 15)),
        rows_alpha=float(rng.choice([.3, 4., 12.])),
        cols_alpha=float(rng.choice([1., 12.])), **kw)


def large_view(rng, n_rows=None, **kw):
    kw.setdefault('missing', float(rng.choice([0., .1])))
    return random_view(
        rng, n_rows or int(rng.randint(40, 120)), int(rng.randint(2, 6)),
        rows_alpha=float(rng.choice([.3, 4., 12.])), **kw)


def dim_spec(dim):
    """What the reference needs to know about a live column."""
    return dict(cctype=dim.cctype, distargs=dict(dim.get_distargs() or {}),
                hypers=dict(dim.hypers))


class RefMix(object):
    """Dirichlet process mixture over rows, from data and partition."""

    def __init__(self, Zr, X, specs, alpha, params=None, token=None):
        self.Zr, self.X, self.specs = dict(Zr), X, specs
        self.alpha, self.params, self.token = alpha, params or {}, token
        self.N = len(self.Zr)
        self.counts = {}
        for k in self.Zr.values():
            self.counts[k] = self.counts.get(k, 0) + 1
        self._cells = {}
        self._pred = {}

    def fresh(self):
        return max(self.counts) + 1 if self.counts else 0

    def tables(self):
        return sorted(self.counts) + [self.fresh()]

    def cells(self, col, k):
        if (col, k) not in self._cells:
            self._cells[col, k] = [
                self.X[col][r] for r in sorted(self.Zr)
                if self.Zr[r] == k and not isnan(self.X[col][r])]
        return self._cells[col, k]

    def cell(self, col, k, x, without=None):
        """log p(x | cluster k of column col); row `without` left out."""
        if isnan(x):
            return 0.
        s = self.specs[col]
        key = (col, k, float(x), without)
        if key not in self._pred:
            data = self.cells(col, k)
            if without is not None and self.Zr.get(without) == k:
                data = [self.X[col][r] for r in sorted(self.Zr)
                        if self.Zr[r] == k and r != without
                        and not isnan(self.X[col][r])]
            self._pred[key] = prims.predictive(
                s['cctype'], x, data, s['hypers'], s['distargs'],
                self.params.get((col, k)))
        return self._pred[key]

    def row(self, k, values, without=None):
        return math.fsum(self.cell(c, k, x, without)
                         for c, x in values.items())

    def crp(self, k):
        return math.log(self.counts.get(k, self.alpha)) \
            - math.log(self.N + self.alpha)

    def joint(self, values, z=None):
        """log p(values[, z]) of a fresh row."""
        ks = self.tables() if z is None else [z]
        return lse(self.crp(k) + self.row(k, values) for k in ks)

    def logpdf(self, targets, constraints=None, rowid=None):
        constraints = {c: x for c, x in (constraints or {}).items()
                       if not isnan(x)}
        targets = dict(targets)
        if rowid is not None and rowid in self.Zr:
            return self.row(self.Zr[rowid], targets)
        zt = targets.pop(self.token, None)
        zc = constraints.pop(self.token, None)
        if zc is not None:
            return self.row(zc, targets)
        num = self.joint(dict(targets, **{}) | constraints, zt)
        return num - self.joint(constraints)

    def cluster_posterior(self, constraints):
        lp = {k: self.crp(k) + self.row(k, constraints)
              for k in self.tables()}
        n = lse(lp.values())
        return {k: math.exp(v - n) for k, v in lp.items()}

    def crp_score(self):
        from scipy.special import gammaln
        a = self.alpha
        return float(len(self.counts) * math.log(a)
                     + math.fsum(float(gammaln(c))
                                 for c in self.counts.values())
                     + gammaln(a) - gammaln(a + self.N))

    def dim_score(self, col):
        s = self.specs[col]
        return math.fsum(prims.marginal(
            s['cctype'], self.cells(col, k), s['hypers'], s['distargs'],
            self.params.get((col, k))) for k in self.counts)

    def score(self):
        return self.crp_score() + math.fsum(
            self.dim_score(c) for c in self.specs)


def dim_params(view):
    out = {}
    for c, d in view.dims.items():
        if not d.is_collapsed():
            for k in view.Nk():
                m = d.clusters.get(k, d.aux_model)
                out[c, k] = dict(m.get_params())
            out[c, max(view.Nk()) + 1] = dict(d.aux_model.get_params())
    return out


def ref_view(view, X, cols=None):
    """Reference for a live view over the caller's own data."""
    specs = {c: dim_spec(view.dims[c]) for c in (cols or view.dims)}
    return RefMix(dict(view.Zr()), X, specs, view.alpha(),
                  dim_params(view), token=view.outputs[0])


def crp_logp(counts, alpha):
    from scipy.special import gammaln
    n = sum(counts)
    return float(len(counts) * math.log(alpha) + sum(gammaln(counts))
                 + gammaln(alpha) - gammaln(alpha + n))


class RefState(object):

    def __init__(self, state, X):
        self.Zv = dict(state.Zv())
        self.alpha = state.alpha()
        self.Cd = [list(b) for b in state.Cd]
        self.views = {v: ref_view(state.views[v], X) for v in state.views}

    def crp_score(self):
        counts, seen = {}, set()
        for b in self.Cd:
            counts[self.Zv[b[0]]] = counts.get(self.Zv[b[0]], 0) + 1
            seen |= set(b)
        for c, v in self.Zv.items():
            if c not in seen:
                counts[v] = counts.get(v, 0) + 1
        return crp_logp(list(counts.values()), self.alpha)

    def score(self):
        return self.crp_score() + math.fsum(
            v.score() for v in self.views.values())

    def split(self, values):
        out = {}
        for c, x in (values or {}).items():
            out.setdefault(self.Zv[c], {})[c] = x
        return out

    def logpdf(self, targets, constraints=None, rowid=None):
        t, e = self.split(targets), self.split(constraints)
        return math.fsum(self.views[v].logpdf(t[v], e.get(v), rowid)
                         for v in t)


# ---------------------------------------------------------------- monitors ---

SUFF = {
    'x_sum': lambda x: x, 'sum_x': lambda x: x, 'sum_x_sq': lambda x: x * x,
    'sum_log_x': math.log, 'sum_log_x_sq': lambda x: math.log(x) ** 2,
    'sum_minus_log_x': lambda x: math.log(1 - x),
    'sum_sin_x': math.sin, 'sum_cos_x': math.cos,
    'sum_log_fact_x': lambda x: math.lgamma(x + 1),
}


def near(a, b, scale=1.):
    return abs(a - b) <= 1e-6 * max(1., abs(a), abs(b), scale)


def check_view(ctx, view, X, where, mech='partition', score=True, **w):
    """C05/C06 monitor: partition, counts, members, statistics, score."""
    rows = sorted(view.Zr())
    Zr, Nk = dict(view.Zr()), dict(view.Nk())
    counts = {}
    for k in Zr.values():
        counts[k] = counts.get(k, 0) + 1
    ctx.true(counts == Nk, mech + ':cluster-counts',
             '%s: counts %r, members give %r' % (where, Nk, counts), **w)
    ctx.true(all(int(k) == k for k in Nk) and all(n > 0 for n in Nk.values()),
             mech + ':empty-cluster', '%s: %r' % (where, Nk), **w)
    ctx.true(view.alpha() > 0 and math.isfinite(view.alpha()),
             mech + ':alpha', '%s: alpha %r' % (where, view.alpha()), **w)
    ctx.true(sorted(view.outputs[1:]) == sorted(view.dims)
             and len(set(view.outputs)) == len(view.outputs),
             mech + ':view-outputs', '%s: outputs %r dims %r' % (
                 where, view.outputs, list(view.dims)), **w)
    for c, d in view.dims.items():
        got = {}
        got.update(d.Zr)
        got.update(d.Zi)
        ctx.true(not set(d.Zr) & set(d.Zi) and got == Zr,
                 mech + ':dim-partition',
                 '%s: column %s assigns %r, view %r' % (where, c, got, Zr),
                 **w)
        conditional = d.is_conditional()
        nonmissing = {r for r in rows if not isnan(X[c][r]) and not (
            conditional and any(isnan(X[i][r]) for i in d.inputs[1:]))}
        ctx.true(set(d.Zr) == nonmissing, mech + ':missing-cells',
                 '%s: column %s holds %r, data has %r' % (
                     where, c, sorted(d.Zr), sorted(nonmissing)), **w)
        ctx.true(set(d.clusters) <= set(Nk), mech + ':dim-clusters',
                 '%s: column %s keeps clusters %r, view has %r' % (
                     where, c, sorted(d.clusters), sorted(Nk)), **w)
        for k in d.clusters:
            members = {r for r in nonmissing if Zr[r] == k}
            m = d.clusters[k]
            data = getattr(m, 'data', None)
            if isinstance(data, dict) and not conditional:
                ctx.true(
                    set(data) == members and all(
                        float(data[r]) == float(X[c][r]) for r in data),
                    mech + ':cluster-members',
                    '%s: column %s cluster %s holds %r, expected %r' % (
                        where, c, k, dict(data),
                        {r: X[c][r] for r in members}), **w)
            ctx.true(getattr(m, 'N', len(members)) == len(members),
                     mech + ':cluster-N', '%s: column %s cluster %s N=%r, '
                     'members %r' % (where, c, k, m.N, sorted(members)), **w)
            if not conditional:
                check_cluster_stats(ctx, d, m, [X[c][r] for r in
                                                sorted(members)],
                                    '%s: column %s cluster %s' % (
                                        where, c, k), mech, **w)
                hy = m.get_hypers()
                ctx.true(all(hy.get(h, d.hypers[h]) == d.hypers[h]
                             for h in d.hypers), mech + ':cluster-hypers',
                         '%s: column %s cluster %s has hypers %r, column %r'
                         % (where, c, k, hy, d.hypers), **w)
        if not conditional:
            hy = d.aux_model.get_hypers()
            ctx.true(all(hy.get(h, d.hypers[h]) == d.hypers[h]
                         for h in d.hypers), mech + ':aux-hypers',
                     '%s: column %s fresh cluster has hypers %r, column %r'
                     % (where, c, hy, d.hypers), **w)
            ctx.true(getattr(d.aux_model, 'N', 0) == 0, mech + ':aux-data',
                     '%s: column %s fresh cluster holds %r' % (
                         where, c, getattr(d.aux_model, 'N', 0)), **w)
    ctx.count('views checked')


def check_cluster_stats(ctx, dim, m, xs, where, mech, **w):
    s = m.get_suffstats()
    if not isinstance(s, dict):
        return
    want = {}
    if 'N' in s:
        want['N'] = len(xs)
    for key, f in SUFF.items():
        if key in s:
            want[key] = math.fsum(f(x) for x in xs)
    if dim.cctype == 'categorical' and 'counts' in s:
        got = s['counts']
        k = int(dim.get_distargs()['k'])
        exp = [sum(1 for x in xs if x == j) for j in range(k)]
        ctx.true([int(v) for v in (got.values() if isinstance(got, dict)
                                   else got)] == exp,
                 mech + ':suffstats', '%s: counts %r, data %r' % (
                     where, got, exp), **w)
    for key, v in want.items():
        ctx.true(near(s[key], v, sum(abs(x) for x in xs) + len(xs)),
                 mech + ':suffstats', '%s: %s=%r, data give %r' % (
                     where, key, s[key], v), **w)


def check_state(ctx, state, X, where, mech='partition', **w):
    Zv, Nv = dict(state.Zv()), dict(state.Nv())
    ctx.true(sorted(Zv) == sorted(state.outputs) == sorted(X),
             mech + ':columns', '%s: partition over %r, outputs %r, data %r'
             % (where, sorted(Zv), sorted(state.outputs), sorted(X)), **w)
    counts = {}
    for v in Zv.values():
        counts[v] = counts.get(v, 0) + 1
    ctx.true(counts == Nv and set(state.views) == set(counts),
             mech + ':view-counts', '%s: Nv %r, views %r, members give %r' % (
                 where, Nv, list(state.views), counts), **w)
    for v, view in state.views.items():
        ctx.true(sorted(view.dims) == sorted(c for c in Zv if Zv[c] == v),
                 mech + ':view-members', '%s: view %s has columns %r, '
                 'partition says %r' % (where, v, sorted(view.dims),
                                        sorted(c for c in Zv if Zv[c] == v)),
                 **w)
    n = len(next(iter(X.values())))
    got = {c: list(state.X[c]) for c in state.X}
    ctx.true(sorted(got) == sorted(X) and all(
        len(got[c]) == n and all(
            (isnan(a) and isnan(b)) or a == b for a, b in zip(got[c], X[c]))
        for c in X), mech + ':data', '%s: stored data %r, supplied %r' % (
            where, got, X), **w)
    ctx.true(state.n_rows() == n and state.n_cols() == len(X),
             mech + ':shape', '%s: %s rows %s cols, expected %s, %s' % (
                 where, state.n_rows(), state.n_cols(), n, len(X)), **w)
    arr = np.asarray(state.data_array(), dtype=float)
    ctx.true(arr.shape == (n, len(X)), mech + ':data-array',
             '%s: shape %r' % (where, arr.shape), **w)
    for v in state.views:
        zr = state.views[v].Zr()
        ctx.true(sorted(zr) == list(range(n)), mech + ':rows',
                 '%s: view %s has rows %r' % (where, v, sorted(zr)), **w)
        check_view(ctx, state.views[v], X, '%s view %s' % (where, v), mech,
                   **w)
    ctx.count('states checked')


def conditional_free(state):
    return not any(d.is_conditional() for d in state.dims())


def score_tol(state):
    """vonmises uses an asymptotic Bessel form for large concentrations."""
    n = sum(1 for d in (state.dims() if callable(state.dims)
                        else state.dims.values())
            if d.cctype == 'vonmises')
    return 2e-3 * n


# ------------------------------------------------------------------ probes ---

def fingerprint_view(view, X, seed, queries=6):
    """Observable content of a view: partitions, parameters, answers."""
    rng = np.random.RandomState(seed)
    cols = sorted(view.dims)
    out = dict(
        Zr=sorted(view.Zr().items()), Nk=sorted(view.Nk().items()),
        alpha=view.alpha(),
        hypers={c: sorted(view.dims[c].hypers.items()) for c in cols},
        cctypes={c: view.dims[c].cctype for c in cols},
        distargs={c: repr(sorted((view.dims[c].get_distargs() or {}).items(),
                                 key=str)) for c in cols},
        N={c: {k: getattr(m, 'N', None)
               for k, m in sorted(view.dims[c].clusters.items())}
           for c in cols},
        score=view.logpdf_score(),
        X={c: [repr(float(x)) for x in view.X[c]] for c in cols},
        answers=[])
    plain = [c for c in cols if not view.dims[c].is_conditional()]
    for _ in range(queries if plain else 0):
        c = plain[rng.randint(len(plain))]
        d = view.dims[c]
        x = prims.gen_value(d.cctype, rng, d.get_distargs(), rng.randint(3))
        e = {}
        for o in plain:
            if o != c and rng.rand() < .4:
                do = view.dims[o]
                e[o] = prims.gen_value(do.cctype, rng, do.get_distargs(), 0)
        out['answers'].append(view.logpdf(-1, {c: x}, e))
    return out


def fingerprint_state(state, seed, queries=6):
    rng = np.random.RandomState(seed)
    out = dict(
        outputs=sorted(state.outputs), Zv=sorted(state.Zv().items()),
        alpha=state.alpha(), Cd=repr(state.Cd), Ci=repr(state.Ci),
        views={v: fingerprint_view(state.views[v], state.X, seed, 2)
               for v in sorted(state.views)},
        X={c: [repr(float(x)) for x in state.X[c]] for c in sorted(state.X)},
        hooked=len(state.hooked_cgpms),
        score=None if state.Ci else state.logpdf_score(), answers=[])
    plain = [c for c in sorted(state.outputs)
             if not state.dim_for(c).is_conditional()]
    if state.is_composite():
        return out
    for _ in range(queries if plain else 0):
        c = plain[rng.randint(len(plain))]
        d = state.dim_for(c)
        x = prims.gen_value(d.cctype, rng, d.get_distargs(), rng.randint(3))
        e = {}
        for o in plain:
            if o != c and rng.rand() < .4:
                do = state.dim_for(o)
                e[o] = prims.gen_value(do.cctype, rng, do.get_distargs(), 0)
        out['answers'].append(state.logpdf(-1, {c: x}, e))
    return out


def diff(a, b, path='', tol=1e-6):
    """First difference between two fingerprints, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %r vs %r' % (path, sorted(a, key=str),
                                          sorted(b, key=str))
        for k in a:
            d = diff(a[k], b[k], '%s/%s' % (path, k), tol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: lengths %d vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i), tol)
            if d:
                return d
        return None
    if isinstance(a, (float, np.floating)) or isinstance(
            b, (float, np.floating)):
        if a is None or b is None:
            return None if a is b else '%s: %r vs %r' % (path, a, b)
        a, b = float(a), float(b)
        if math.isnan(a) and math.isnan(b) or a == b:
            return None
        if abs(a - b) <= tol * max(1., abs(a), abs(b)):
            return None
        return '%s: %r vs %r' % (path, a, b)
    return None if a == b else '%s: %r vs %r' % (path, a, b)
