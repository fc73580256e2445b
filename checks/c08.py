"""C08: simulated rows follow the conditional density."""
import math

import numpy as np

import mix
import prims
from vlib import scenario, uniform_test, ks_pvalue

RULE = ('a case is one simulate query (state or view, row kind, targets, '
        'constraints) whose samples are mapped to uniforms by the reference '
        'conditional distribution functions, one target after another '
        '(randomised for discrete ones), and tested for uniformity and for '
        'independence of every pair; non-trivial when several targets, '
        'constraints or clusters are involved')


def cdf_pair(spec, data, params):
    """(F(x-), F(x)) of the cluster predictive."""
    name, hy, da = spec['cctype'], spec['hypers'], spec['distargs']
    if name in prims.DISCRETE:
        cache = {}

        def mass(j):
            if j not in cache:
                cache[j] = math.exp(prims.predictive(
                    name, j, data, hy, da, params))
            return cache[j]

        def f(x):
            x = int(x)
            lo = math.fsum(mass(j) for j in range(0, x))
            return lo, lo + mass(x)
        return f
    F = prims.cdf_fn(name, data, hy, da, params)

    def g(x):
        v = float(F(x))
        return v, v
    return g


class Rosenblatt(object):
    """Maps a sample of `targets` to independent uniforms."""

    def __init__(self, ref, targets, constraints, rowid, rng):
        self.ref, self.targets, self.rng = ref, targets, rng
        self.cdfs = {}
        if rowid is not None:
            self.w0 = {ref.Zr[rowid]: 0.}
        elif ref.token in constraints:
            self.w0 = {constraints[ref.token]: 0.}
        else:
            post = ref.cluster_posterior(
                {c: x for c, x in constraints.items() if not mix.isnan(x)})
            self.w0 = {k: math.log(p) for k, p in post.items() if p > 0}

    def cdf(self, c, k):
        if (c, k) not in self.cdfs:
            self.cdfs[c, k] = cdf_pair(
                self.ref.specs[c], self.ref.cells(c, k),
                self.ref.params.get((c, k)))
        return self.cdfs[c, k]

    def __call__(self, sample):
        w, us = dict(self.w0), []
        for c in self.targets:
            if c == self.ref.token:
                n = mix.lse(w.values())
                ks = sorted(w)
                z = sample[c]
                if z not in w:
                    us.append(0.)
                    continue
                lo = math.fsum(math.exp(w[k] - n) for k in ks if k < z)
                us.append(lo + self.rng.rand() * math.exp(w[z] - n))
                w = {z: 0.}
                continue
            x = sample[c]
            n = mix.lse(w.values())
            lo = hi = 0.
            for k, lw in w.items():
                a, b = self.cdf(c, k)(x)
                p = math.exp(lw - n)
                lo += p * a
                hi += p * b
            us.append(lo + self.rng.rand() * (hi - lo))
            w = {k: lw + self.ref.cell(c, k, x) for k, lw in w.items()}
            if mix.lse(w.values()) == -math.inf:
                return us + [0.] * (len(self.targets) - len(us))
        return us


def stat_views(refs_targets, constraints_of, rowid, rng):
    return [Rosenblatt(ref, t, constraints_of(v), rowid, rng)
            for v, (ref, t) in refs_targets.items()]


def shape(ctx, samples, targets, n, what):
    if n is None:
        ctx.true(isinstance(samples, dict) and set(samples) == set(targets),
                 'shape', '%s: single sample %r for targets %r' % (
                     what, samples, targets))
        return isinstance(samples, dict)
    ok = ctx.true(isinstance(samples, list) and len(samples) == n and all(
        set(s) == set(targets) for s in samples), 'shape',
        '%s: %d samples of %r for N=%d targets %r' % (
            what, len(samples), samples[:1], n, targets))
    return ok


def state_case(ctx, st, X, specs, n=250, force=None):
    rng = ctx.rng
    ref = mix.RefState(st, X)
    cols = [sorted(X)[i] for i in rng.permutation(len(X))]
    rows = len(X[cols[0]])
    tcols = cols[:1 + rng.randint(min(4, len(cols)))]
    rest = [c for c in cols if c not in tcols]
    e = {c: mix.gen_new_value(rng, specs[c]) for c in rest
         if rng.rand() < .5}
    rowid, call = None, [None, -1, rows, rows + 4][rng.randint(4)]
    if rng.rand() < .25:
        call = rowid = int(rng.randint(rows))
        e = {c: x for c, x in e.items() if mix.isnan(X[c][rowid])}
    roses = {}
    for c in tcols:
        roses.setdefault(ref.Zv[c], []).append(c)
    ecs = ref.split(e)
    roses = [Rosenblatt(ref.views[v], ts, ecs.get(v, {}), rowid, rng)
             for v, ts in roses.items()]

    def test(m):
        s = st.simulate(call, list(tcols), dict(e) or None, None, m)
        if not shape(ctx, s, tcols, m, 'state'):
            return None
        return uniform_test([sum((r(x) for r in roses), []) for x in s])
    desc = dict(rowid=call, targets=tcols, constraints=e, Zv=ref.Zv,
                specs=specs)
    ctx.stat('state-simulate', 'state simulate(%r, %r, %r)' % (
        call, tcols, e), test, n, **desc)
    one = st.simulate(call, list(tcols), dict(e) or None)
    shape(ctx, one, tcols, None, 'state')
    shape(ctx, st.simulate(call, list(tcols), dict(e), None, 1), tcols, 1,
          'state')
    ctx.case(desc, len(tcols) > 1 or bool(e))


@scenario(quick=60, thorough=500, timeout=300)
def states(ctx):
    for _ in range(2):
        st, X, specs = mix.random_state(ctx.rng)
        state_case(ctx, st, X, specs)


@scenario(quick=8, thorough=60, timeout=300)
def large(ctx):
    if ctx.index % 2:
        state_case(ctx, *mix.large_state(ctx.rng), n=400)
    else:
        view_case(ctx, *mix.large_view(ctx.rng), n=400)


@scenario(quick=36, thorough=240, timeout=300)
def strong_clusters(ctx):
    """Well separated clusters in several views: dependence between columns
    of one view is strong, and there is none across views."""
    rng = ctx.rng
    n = 12
    types = ['normal', 'categorical', 'bernoulli', 'poisson']
    specs, X, Zv, Zrv = {}, {}, {}, {}
    for v in range(2):
        z = [int(rng.randint(0, 3)) for _ in range(n)]
        z[:3] = [0, 1, 2]
        Zrv[v] = z
        for j in range(2):
            c = 2 * v + j
            t = types[rng.randint(len(types))]
            Zv[c] = v
            if t == 'normal':
                specs[c] = dict(cctype=t, distargs=None, hypers=dict(
                    m=0., r=.1, s=.5, nu=2.))
                X[c] = [6. * k + float(rng.normal(0, .3)) for k in z]
            elif t == 'categorical':
                specs[c] = dict(cctype=t, distargs={'k': 3},
                                hypers={'alpha': .1})
                X[c] = [float(k) for k in z]
            elif t == 'bernoulli':
                specs[c] = dict(cctype=t, distargs=None,
                                hypers={'alpha': .1, 'beta': .1})
                X[c] = [float(k > 0) for k in z]
            else:
                specs[c] = dict(cctype=t, distargs=None,
                                hypers={'a': 1., 'b': .5})
                X[c] = [float(rng.poisson(8 * k + .2)) for k in z]
    st = mix.make_state(rng, X, specs, Zv=Zv, Zrv=Zrv, alpha=1.,
                        view_alphas={0: .5, 1: 2.})
    for _ in range(2):
        state_case(ctx, st, X, specs, n=300)


def view_case(ctx, view, X, specs, n=250, out=()):
    """`out`: rows of X which are not recorded"""
    rng = ctx.rng
    ref = mix.ref_view(view, X)
    tok = view.outputs[0]
    cols = [sorted(X)[i] for i in rng.permutation(len(X))]
    rows = len(X[cols[0]])
    tcols = cols[:1 + rng.randint(min(3, len(cols)))]
    rest = [c for c in cols if c not in tcols]
    e = {c: mix.gen_new_value(rng, specs[c]) for c in rest
         if rng.rand() < .5}
    new = [None, -1, rows, rows + 4] + sorted(out)
    rowid, call = None, new[rng.randint(len(new))]
    kind = rng.randint(4)
    ks = ref.tables()
    if kind == 1:
        tcols = tcols + [tok]
    elif kind == 2:
        e[tok] = int(ks[rng.randint(len(ks))])
    elif kind == 3:
        recorded = [r for r in range(rows) if r not in out]
        call = rowid = recorded[rng.randint(len(recorded))]
        e = {c: x for c, x in e.items() if mix.isnan(X[c][rowid])}
    rose = Rosenblatt(ref, tcols, e, rowid, rng)

    def test(m):
        s = view.simulate(call, list(tcols), dict(e), None, m)
        if not shape(ctx, s, tcols, m, 'view'):
            return None
        return uniform_test([rose(x) for x in s])
    desc = dict(rowid=call, targets=tcols, constraints=e, specs=specs,
                kind=int(kind), Zr=ref.Zr)
    ctx.stat('view-simulate', 'view simulate(%r, %r, %r)' % (
        call, tcols, e), test, n, **desc)
    shape(ctx, view.simulate(call, list(tcols), dict(e)), tcols, None,
          'view')
    ctx.case(desc, True)


@scenario(quick=48, thorough=400, timeout=300)
def views(ctx):
    for _ in range(2):
        v, X, specs = mix.random_view(ctx.rng)
        out = set()
        if ctx.rng.rand() < .4 and len(v.Zr()) > 3:
            for r in ctx.rng.permutation(sorted(v.Zr()))[:2]:
                v.unincorporate(int(r))
                out.add(int(r))
        view_case(ctx, v, X, specs, out=out)


@scenario(quick=9, thorough=60, timeout=300)
def uncollapsed(ctx):
    types = ['beta', 'normal_trunc', 'bernoulli']
    st, X, specs = mix.random_state(ctx.rng, types=types, n_rows=4, n_cols=3)
    for v, view in st.views.items():
        for c, d in view.dims.items():
            if not d.is_collapsed():
                for k in d.clusters:
                    p = prims.gen_params(d.cctype, specs[c]['distargs'],
                                         ctx.rng)
                    for name, x in p.items():
                        setattr(d.clusters[k], name, x)
    state_case(ctx, st, X, specs)


@scenario(quick=12, thorough=80, timeout=120)
def impossible(ctx):
    rng = ctx.rng
    st, X, specs = mix.random_state(rng, n_cols=4)
    for c in sorted(X):
        bad = prims.outside(specs[c]['cctype'], specs[c]['distargs'])
        mates = [o for o in X if o != c and st.Zv(o) == st.Zv(c)]
        if bad and mates:
            x = bad[rng.randint(len(bad))]
            ctx.raises(ValueError,
                       lambda: st.simulate(None, mates[:1], {c: x}),
                       'impossible-constraint',
                       'simulate given %s=%r' % (specs[c]['cctype'], x))
        ctx.case(dict(c=c, spec=specs[c]), bool(bad and mates))


@scenario(quick=9, thorough=60, timeout=300)
def regression_column(ctx):
    """Composite state: samples of a regression column given its inputs
    follow the density the same state reports."""
    rng = ctx.rng
    n = int(rng.randint(6, 12))
    X, specs = mix.gen_table(rng, n, 3, ['normal', 'bernoulli'], 0.)
    X[0] = mix.gen_column(rng, dict(cctype='normal', distargs=None), n)
    specs[0] = dict(cctype='normal', distargs=None, hypers=None)
    two = rng.rand() < .5
    if two:
        X[7] = mix.gen_column(rng, dict(cctype='normal', distargs=None), n)
        specs[7] = dict(cctype='normal', distargs=None, hypers=None)
    zr = mix.gen_partition(rng, range(n), 1.)
    st = mix.make_state(rng, X, specs, Zv=dict.fromkeys(X, 0),
                        Zrv={0: [zr[r] for r in range(n)]})
    st.update_cctype(0, 'linear_regression', {'inputs': [1, 2]})
    e = {c: mix.gen_new_value(rng, specs[c]) for c in (1, 2)}
    if two:
        # another regression column, known, tells about the cluster
        st.update_cctype(7, 'linear_regression')
        r = int(rng.randint(n))
        e = {c: X[c][r] for c in (1, 2, 7)}
    xs = [s[0] for s in st.simulate(None, [0], dict(e), None, 50)]
    lo, hi = np.median(xs) - 60, np.median(xs) + 60
    grid = np.sort(np.concatenate([
        np.linspace(lo, hi, 400),
        np.median(xs) + np.sinh(np.linspace(-9, 9, 400))]))
    p = np.exp([st.logpdf(None, {0: float(g)}, dict(e)) for g in grid])
    cdf = np.concatenate([[0], np.cumsum((p[1:] + p[:-1]) / 2
                                         * np.diff(grid))])

    def test(m):
        s = st.simulate(None, [0], dict(e), None, m)
        return ks_pvalue(np.interp([r[0] for r in s], grid,
                                   cdf / cdf[-1]))
    ctx.stat('regression-simulate', 'samples given %r' % e, test, 120)
    ctx.case(dict(e=e, zr=zr))


@scenario(quick=15, thorough=100, timeout=300)
def positions(ctx):
    """Each position of a batch is itself a draw: nothing about where a
    sample stands in the list tells what it is."""
    rng = ctx.rng
    for kind in ('state', 'view'):
        if kind == 'state':
            m, X, specs = mix.random_state(rng, n_cols=2)
            ref = mix.RefState(m, X)
            c = sorted(X)[rng.randint(2)]
            rose = Rosenblatt(ref.views[ref.Zv[c]], [c], {}, None, rng)
        else:
            m, X, specs = mix.random_view(rng, n_cols=2)
            c = sorted(X)[rng.randint(2)]
            rose = Rosenblatt(mix.ref_view(m, X), [c], {}, None, rng)

        def test(n):
            us = []
            for _ in range(n):
                s = m.simulate(None, [c], None, None, 3)
                us.append([rose(x)[0] for x in s])
            return uniform_test(us)
        ctx.stat(kind + '-positions', '%s simulate(None, [%s], N=3) by '
                 'position' % (kind, c), test, 100, specs=specs)
        ctx.case(dict(kind=kind, specs=specs))
