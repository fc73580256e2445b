"""C10: hyperparameter and concentration moves draw from the grid conditional."""
import itertools
import math

import numpy as np

import mix
import prims
from vlib import scenario, chi2_pvalue, ks2_pvalue

RULE = ('a case is one move of the hyperparameters of a column, of the '
        'concentration of a view or of the concentration of a state: the '
        'weights that reach the random generator and the installed value are '
        'compared with the density of every grid value recomputed from the '
        'data and partition; or one grid; or one repeated parameter move; '
        'non-trivial when at least two grid values have probability above '
        '1e-6 (or the grid is not constant)')

EPS = 1e-6
SINGLE = ['categorical', 'crp']


def norm(lp):
    lp = np.asarray(lp, dtype=float)
    m = lp.max()
    p = np.exp(lp - m)
    return p / p.sum()


def tv(p, q):
    return .5 * float(np.abs(np.asarray(p) - np.asarray(q)).sum())


def cluster_data(dim, X, Zr):
    groups = {}
    for r, k in Zr.items():
        if not mix.isnan(X[r]):
            groups.setdefault(k, []).append(X[r])
    return list(groups.values())


def score(dim, groups, hypers, distargs):
    return math.fsum(prims.marginal(dim.cctype, g, hypers, distargs)
                     for g in groups)


def check_installed(ctx, dim, hypers, where, **w):
    """Every component of the column carries the column's values."""
    ctx.true(dim.hypers == hypers, 'hypers:column',
             '%s: column has %r, drew %r' % (where, dim.hypers, hypers), **w)
    for k, m in list(dim.clusters.items()) + [('fresh', dim.aux_model)]:
        h = m.get_hypers()
        ctx.true(all(h.get(n) == hypers[n] for n in hypers),
                 'hypers:cluster', '%s: cluster %s has %r, column %r' % (
                     where, k, h, hypers), **w)


def draws(log, n):
    return [(p, int(res)) for arr, p, size, res in log
            if len(arr) == n and size is None and arr == list(range(n))]


def match_moves(ctx, dim, groups, h0, log, where, slack, **w):
    """Replay the logged draws against the grid conditionals."""
    grids = {n: list(dim.hyper_grids[n]) for n in dim.hypers}
    distargs = dim.get_distargs()
    logged = [e for e in log if e[2] is None and
              len(e[0]) in {len(g) for g in grids.values()}]
    if len(logged) != len(grids):
        ctx.count('hyper draws not visible')
        return None
    cache = {}

    def conditional(n, h):
        key = (n, tuple(sorted(h.items())))
        if key not in cache:
            cache[key] = norm([score(dim, groups, dict(h, **{n: g}),
                                     distargs) for g in grids[n]])
        return cache[key]
    # Some order of the hyperparameters explains the draws and the outcome.
    best = None
    for order in itertools.permutations(sorted(grids)):
        if any(len(grids[n]) != len(e[1]) for n, e in zip(order, logged)):
            continue
        h, worst, nontriv = dict(h0), (0., None), False
        for n, (arr, p, size, res) in zip(order, logged):
            want = conditional(n, h)
            nontriv |= int((want > EPS).sum()) > 1
            d = tv(p, want)
            if d > worst[0]:
                worst = (d, (n, list(np.round(p, 6)),
                             list(np.round(want, 6))))
            h[n] = grids[n][int(res)] if arr == list(range(len(p))) else res
            if d > slack and best is not None and d > best[0]:
                break
        cand = (worst[0] if worst[0] > slack else 0.,
                dim.hypers != h, order, worst, h, nontriv)
        if best is None or cand[:2] < best[:2]:
            best = cand
            if cand[:2] == (0., False):
                break
    if best is None:
        ctx.count('hyper draws not visible')
        return None
    d, _, order, worst, h, nontriv = best
    ctx.count('hyper draws compared', len(logged))
    ctx.true(d <= slack, 'hypers:weights',
             '%s: no order of the hyperparameters explains the draws; the '
             'closest, %r, has (hyper, drawn with, conditional) %r' % (
                 where, order, worst), hypers=h0, grids=grids, **w)
    if d <= slack:
        check_installed(ctx, dim, h, where, **w)
    return nontriv


def slack_for(dim, groups):
    return EPS + (2e-3 * (1 + len(groups)) if dim.cctype == 'vonmises'
                  else 0)


def move_column(ctx, owner, dim, X, Zr, srng, where):
    groups = cluster_data(dim, X, Zr)
    h0 = dict(dim.hypers)
    before = (dict(dim.Zr), dict(dim.Zi))
    srng.log, srng.on = [], True
    owner()
    srng.on = False
    w = dict(cctype=dim.cctype, data=X, Zr=Zr, distargs=dim.get_distargs())
    nt = match_moves(ctx, dim, groups, h0, srng.log, where,
                     slack_for(dim, groups), **w)
    ctx.true((dict(dim.Zr), dict(dim.Zi)) == before, 'hypers:rows-moved',
             '%s: %r' % (where, before), **w)
    for n in dim.hypers:
        ctx.true(dim.hypers[n] in list(dim.hyper_grids[n]),
                 'hypers:off-grid', '%s: %s=%r not in %r' % (
                     where, n, dim.hypers[n], list(dim.hyper_grids[n])), **w)
    got = sum(m.logpdf_score() for m in dim.clusters.values())
    want = score(dim, groups, dim.hypers, dim.get_distargs())
    ctx.close(got, want, 'hypers:score-after', where, 1e-6,
              1e-6 + (2e-3 * (1 + len(groups))
                      if dim.cctype == 'vonmises' else 0), **w)
    ctx.case(dict(w, hypers=h0), bool(nt))


def entry_points(state, c, rng):
    v = state.view_for(c)
    return [
        lambda: state.transition_dim_hypers(cols=[c]),
        lambda: v.transition_dim_hypers(cols=[c]),
        lambda: state.dim_for(c).transition_hypers(),
        lambda: state.transition(N=1, kernels=['column_hypers'], cols=[c],
                                 progress=False)][rng.randint(4)]


@scenario(quick=48, thorough=600, timeout=240)
def columns(ctx):
    """Column hyperparameters in states of every shape and history."""
    srng = mix.RecordingRng(ctx.rng.randint(2**31 - 1))
    if ctx.rng.rand() < .4:
        srng.steer = ctx.newrng()
    types = None if ctx.rng.rand() < .8 else \
        [mix.MIXED[ctx.index % len(mix.MIXED)]]
    large = ctx.index % 8 == 7
    make = mix.large_state if large else mix.random_state
    st, X, specs = make(
        ctx.rng, state_rng=srng, types=types,
        hypers=ctx.rng.rand() < .5)
    for step in range(3 if large else 6):
        c = sorted(X)[ctx.rng.randint(len(X))]
        view = st.view_for(c)
        move_column(ctx, entry_points(st, c, ctx.rng), st.dim_for(c),
                    st.X[c], dict(view.Zr()), srng, 'column %s' % c)
        if ctx.rng.rand() < .4:
            # move the rest of the model along
            k = ctx.rng.randint(5)
            if k == 4:
                st.transition_dim_grids()
            else:
                st.transition(N=1, kernels=[
                    ['rows'], ['columns'], ['column_hypers'],
                    ['view_alphas']][k], progress=False)


@scenario(quick=20, thorough=250, timeout=240)
def bare_columns(ctx):
    """A Dim with any cluster layout, including empty columns, coarse and
    single-valued grids."""
    from cgpm.mixtures.dim import Dim
    rng = ctx.rng
    for _ in range(3):
        spec = mix.gen_spec(rng, mix.MIXED + ['crp'])
        n = int(rng.randint(0, 12))
        xs = mix.gen_column(rng, spec, n, .2) if n else []
        srng = mix.RecordingRng(rng.randint(2**31 - 1))
        d = Dim([5], [99], cctype=spec['cctype'], hypers=spec['hypers'],
                distargs=spec['distargs'], rng=srng)
        zr = mix.relabel(rng, mix.gen_partition(rng, range(n))) if n else {}
        d.transition_hyper_grids(
            xs or [prims.gen_value(spec['cctype'], rng, spec['distargs'])
                   for _ in range(3)],
            n_grid=int(rng.choice([3, 7, 30])))
        for r in zr:
            d.incorporate(r, {5: xs[r]}, {99: zr[r]})
        if rng.rand() < .5 and n > 1:
            r = int(rng.randint(n))
            d.unincorporate(r)
            if zr[r] not in set(zr[q] for q in zr if q != r):
                # the view drops clusters that fall empty
                d.clusters.pop(zr[r], None)
            zr.pop(r)
        for i in range(2):
            move_column(ctx, d.transition_hypers, d, xs, zr, srng,
                        'bare column')


class Alone(object):
    """A primitive seen as the only cluster of a column."""

    def __init__(self, name, m):
        self.cctype, self.m = name, m
        self.clusters, self.aux_model = {0: m}, m
        self.Zr, self.Zi = dict.fromkeys(m.data, 0), {}
        self.hyper_grids = type(m).construct_hyper_grids(
            list(m.data.values()), n_grid=30)

    hypers = property(lambda self: {
        n: self.m.get_hypers()[n] for n in self.hyper_grids})

    def get_distargs(self):
        return self.m.get_distargs()


@scenario(quick=20, thorough=250, timeout=240)
def standalone(ctx):
    """A primitive moves its own hyperparameters given its own rows."""
    rng = ctx.rng
    for _ in range(3):
        spec = mix.gen_spec(rng, mix.MIXED + ['crp'])
        name = spec['cctype']
        m = prims.make(name, 1, spec['hypers'], spec['distargs'], output=4)
        srng = m.rng = mix.RecordingRng(rng.randint(2**31 - 1))
        n = int(rng.randint(2, 10))
        xs = mix.gen_column(rng, spec, n, 0.)
        ids = [int(i) for i in rng.permutation(30)[:n]]
        X = dict(zip(ids, xs))
        for r in ids:
            m.incorporate(r, {4: X[r]})
        if rng.rand() < .4:
            m.unincorporate(ids.pop())
        for _ in range(2):
            d = Alone(name, m)
            move_column(ctx, m.transition_hypers, d, X,
                        dict.fromkeys(ids, 0), srng, 'standalone ' + name)
            ctx.true(sorted(m.data) == sorted(ids), 'standalone:data',
                     '%r became %r' % (ids, m.data))
        # repeated moves use the same grid
        N = int(rng.randint(2, 4))
        srng.log, srng.on = [], True
        m.transition_hypers(N=N)
        srng.on = False
        ctx.count('standalone moves', N)
        lens = {len(g) for g in d.hyper_grids.values()}
        seen = [e for e in srng.log if e[2] is None and len(e[0]) in lens]
        if seen and min(lens) > 1:      # (one choice needs no draw)
            ctx.true(len(seen) == N * len(d.hyper_grids),
                     'standalone:count', '%d moves of %d hyperparameters '
                     'made %d draws' % (N, len(d.hyper_grids), len(seen)))


def crp_weights(counts, grid):
    return norm([mix.crp_logp(counts, a) for a in grid])


def state_counts(state):
    counts, seen = {}, set()
    zv = state.Zv()
    for b in state.Cd:
        counts[zv[b[0]]] = counts.get(zv[b[0]], 0) + 1
        seen |= set(b)
    for c in zv:
        if c not in seen:
            counts[zv[c]] = counts.get(zv[c], 0) + 1
    return list(counts.values())


def check_alpha(ctx, what, grid, counts, call, alpha_of, crp, srng, desc):
    want = crp_weights(counts, grid)
    srng.log, srng.on = [], True
    call()
    srng.on = False
    got = draws(srng.log, len(grid))
    for p, res in got:
        ctx.count('concentration draws compared')
        ctx.true(tv(p, want) < EPS, what + ':weights',
                 '%s concentration drawn with %r, conditional %r' % (
                     what, list(np.round(p, 6)), list(np.round(want, 6))),
                 **desc)
    if not got:
        ctx.count('concentration draws not visible')
    else:
        ctx.true(alpha_of() == grid[got[-1][1]], what + ':installed',
                 '%s drew %r, installed %r' % (
                     what, grid[got[-1][1]], alpha_of()), **desc)
    ctx.true(alpha_of() in list(grid), what + ':off-grid',
             '%r not in %r' % (alpha_of(), list(grid)), **desc)
    if crp is not None:
        check_installed(ctx, crp, {'alpha': alpha_of()}, what, **desc)
    ctx.case(dict(desc, what=what, counts=sorted(counts)),
             int((want > EPS).sum()) > 1)


@scenario(quick=24, thorough=300, timeout=240)
def concentrations(ctx):
    srng = mix.RecordingRng(ctx.rng.randint(2**31 - 1))
    rng = ctx.rng
    if rng.rand() < .4:
        srng.steer = ctx.newrng()
    st, X, specs = mix.random_state(rng, state_rng=srng,
                                    n_cols=int(rng.randint(1, 8)))
    for _ in range(4):
        zv = sorted(st.Zv().items())
        call = [st.transition_crp_alpha, lambda: st.transition(
            N=1, kernels=['alpha'], progress=False)][rng.randint(2)]
        check_alpha(ctx, 'state', list(st.crp.hyper_grids['alpha']),
                    state_counts(st), call, st.alpha, st.crp, srng,
                    dict(Zv=zv))
        ctx.close(st.logpdf_score_crp(),
                  mix.crp_logp(state_counts(st), st.alpha()), 'state:score',
                  'partition density after the move')
        v = list(st.views)[rng.randint(len(st.views))]
        view = st.views[v]
        call = [view.transition_crp_alpha,
                lambda: st.transition_view_alphas(views=[v]),
                lambda: st.transition(N=1, kernels=['view_alphas'],
                                      views=[v], progress=False)
                ][rng.randint(3)]
        others = {u: st.views[u].alpha() for u in st.views if u != v}
        check_alpha(ctx, 'view', list(view.crp.hyper_grids['alpha']),
                    list(view.Nk().values()), call, view.alpha, view.crp,
                    srng, dict(Zr=sorted(view.Zr().items())))
        ctx.true(others == {u: st.views[u].alpha() for u in others},
                 'view:others', 'other views moved')
        st.transition(N=1, kernels=['rows', 'columns'], progress=False)
        if rng.rand() < .3:
            st.incorporate(st.n_rows(), {})


@scenario(quick=12, thorough=120, timeout=240)
def constrained_concentration(ctx):
    """A block of dependent columns counts as one customer."""
    srng = mix.RecordingRng(ctx.rng.randint(2**31 - 1))
    rng = ctx.rng
    n = int(rng.randint(3, 8))
    X, specs = mix.gen_table(rng, 4, n)
    cols = list(rng.permutation(n))
    Cd = [[int(c) for c in cols[:2]]]
    if n >= 5:
        Cd.append([int(c) for c in cols[2:4]])
    for _ in range(4):
        # Gibbs moves of columns are refused under dependence constraints, so
        # each partition is a fresh draw.
        st = mix.make_state(rng, X, specs, Cd=Cd, state_rng=srng)
        for _ in range(2):
            zv = sorted(st.Zv().items())
            check_alpha(ctx, 'state', list(st.crp.hyper_grids['alpha']),
                        state_counts(st), st.transition_crp_alpha, st.alpha,
                        st.crp, srng, dict(Zv=zv, Cd=Cd))


@scenario(quick=6, thorough=60, timeout=240)
def outcomes(ctx):
    """Frequencies of the installed values, from one fixed state, when a
    single hyperparameter (or concentration) is free."""
    from cgpm.mixtures.dim import Dim
    rng = ctx.rng
    spec = mix.gen_spec(rng, [(mix.MIXED + ['crp'])[
        (ctx.index + ctx.seed) % 9]])
    n = int(rng.randint(3, 10))
    xs = mix.gen_column(rng, spec, n, .1)
    zr = mix.gen_partition(rng, range(n))
    d = Dim([0], [-1], cctype=spec['cctype'], hypers=spec['hypers'],
            distargs=spec['distargs'], rng=ctx.newrng())
    d.transition_hyper_grids(xs)
    for r in zr:
        d.incorporate(r, {0: xs[r]}, {-1: zr[r]})
    free = sorted(d.hypers)[rng.randint(len(d.hypers))]
    full = {h: list(g) for h, g in d.hyper_grids.items()}
    fixed = {h: full[h][rng.randint(len(full[h]))] for h in full}
    d.hyper_grids = {
        h: (np.asarray([full[h][i] for i in range(0, len(full[h]), 5)])
            if h == free else np.asarray([fixed[h]])) for h in full}
    grid = sorted(set(d.hyper_grids[free]))
    d.hyper_grids[free] = np.asarray(grid)
    groups = cluster_data(d, xs, zr)
    want = norm([score(d, groups, dict(fixed, **{free: g}),
                       d.get_distargs()) for g in grid])

    def test(k):
        counts = {}
        for _ in range(k):
            d.set_hypers(fixed)
            d.transition_hypers()
            i = grid.index(d.hypers[free])
            counts[i] = counts.get(i, 0) + 1
        return chi2_pvalue(counts, {i: float(p) for i, p in
                                    enumerate(want) if p > 1e-12})
    ctx.stat('hypers:outcomes', '%s %s over %r' % (
        spec['cctype'], free, grid), test, n=300, data=xs, Zr=zr)
    ctx.case(dict(spec=spec, free=free, data=xs, Zr=zr),
             int((want > EPS).sum()) > 1)


@scenario(quick=10, thorough=100, timeout=240)
def invariance(ctx):
    """All hyperparameters free on a small grid: an exact draw from the grid
    posterior stays one, whatever order the hyperparameters move in."""
    from cgpm.mixtures.dim import Dim
    rng = ctx.rng
    types = [t for t in mix.MIXED if t not in SINGLE]
    spec = mix.gen_spec(rng, [types[(ctx.index + ctx.seed) % len(types)]])
    n = int(rng.randint(3, 10))
    xs = mix.gen_column(rng, spec, n, .1)
    zr = mix.gen_partition(rng, range(n))
    d = Dim([0], [-1], cctype=spec['cctype'], hypers=spec['hypers'],
            distargs=spec['distargs'], rng=ctx.newrng())
    d.transition_hyper_grids(xs)
    for r in zr:
        d.incorporate(r, {0: xs[r]}, {-1: zr[r]})
    names = sorted(d.hyper_grids)
    width = 3 if len(names) < 4 else 2
    small = {}
    for h in names:
        g = sorted(set(d.hyper_grids[h]))
        small[h] = [g[i] for i in sorted(rng.choice(
            len(g), min(width, len(g)), replace=False))]
    d.hyper_grids = {h: np.asarray(small[h]) for h in names}
    groups = cluster_data(d, xs, zr)
    cells = list(itertools.product(*[range(len(small[h])) for h in names]))
    want = norm([score(d, groups, {h: small[h][i] for h, i in
                                   zip(names, c)}, d.get_distargs())
                 for c in cells])

    def test(k):
        counts = {}
        for i in rng.choice(len(cells), size=k, p=want):
            d.set_hypers({h: small[h][j] for h, j in zip(names, cells[i])})
            d.transition_hypers()
            c = tuple(small[h].index(d.hypers[h]) for h in names)
            counts[c] = counts.get(c, 0) + 1
        return chi2_pvalue(counts, {c: float(p) for c, p in
                                    zip(cells, want) if p > 1e-12})
    ctx.stat('hypers:invariance', '%s over %r' % (spec['cctype'], small),
             test, n=300, data=xs, Zr=zr)
    ctx.case(dict(spec=spec, data=xs, Zr=zr, grid=small),
             int((want > EPS).sum()) > 1)


@scenario(quick=24, thorough=200, timeout=240)
def grids(ctx):
    """Every value of every grid is a valid hyperparameter."""
    from cgpm.mixtures.dim import Dim
    rng = ctx.rng
    for name in mix.MIXED + ['crp']:
        distargs = prims.gen_distargs(name, rng)
        n = int(rng.choice([1, 1, 2, 3, 8, 40]))
        xs = [float(x) for x in prims.gen_data(name, rng, n, distargs)]
        kind = rng.randint(4)
        if kind == 0:
            xs = [xs[0]] * n
        elif kind == 1 and name in ('normal', 'lognormal', 'exponential'):
            s = float(np.exp(rng.uniform(-8, 8)))
            xs = [x * s for x in xs]
        ng = int(rng.choice([1, 2, 30, 30]))
        g = prims.cls(name).construct_hyper_grids(list(xs), n_grid=ng)
        m = prims.make(name, 1, distargs=distargs)
        own = set(m.get_hypers())
        ctx.true(set(g) == own, 'grid:names', '%s: %r for %r' % (
            name, sorted(g), sorted(own)))
        base = m.get_hypers()
        for h in g:
            vals = list(g[h])
            ctx.true(0 < len(vals) <= ng, 'grid:length', '%s %s: %d of %d' % (
                name, h, len(vals), ng), data=xs)
            for v in vals:
                ok = math.isfinite(v)
                if name in ('normal', 'lognormal') and h == 'm':
                    pass
                elif name == 'vonmises' and h == 'b':
                    ok = ok and 0 <= v <= prims.PI2 + 1e-12
                else:
                    ok = ok and v > 0
                ctx.true(ok, 'grid:value', '%s: %s=%r from %r' % (
                    name, h, v, xs))
        # a random corner of the grid is usable with the data
        for _ in range(4):
            hy = {h: list(g[h])[rng.randint(len(g[h]))] for h in g}
            m = prims.make(name, 1, hypers=hy, distargs=distargs)
            m.set_hypers(hy)
            for r, x in enumerate(xs):
                m.incorporate(r, {0: x})
            lp = m.logpdf_score()
            want = prims.marginal(name, xs, hy, distargs)
            ctx.close(lp, want, 'grid:score', '%s score at %r' % (name, hy),
                      1e-6, 1e-6 + (2e-3 if name == 'vonmises' else 0),
                      data=xs)
        # the column move installs what it draws, and nothing when set
        spec = dict(cctype=name, distargs=distargs)
        given = prims.gen_hypers(name, rng) if rng.rand() < .5 else None
        d = Dim([0], [-1], cctype=name, hypers=given, distargs=distargs,
                rng=ctx.newrng())
        zr = mix.gen_partition(rng, range(n))
        late = rng.rand() < .5
        for r in zr if late else ():
            d.incorporate(r, {0: xs[r]}, {-1: zr[r]})
        d.transition_hyper_grids(xs + [float('nan')] * int(rng.randint(2)))
        for r in () if late else zr:
            d.incorporate(r, {0: xs[r]}, {-1: zr[r]})
        if given:
            ctx.true(d.hypers == given, 'grid:moved-hypers',
                     '%s: %r -> %r' % (name, given, d.hypers))
        else:
            ctx.true(set(d.hypers) == own and all(
                d.hypers[h] in list(d.hyper_grids[h]) for h in own),
                'grid:initial', '%s: %r' % (name, d.hypers))
        check_installed(ctx, d, dict(d.hypers), 'grids of ' + name)
        # NaN cells do not shape the grid
        d2 = Dim([0], [-1], cctype=name, hypers=prims.gen_hypers(name, rng),
                 distargs=distargs, rng=ctx.newrng())
        d2.transition_hyper_grids(xs)
        ctx.true(all(np.allclose(d2.hyper_grids[h], d.hyper_grids[h])
                     for h in own), 'grid:missing-cells', name, data=xs)
        ctx.case(dict(name=name, xs=xs, n=ng), n > 1)


@scenario(quick=24, thorough=160, timeout=240)
def params(ctx):
    """Parameter moves leave the posterior of the parameters invariant:
    theta0 ~ prior, x ~ theta0, theta1 = one move; (theta1, x) must be
    distributed as (theta0, x)."""
    from scipy import stats
    rng = ctx.rng
    name = prims.UNCOLLAPSED[ctx.index % 2]
    n = [0, 1, 3, 12][(ctx.index // 2) % 4]
    distargs = prims.gen_distargs(name, rng)

    def fresh():
        return prims.make(name, rng.randint(2**31 - 1), distargs=distargs)

    def prior():
        if name == 'beta':
            return {'strength': rng.exponential(5.) + 1e-9,
                    'balance': rng.uniform(1e-9, 1 - 1e-9)}
        return {'mu': rng.uniform(distargs['l'], distargs['h']),
                'sigma': rng.gamma(2., 2.)}

    def draw(th):
        if name == 'beta':
            return [float(np.clip(rng.beta(
                th['strength'] * th['balance'],
                th['strength'] * (1 - th['balance'])), .002, .998))
                for _ in range(n)]
        l, h, mu, sd = distargs['l'], distargs['h'], th['mu'], th['sigma']
        u = rng.uniform(stats.norm.cdf(l, mu, sd), stats.norm.cdf(h, mu, sd),
                        size=n)
        return [float(min(max(x, l), h)) for x in stats.norm.ppf(u, mu, sd)]

    def loglik(th, xs):
        return math.fsum(prims.predictive(name, x, [], None, distargs, th)
                         for x in xs)

    def test(k):
        a, b = [], []
        for _ in range(k):
            th0 = prior()
            xs = draw(th0)
            if name == 'beta' and any(not .003 < x < .997 for x in xs):
                continue
            m = prims.make(name, rng.randint(2**31 - 1), distargs=distargs,
                           params=dict(th0))
            for r, x in enumerate(xs):
                m.incorporate(r, {0: x})
            m.transition_params()
            th1 = m.get_params()
            b.append([th1[q] for q in sorted(th1)] + [loglik(th1, xs)])
            th = prior()
            ys = draw(th)
            while name == 'beta' and any(not .003 < y < .997 for y in ys):
                th = prior()
                ys = draw(th)
            a.append([th[q] for q in sorted(th)] + [loglik(th, ys)])
        a, b = np.asarray(a), np.asarray(b)
        ps = [ks2_pvalue(a[:, i], b[:, i])
              for i in range(a.shape[1] - (n == 0))]
        return min(1., min(ps) * len(ps))
    ctx.stat('params:invariance', '%s with %d observations' % (name, n),
             test, n=120, stages=((1, 1e-3), (4, 1e-4), (8, 1e-6)),
             distargs=distargs)
    ctx.case(dict(name=name, n=n, distargs=distargs), n > 0)


@scenario(quick=8, thorough=80, timeout=240)
def params_move(ctx):
    """Started far from the posterior, parameters reach it; the column, view
    and state entry points move every cluster of the column and only it."""
    rng = ctx.rng
    name = prims.UNCOLLAPSED[ctx.index % 2]
    st, X, specs = mix.random_state(
        rng, n_rows=6, n_cols=3, types=['beta', 'normal_trunc', 'normal'])
    for c in st.outputs:
        d = st.dim_for(c)
        if d.is_collapsed():
            continue
        before = {q: {k: dict(m.get_params()) for k, m in
                      st.dim_for(q).clusters.items()} for q in st.outputs}
        st.transition_dim_params(cols=[c])
        after = {q: {k: dict(m.get_params()) for k, m in
                     st.dim_for(q).clusters.items()} for q in st.outputs}
        for q in st.outputs:
            if q != c:
                ctx.true(before[q] == after[q], 'params:others-moved',
                         'column %s moved with %s' % (q, c))
        for k in before[c]:
            ctx.true(any(before[c][k][p] != after[c][k][p]
                         for p in before[c][k]), 'params:stuck',
                     'cluster %s of %s column %s kept %r' % (
                         k, d.cctype, c, before[c][k]))
        ctx.case(dict(c=c, X=X, before=before[c]))
    # far start
    distargs = {'l': -10., 'h': 10.}
    if name == 'beta':
        m = prims.make(name, rng.randint(2**31 - 1),
                       params={'strength': 1., 'balance': .05})
        xs = list(np.clip(rng.beta(16, 4, size=60), .01, .99))
        get = lambda: m.get_params()['balance']
        lo, hi = .7, .9
    else:
        m = prims.make(name, rng.randint(2**31 - 1), distargs=distargs,
                       params={'mu': -9., 'sigma': 6.})
        xs = list(np.clip(rng.normal(5, 1, size=60), -9.9, 9.9))
        get = lambda: m.get_params()['mu']
        lo, hi = 4., 6.
    for r, x in enumerate(xs):
        m.incorporate(r, {0: float(x)})
    vals = []
    for i in range(25):
        m.transition_params()
        vals.append(get())
    ctx.true(lo < np.median(vals[5:]) < hi, 'params:not-reached',
             '%s: after moves %r' % (name, vals))
    ctx.case(dict(name=name, xs=xs))
