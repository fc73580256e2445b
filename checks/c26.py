"""C26: missing cells are integrated out, observed cells are fixed."""
import math

import numpy as np

import hist
import mix
import prims
import queries as Q
from mix import isnan
from vlib import Inconclusive, scenario, uniform_test
from c08 import Rosenblatt

TECHNIQUE = (
    'monitors on the real states, views and columns under random histories of '
    'missing, filled, refused and cleared cells: scores, densities, samples '
    'and statistics against a reference given only the observed cells, and '
    'against a copy that never had (or always had) the cell')
RULE = ('a case is one state, view, column or engine with missing cells, '
        'right after one fill, clear, refusal or query; non-trivial when it '
        'has both missing and observed cells; distinct by the data and the '
        'operations')
NAN = float('nan')
PLAIN = ['normal', 'bernoulli', 'categorical', 'poisson', 'exponential',
         'lognormal', 'geometric']
TYPES = PLAIN + ['vonmises', 'beta', 'normal_trunc']


def holes(X, rows=None):
    n = len(next(iter(X.values())))
    return [(r, c) for c in X for r in (range(n) if rows is None else rows)
            if isnan(X[c][r])]


def lonely(X):
    """A column without a single observed cell has no grid (known finding)."""
    return any(all(isnan(x) for x in X[c]) for c in X)


def cond_cols(view):
    return [c for c, d in view.dims.items() if d.is_conditional()]


def cluster_content(d, k, X, Zr):
    """Rows whose cell, and inputs if any, are all there."""
    need = [d.index] + list(d.inputs[1:])
    return [r for r in sorted(Zr) if Zr[r] == k
            and not any(isnan(X[c][r]) for c in need)]


def fresh_cluster(d, k, X, Zr):
    """The same kind of component, given the observed cells and no others."""
    m = d.create_aux_model()
    for r in cluster_content(d, k, X, Zr):
        m.incorporate(r, {d.index: X[d.index][r]},
                      {i: X[i][r] for i in d.inputs[1:]})
    return m


def check_conditional(ctx, view, X, where, log):
    """Regression columns hold the complete rows of each cluster."""
    Zr = dict(view.Zr())
    for c in cond_cols(view):
        d = view.dims[c]
        for k in view.Nk():
            want = fresh_cluster(d, k, X, Zr)
            got = d.clusters.get(k, d.aux_model)
            ctx.true(got.N == want.N, 'conditional:members',
                     '%s: column %s given %s, cluster %s holds %s rows, %s '
                     'are complete' % (where, c, d.inputs[1:], k, got.N,
                                       want.N), log=log)
            ctx.close(got.logpdf_score(), want.logpdf_score(),
                      'conditional:score', '%s: column %s cluster %s' % (
                          where, c, k), tol=1e-6, log=log)
            y = float(ctx.rng.normal())
            rows = [r for r in range(len(X[c]))
                    if not any(isnan(X[i][r]) for i in d.inputs[1:])]
            if rows:
                r = rows[ctx.rng.randint(len(rows))]
                e = {i: X[i][r] for i in d.inputs[1:]}
                ctx.close(d.logpdf(None, {c: y}, None,
                                   dict(e, **{}) | {d.inputs[0]: k}),
                          want.logpdf(None, {c: y}, None, e),
                          'conditional:predictive',
                          '%s: column %s cluster %s given %r' % (
                              where, c, k, e), tol=1e-6, log=log)


def monitor(ctx, st, X, where, log):
    mix.check_state(ctx, st, X, where, mech='cells', log=log[-20:])
    for v in st.views:
        check_conditional(ctx, st.views[v], X, where, log[-20:])
    if mix.conditional_free(st):
        ref = mix.RefState(st, X)
        if not st.Cd and not st.Ci:
            s = ref.score()
            ctx.close(st.logpdf_score(), s, 'score', where + ': score of a '
                      'state with missing cells',
                      tol=1e-6 * (1 + abs(s)) + mix.score_tol(st) * len(
                          next(iter(X.values()))), log=log[-20:])


# --------------------------------------------------------------- histories ---

def value(rng, st, specs, c):
    if st.dim_for(c).is_conditional():
        return float(rng.normal())
    return mix.gen_new_value(rng, specs[c])


def step(ctx, st, X, specs, log):
    """One operation on cells, applied to the caller's table as well."""
    rng = ctx.rng
    n = len(next(iter(X.values())))
    hs = holes(X)
    op = rng.randint(10)
    if op <= 3 and hs:
        r, c = hs[rng.randint(len(hs))]
        more = [h for h in hs if h[0] == r and h[1] != c and rng.rand() < .6]
        cols = [c] + [h[1] for h in more]
        rng.shuffle(cols)
        obs = {x: value(rng, st, specs, x) for x in cols}
        st.force_cell(r, dict(obs))
        for x in obs:
            X[x][r] = obs[x]
        log.append('fill %s %r' % (r, obs))
        return 'fill'
    if op == 4:
        cols = [c for c in X if rng.rand() < .6]
        if not cols:
            cols = [list(X)[0]]
        obs = {c: value(rng, st, specs, c) for c in cols}
        if rng.rand() < .4:
            v = list(st.views)[rng.randint(len(st.views))]
            view = st.views[v]
            ks = list(view.Nk()) + [max(view.Nk()) + 1]
            obs[view.outputs[0]] = ks[rng.randint(len(ks))]
        log.append('record %r' % (obs,))
        st.incorporate(n, dict(obs))
        for c in X:
            X[c].append(obs.get(c, NAN))
        if view_told(obs, st):
            v = view_told(obs, st)
            ctx.true(st.views[v].Zr(n) == obs[st.views[v].outputs[0]],
                     'cells:told-cluster', 'row %d told %r is in %r' % (
                         n, obs, st.views[v].Zr(n)), log=log[-20:])
        return 'record'
    if op == 5 and n > 2:
        log.append('drop %d' % (n - 1))
        if lonely({c: X[c][:-1] for c in X}):
            return None
        st.unincorporate(n - 1)
        for c in X:
            X[c].pop()
        return 'drop'
    if op == 6:
        if lonely(X):
            return None
        # a state whose column had its type changed, or moves, keeps holes
        ks = [['rows'], ['column_hypers'], ['view_alphas', 'alpha'],
              ['column_params']][rng.randint(4)]
        log.append('transition %r' % (ks,))
        st.transition(N=1, kernels=ks, progress=False)
        return 'transition'
    if op == 7:
        # column appears with holes, or a clean one
        c = max(X) + 1
        spec = mix.gen_spec(rng, PLAIN)
        xs = mix.gen_column(rng, spec, n, missing=.5)
        v = ([None] if mix.conditional_free(st) else []) + list(st.views)
        v = v[rng.randint(len(v))]
        log.append('column %s %r %r in %s' % (c, spec, xs, v))
        kw = {} if v is None else dict(v=v)
        if len(X) > 6:
            return None
        st.incorporate_dim(list(xs), [c], cctype=spec['cctype'],
                           distargs=spec['distargs'], **kw)
        X[c], specs[c] = list(xs), spec
        return 'column'
    if op == 8:
        return refused(ctx, st, X, specs, log)
    if op == 9 and hs:
        # nothing is put where nothing was
        r, c = hs[rng.randint(len(hs))]
        log.append('fill %s with nothing' % ((r, c),))
        st.force_cell(r, {c: NAN})
        return 'nothing'
    return None


def view_told(obs, st):
    for v in st.views:
        if st.views[v].outputs[0] in obs:
            return v
    return None


def refused(ctx, st, X, specs, log):
    rng = ctx.rng
    n = len(next(iter(X.values())))
    hs = holes(X)
    kind = rng.randint(4)
    if kind == 0:
        full = [(r, c) for c in X for r in range(n) if not isnan(X[c][r])]
        if not full:
            return None
        r, c = full[rng.randint(len(full))]
        obs = {c: value(rng, st, specs, c)}
        obs.update({h[1]: value(rng, st, specs, h[1]) for h in hs
                    if h[0] == r and rng.rand() < .5})
        what = 'fill of an observed cell'
    elif kind == 1:
        r = [n, n + 3, -1][rng.randint(3)]
        c = list(X)[rng.randint(len(X))]
        obs = {c: value(rng, st, specs, c)}
        what = 'fill of a row that is not there'
    else:
        bad = []
        for r, c in hs:
            if st.dim_for(c).is_conditional():
                continue
            xs = prims.outside(specs[c]['cctype'], specs[c]['distargs'])
            if xs:
                bad.append((r, c, float(xs[rng.randint(len(xs))])))
        if not bad:
            return None
        r, c, x = bad[rng.randint(len(bad))]
        obs = {h[1]: value(rng, st, specs, h[1]) for h in hs
               if h[0] == r and rng.rand() < .7}
        obs[c] = x
        items = list(obs.items())
        obs = {k: y for k, y in [items[i] for i in
                                 rng.permutation(len(items))]}
        what = 'fill with an impossible value'
    log.append('refused %s %s %r' % (what, r, obs))
    before = Q.digest_state(st)
    if not ctx.raises(ValueError, lambda: st.force_cell(r, dict(obs)),
                      'refused', '%s: row %s, %r' % (what, r, obs),
                      log=log[-20:]):
        return None
    d = mix.diff(before, Q.digest_state(st))
    ctx.true(d is None, 'refused:trace', what + ' changed the state: %s' % d,
             log=log[-20:])
    return 'refused'


def linear(rng, st, X, specs):
    """Turns a numeric column into a regression on its view."""
    v = list(st.views)
    rng.shuffle(v)
    for view in (st.views[x] for x in v):
        cs = [c for c in view.dims if specs[c]['cctype'] == 'normal']
        if len(view.dims) > 1 and cs:
            c = cs[rng.randint(len(cs))]
            others = [o for o in view.dims if o != c]
            rng.shuffle(others)
            da = None
            if rng.rand() < .5:
                da = {'inputs': others[:1 + rng.randint(len(others))]}
            st.update_cctype(c, 'linear_regression', distargs=da)
            return c
    return None


@scenario(quick=60, thorough=900)
def cell_histories(ctx):
    st, X, specs = mix.random_state(
        ctx.rng, n_rows=int(ctx.rng.randint(3, 9)), missing=float(
            ctx.rng.choice([.3, .6])), types=TYPES)
    X = {c: list(X[c]) for c in X}
    log = []
    monitor(ctx, st, X, 'at first', log)
    for _ in range(18):
        op = step(ctx, st, X, specs, log)
        if op is None:
            continue
        ctx.count('op:' + op)
        monitor(ctx, st, X, 'after ' + log[-1][:140], log)
        ctx.case(repr((log[-1], sorted(st.Zv().items()))), bool(holes(X)))
        if ctx.violations:
            return


@scenario(quick=60, thorough=900)
def conditional_histories(ctx):
    """A regression column drops the rows whose inputs are missing, and has
    them back as soon as the inputs are filled."""
    rng = ctx.rng
    st, X, specs = mix.random_state(
        rng, n_rows=int(rng.randint(4, 9)), n_cols=int(rng.randint(2, 5)),
        missing=float(rng.choice([.2, .4])),
        types=['normal', 'normal', 'categorical', 'bernoulli'])
    X = {c: list(X[c]) for c in X}
    c = linear(rng, st, X, specs)
    if c is None:
        st, X, specs = mix.random_state(
            rng, n_rows=6, n_cols=3, missing=.3, types=['normal'])
        X = {o: list(X[o]) for o in X}
        c = linear(rng, st, X, specs)
        if c is None:
            raise Inconclusive('no view of two columns')
    log = ['column %s given %r' % (c, st.dim_for(c).inputs)]
    monitor(ctx, st, X, 'at first', log)
    for _ in range(14):
        op = step(ctx, st, X, specs, log)
        if op is None:
            continue
        ctx.count('op:' + op)
        monitor(ctx, st, X, 'after ' + log[-1][:140], log)
        ctx.case(repr((log[-1], sorted(st.Zv().items()))), bool(holes(X)))
        if ctx.violations:
            return


# ------------------------------------------------------------- fill, clear ---

def put(view, X, r, obs):
    for c in obs:
        view.X[c][r] = obs[c]
        X[c][r] = obs[c]
    view.force_cell(r, dict(obs))


@scenario(quick=60, thorough=900)
def fill_and_clear(ctx):
    """Filling cells and clearing them again restores the view; filling them
    one by one, together, or from the start makes the same view."""
    rng = ctx.rng
    missing = float(rng.choice([.3, .6]))
    if rng.rand() < .5:
        st, X, specs = mix.random_state(
            rng, n_rows=int(rng.randint(3, 8)), n_cols=int(rng.randint(1, 5)),
            missing=missing, types=PLAIN + ['normal'] * 4)
        linear(rng, st, X, specs)
        v = list(st.views)[rng.randint(len(st.views))]
        view = st.views[v]
        X = {c: list(X[c]) for c in view.dims}
    else:
        view, X, specs = mix.random_view(
            rng, n_rows=int(rng.randint(3, 8)), missing=missing, types=PLAIN)
        X = {c: list(X[c]) for c in X}
    hs = holes(X)
    if not hs:
        raise Inconclusive('no hole')

    def facts():
        out = {'score': view.logpdf_score(), 'Zr': dict(view.Zr())}
        for c, d in view.dims.items():
            for k in view.Nk():
                m = d.clusters.get(k, d.aux_model)
                out[c, k] = (m.N, m.logpdf_score())
        return out

    def agree(a, b, mech, what):
        ctx.true(a['Zr'] == b['Zr'], mech + ':rows', '%s: %r, %r' % (
            what, a['Zr'], b['Zr']), log=log)
        for key in a:
            if key == 'Zr':
                continue
            p, q = (a[key], b[key]) if isinstance(a[key], tuple) else (
                (0, a[key]), (0, b[key]))
            ctx.true(p[0] == q[0], mech + ':members', '%s: %s holds %r, %r'
                     % (what, key, p[0], q[0]), log=log)
            ctx.close(q[1], p[1], mech + ':score', '%s: %s' % (what, key),
                      tol=1e-6 * (1 + abs(p[1])), log=log)

    log = []
    for _ in range(4):
        hs = holes(X)
        if not hs:
            break
        a = facts()
        r = hs[rng.randint(len(hs))][0]
        cols = [c for q, c in hs if q == r]
        rng.shuffle(cols)
        cols = cols[:1 + rng.randint(len(cols))]
        obs = {c: float(rng.normal()) if view.dims[c].is_conditional()
               else mix.gen_new_value(rng, specs[c]) for c in cols}
        log.append((r, dict(obs)))
        if rng.rand() < .5:
            put(view, X, r, obs)
        else:
            for c in cols:
                put(view, X, r, {c: obs[c]})
        check_conditional(ctx, view, X, 'filled %r' % (log[-1],), log)
        mix.check_view(ctx, view, X, 'filled %r' % (log[-1],), mech='filled',
                       log=log)
        b = facts()
        order = list(cols)
        rng.shuffle(order)
        if rng.rand() < .5:
            put(view, X, r, {c: NAN for c in order})
        else:
            for c in order:
                put(view, X, r, {c: NAN})
        agree(a, facts(), 'cleared', 'filled and cleared %r' % (log[-1],))
        check_conditional(ctx, view, X, 'cleared %r' % (log[-1],), log)
        for c in order:
            put(view, X, r, {c: obs[c]})
        agree(b, facts(), 'refilled', 'filled %r in another order' % (
            log[-1],))
        # out and in again, in the same cluster
        z = view.Zr(r)
        view.unincorporate(r)
        view.incorporate(r, dict({c: X[c][r] for c in view.dims},
                                 **{}) | {view.outputs[0]: z})
        agree(b, facts(), 'rerecorded', 'row %s of %r' % (r, X))
        ctx.case(repr((log[-1], sorted(view.Zr().items()))), len(X) > 1)


# ----------------------------------------------------------------- queries ---

@scenario(quick=80, thorough=1200)
def densities(ctx):
    """Densities in presence of missing cells; missing constraints."""
    rng = ctx.rng
    large = ctx.index % 10 == 9
    st, X, specs = mix.random_state(
        rng, n_rows=int(rng.randint(2, 9) if not large else 40),
        n_cols=int(rng.randint(2, 7) if not large else 12),
        rows_alpha=8. if large else None,
        missing=float(rng.choice([.3, .6])), types=PLAIN)
    ref = mix.RefState(st, X)
    n = len(next(iter(X.values())))
    for _ in range(12):
        cols = list(X)
        rng.shuffle(cols)
        t = {c: mix.gen_new_value(rng, specs[c])
             for c in cols[:1 + rng.randint(2)]}
        rest = [c for c in cols if c not in t]
        e = {c: mix.gen_new_value(rng, specs[c])
             for c in rest if rng.rand() < .5}
        none = {c: NAN for c in rest if c not in e and rng.rand() < .6}
        row = [None, -1, n, n + 5][rng.randint(4)]
        want = ref.logpdf(t, e)
        got = st.logpdf(row, dict(t), dict(e))
        ctx.close(got, want, 'density', 'logpdf of %r given %r, data %r' % (
            t, e, X), tol=1e-6)
        ctx.close(st.logpdf(row, dict(t), dict(none) | e), got,
                  'density:missing-constraint', 'logpdf of %r given %r and '
                  'missing %r' % (t, e, sorted(none)), tol=1e-6)
        ctx.case(repr((t, e, sorted(none), X)), bool(holes(X)))
        # the view's own interface
        v = st.Zv(list(t)[0])
        view = st.views[v]
        tv = {c: x for c, x in t.items() if c in view.dims}
        ev = {c: x for c, x in e.items() if c in view.dims}
        nv = {c: x for c, x in none.items() if c in view.dims}
        want = ref.views[v].logpdf(tv, ev)
        ctx.close(view.logpdf(row, dict(tv), dict(ev) | nv), want,
                  'density:view', 'View.logpdf of %r given %r and missing %r'
                  % (tv, ev, sorted(nv)), tol=1e-6)
        # the cluster of a hypothetical row
        zs = ref.views[v].tables()
        post = ref.views[v].cluster_posterior(ev)
        z = zs[rng.randint(len(zs))]
        ctx.close(view.logpdf(row, {view.outputs[0]: z}, dict(ev) | nv),
                  math.log(post[z]), 'density:cluster',
                  'cluster %s given %r and missing %r' % (z, ev, sorted(nv)),
                  tol=1e-6)


@scenario(quick=60, thorough=900)
def recorded_rows(ctx):
    """A missing cell of a recorded row: its cluster, its cells, no others."""
    rng = ctx.rng
    large = ctx.index % 10 == 9
    st, X, specs = mix.random_state(
        rng, n_rows=int(rng.randint(3, 8) if not large else 40),
        n_cols=int(rng.randint(2, 6) if not large else 12),
        rows_alpha=8. if large else None, missing=.5, types=PLAIN)
    if rng.rand() < .5:
        n = st.n_rows()
        obs = {c: mix.gen_new_value(rng, specs[c]) for c in X
               if rng.rand() < .6} or {
            list(X)[0]: mix.gen_new_value(rng, specs[list(X)[0]])}
        st.incorporate(n, dict(obs))
        for c in X:
            X[c].append(obs.get(c, NAN))
    ref = mix.RefState(st, X)
    n = st.n_rows()
    for _ in range(10):
        r = int(rng.randint(n))
        free = [c for c in X if isnan(X[c][r])]
        if not free:
            continue
        rng.shuffle(free)
        k = 1 + rng.randint(min(3, len(free)))
        t = {c: mix.gen_new_value(rng, specs[c]) for c in free[:k]}
        e = {c: mix.gen_new_value(rng, specs[c]) for c in free[k:]
             if rng.rand() < .4}
        # restating what is recorded changes nothing
        said = {c: X[c][r] for c in X
                if not isnan(X[c][r]) and rng.rand() < .3}
        want = ref.logpdf(t, {}, r)
        ctx.close(st.logpdf(r, dict(t), dict(e) | said), want,
                  'recorded:density', 'row %s, logpdf of %r given %r (and '
                  '%r as recorded)' % (r, t, e, said), tol=1e-6)
        v = st.Zv(list(t)[0])
        view = st.views[v]
        tv = {c: x for c, x in t.items() if c in view.dims}
        ctx.close(view.logpdf(r, dict(tv)), ref.views[v].logpdf(
            tv, None, r), 'recorded:view', 'row %s, View.logpdf of %r' % (
                r, tv), tol=1e-6)
        ctx.case(repr((r, t, e, sorted(view.Zr().items()))), True)
        # observed cells are not up for grabs
        seen = [c for c in X if not isnan(X[c][r])]
        if seen:
            c = seen[rng.randint(len(seen))]
            ctx.raises(ValueError, lambda: st.logpdf(r, {c: X[c][r]}),
                       'recorded:observed', 'density of the observed cell '
                       '%s' % ((r, c),))
            x = mix.gen_new_value(rng, specs[c])
            if not np.allclose(x, X[c][r]):
                ctx.raises(ValueError,
                           lambda: st.logpdf(r, dict(t), {c: x}),
                           'recorded:override', 'row %s: %r is %r, '
                           'constrained to %r' % (r, c, X[c][r], x))
                ctx.raises(ValueError,
                           lambda: st.simulate(r, list(t), {c: x}),
                           'recorded:override', 'simulate row %s: %r is %r, '
                           'constrained to %r' % (r, c, X[c][r], x))
    ctx.true(not mix.diff(X, {c: list(st.X[c]) for c in X}),
             'recorded:data', 'queries changed the data')


@scenario(quick=32, thorough=500)
def recorded_samples(ctx):
    """Samples of missing cells of recorded rows; missing constraints."""
    rng = ctx.rng
    st, X, specs = mix.random_state(
        rng, n_rows=int(rng.randint(3, 8)), n_cols=int(rng.randint(2, 5)),
        missing=.5, types=['normal', 'bernoulli', 'categorical', 'poisson'])
    hs = holes(X)
    if not hs:
        raise Inconclusive('no hole')
    ref = mix.RefState(st, X)
    if rng.rand() < .6:
        r = row = hs[rng.randint(len(hs))][0]
        pool = [c for q, c in hs if q == r]
        e = {}
    else:
        r, row, pool = None, None, list(X)
        e = {c: mix.gen_new_value(rng, specs[c]) for c in X
             if rng.rand() < .3}
        e = dict(list(e.items())[:len(pool) - 1])
        pool = [c for c in pool if c not in e]
    rng.shuffle(pool)
    k = 1 + rng.randint(min(3, len(pool)))
    t, none = pool[:k], {c: NAN for c in pool[k:]}
    by = {}
    for c in t:
        by.setdefault(ref.Zv[c], []).append(c)
    es = ref.split(e)
    roses = [Rosenblatt(ref.views[v], ts, es.get(v, {}), r, rng)
             for v, ts in by.items()]
    view = None
    if len(by) == 1 and rng.rand() < .5:
        view = st.views[list(by)[0]]
        e2 = {c: x for c, x in e.items() if c in view.dims}
        none = {c: x for c, x in none.items() if c in view.dims}

    def test(m):
        if view is not None:
            s = view.simulate(row, list(t), dict(e2) | none, None, m)
        else:
            s = st.simulate(row, list(t), dict(e) | none, None, m)
        return uniform_test([[u for ro in roses for u in ro(x)] for x in s])
    ctx.stat('samples', '%s, row %s, targets %r given %r and missing %r'
             % ('view' if view is not None else 'state', row, t, e,
                sorted(none)), test, n=250)
    ctx.case(repr((row, t, e, X)), True)


# ----------------------------------------------------------------- columns ---

@scenario(quick=60, thorough=900)
def columns(ctx):
    """A column with missing cells is the column without them: score, grids,
    hyperparameter moves, predictives."""
    from cgpm.mixtures.dim import Dim
    rng = ctx.rng
    spec = mix.gen_spec(rng, TYPES)
    n = int(rng.randint(3, 12))
    xs = mix.gen_column(rng, spec, n, missing=.5)
    z = mix.gen_partition(rng, range(n))
    seed = int(rng.randint(2**31 - 1))

    def build(rows):
        d = Dim([5], [99], cctype=spec['cctype'], distargs=spec['distargs'],
                hypers=dict(spec['hypers']) if spec['hypers'] else None,
                rng=np.random.RandomState(seed))
        d.transition_hyper_grids([xs[r] for r in rows])
        for r in rows:
            d.incorporate(r, {5: xs[r]}, {99: z[r]})
        return d
    seen = [r for r in range(n) if not isnan(xs[r])]
    a, b = build(range(n)), build(seen)
    if a.is_collapsed():
        ctx.close(a.logpdf_score(), b.logpdf_score(), 'column:score',
                  '%s %r in %r' % (spec, xs, z), tol=1e-9)
    ctx.true(set(a.hyper_grids) == set(b.hyper_grids) and all(
        np.allclose(a.hyper_grids[h], b.hyper_grids[h])
        for h in a.hyper_grids), 'column:grids', '%s %r' % (spec, xs))
    ctx.case(repr((spec['cctype'], xs, sorted(z.items()))),
             0 < len(seen) < n)
    ks = sorted(set(z.values()))
    if a.is_collapsed():
        for k in ks + [max(ks) + 1]:
            x = mix.gen_new_value(rng, spec)
            ctx.close(a.logpdf(None, {5: x}, None, {99: k}),
                      b.logpdf(None, {5: x}, None, {99: k}),
                      'column:predictive', '%s %r in cluster %s of %r, %r' % (
                          spec, x, k, z, xs), tol=1e-9)
            ctx.true(a.logpdf(None, {5: NAN}, None, {99: k}) == 0,
                     'column:nothing', 'log density of no cell at all')
    # a hyperparameter is judged by the observed cells, cluster by cluster
    for k in set(z.values()):
        m = a.clusters[k]
        mine = [xs[r] for r in seen if z[r] == k]
        ctx.true(getattr(m, 'N', len(mine)) == len(mine), 'column:count',
                 '%s cluster %s counts %s cells of %r' % (
                     spec, k, getattr(m, 'N', None), mine))
    # rows leave in any order
    order = [int(r) for r in rng.permutation(n)]
    for r in order[:n // 2]:
        a.unincorporate(r)
        if r in seen:
            b.unincorporate(r)
    if a.is_collapsed():
        ctx.close(a.logpdf_score(), b.logpdf_score(), 'column:left',
                  '%s %r without %r' % (spec, xs, order[:n // 2]), tol=1e-6)
    gone = order[0]
    ctx.raises(ValueError, lambda: a.unincorporate(gone), 'column:twice',
               'row %s, %r, left twice' % (gone, xs[gone]))
    here = order[-1]
    ctx.raises(ValueError, lambda: a.incorporate(
        here, {5: xs[here]}, {99: z[here]}), 'column:twice',
        'row %s, %r, recorded twice' % (here, xs[here]))


@scenario(quick=30, thorough=400)
def irrelevant_rows(ctx):
    """The missing cell itself is never read: whatever row it is in, a
    column's density depends on the cells of its cluster only."""
    rng = ctx.rng
    view, X, specs = mix.random_view(
        rng, n_rows=int(rng.randint(4, 8)), n_cols=int(rng.randint(1, 4)),
        missing=0., types=PLAIN)
    n = len(next(iter(X.values())))
    r = int(rng.randint(n))
    z = view.Zr(r)
    c = list(X)[rng.randint(len(X))]
    if sum(not isnan(x) for x in X[c]) < 2:
        return
    x = X[c][r]
    probes = [mix.gen_new_value(rng, specs[c]) for _ in range(3)]
    a = {k: [view.dims[c].logpdf(None, {c: p}, None,
                                 {view.outputs[0]: k}) for p in probes]
         for k in view.Nk()}
    put(view, X, r, {c: NAN})
    ref = mix.ref_view(view, X)
    for k in view.Nk():
        for p, was in zip(probes, a[k]):
            got = view.dims[c].logpdf(None, {c: p}, None,
                                      {view.outputs[0]: k})
            want = ref.cell(c, k, p)
            ctx.close(got, want, 'cleared:predictive', 'column %s cluster %s '
                      'at %r after row %s (of cluster %s) lost it' % (
                          c, k, p, r, z), tol=1e-6)
            if k != z:
                ctx.close(got, was, 'cleared:other-cluster', 'column %s '
                          'cluster %s, row %s of cluster %s lost its cell' % (
                              c, k, r, z), tol=1e-9)
    # rows move, cell or no cell
    for _ in range(4):
        view.transition_rows()
        mix.check_view(ctx, view, X, 'rows moved', mech='moved')
        check = mix.ref_view(view, X)
        s = check.score()
        ctx.close(view.logpdf_score(), s, 'moved:score', 'rows moved',
                  tol=1e-6 * (1 + abs(s)))
    put(view, X, r, {c: x})
    mix.check_view(ctx, view, X, 'cell back', mech='moved')
    ctx.case(repr((r, c, sorted(view.Zr().items()), X)), True)


# ------------------------------------------------------------------ engine ---

@scenario(quick=16, thorough=160)
def engines(ctx):
    """Every state of an engine has the same cells, missing and filled."""
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    n, cols = int(rng.randint(3, 7)), int(rng.randint(2, 5))
    X, specs = mix.gen_table(rng, n, cols, PLAIN, .4)
    cs = list(X)
    multi = int(rng.rand() < .4)
    e = Engine(np.asarray([X[c] for c in cs], dtype=float).T, outputs=cs,
               cctypes=[specs[c]['cctype'] for c in cs],
               distargs=[specs[c]['distargs'] for c in cs],
               num_states=int(rng.randint(1, 4)),
               rng=np.random.RandomState(rng.randint(2**31 - 1)),
               multiprocess=multi)
    X = {c: list(X[c]) for c in X}
    log = []

    def look(where):
        for i, st in enumerate(e.states):
            mix.check_state(ctx, st, X, '%s, state %d' % (where, i),
                            mech='engine', log=log)
    look('at first')
    for _ in range(6):
        hs = holes(X)
        k = rng.randint(4)
        if k == 0 and hs:
            r = hs[rng.randint(len(hs))][0]
            obs = {c: mix.gen_new_value(rng, specs[c]) for q, c in hs
                   if q == r and rng.rand() < .7}
            if not obs:
                continue
            log.append('fill %s %r' % (r, obs))
            e.force_cell(r, dict(obs), multiprocess=multi)
            for c in obs:
                X[c][r] = obs[c]
        elif k == 1 and hs:
            rows = sorted({q for q, _ in hs})
            rng.shuffle(rows)
            rows = rows[:1 + rng.randint(len(rows))]
            obs = []
            for r in rows:
                o = [c for q, c in hs if q == r]
                rng.shuffle(o)
                obs.append({c: mix.gen_new_value(rng, specs[c])
                            for c in o[:1 + rng.randint(len(o))]})
            if rng.rand() < .5:
                # cell by cell, a row occurring more than once
                flat = [(r, {c: o[c]}) for r, o in zip(rows, obs) for c in o]
                rows = [r for r, _ in flat]
                obs = [o for _, o in flat]
            log.append('fill %r %r' % (rows, obs))
            e.force_cell_bulk(list(rows), [dict(o) for o in obs],
                              multiprocess=multi)
            for r, o in zip(rows, obs):
                for c in o:
                    X[c][r] = o[c]
        elif k == 2:
            obs = {c: mix.gen_new_value(rng, specs[c]) for c in cs
                   if rng.rand() < .5} or {
                cs[0]: mix.gen_new_value(rng, specs[cs[0]])}
            log.append('record %r' % (obs,))
            e.incorporate(len(X[cs[0]]), dict(obs), multiprocess=multi)
            for c in cs:
                X[c].append(obs.get(c, NAN))
        elif k == 3:
            log.append('rows')
            e.transition(N=1, kernels=['rows'], progress=False,
                         multiprocess=multi)
        look('after ' + (log[-1] if log else 'nothing'))
        ctx.case(repr((log, len(e.states))), bool(holes(X)))
    # densities of a missing cell, state by state
    hs = holes(X)
    if hs:
        r, c = hs[rng.randint(len(hs))]
        x = mix.gen_new_value(rng, specs[c])
        got = e.logpdf(r, {c: x}, multiprocess=multi)
        for st, g in zip(e.states, got):
            ctx.close(g, mix.RefState(st, X).logpdf({c: x}, None, r),
                      'engine:density', 'cell %s at %r' % ((r, c), x),
                      tol=1e-6)


# ----------------------------------------------------------- known finding ---

@scenario(quick=1, thorough=1)
def empty_column(ctx):
    """known finding: no grid for a column without any observed cell"""
    rng = np.random.RandomState(3)
    X = {0: [0.3, -0.4, 1.2], 1: [NAN] * 3}
    spec = {0: dict(cctype='normal', distargs=None, hypers=None),
            1: dict(cctype='normal', distargs=None, hypers=None)}
    ctx.case('a column with no observed cell')
    try:
        st = mix.make_state(rng, X, spec, Zv={0: 0, 1: 1},
                            Zrv={0: [0, 0, 1], 1: [0, 1, 1]})
        ok, what = math.isfinite(st.logpdf_score()), 'not a number'
    except Exception as e:
        ok, what = False, '%s: %s' % (type(e).__name__, e)
    ctx.true(ok, 'state:empty-column', 'a state with a column of missing '
             'cells only: ' + what)
