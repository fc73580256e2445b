"""C09: row and column Gibbs moves draw from the exact full conditional."""
import copy
import math

import numpy as np

import hist
import mix
import prims
from vlib import Inconclusive, scenario, chi2_pvalue

RULE = ('a case is one reassignment of one row in one view, or of one column '
        'of a state, whose weights (as they reach the random generator) and '
        'outcome are compared with the joint density of every alternative '
        'recomputed from scratch; a second set of scenarios repeats the move '
        'hundreds of times from the same state and compares outcome '
        'frequencies; non-trivial when at least two alternatives have '
        'probability above 1e-6')

EPS = 1e-6


def normalise(lp):
    n = mix.lse(lp.values())
    return {k: math.exp(v - n) for k, v in lp.items()}


def row_conditional(view, X, r):
    """{cluster: probability} for row r, from scratch."""
    ref = mix.ref_view(view, X)
    k0 = ref.Zr[r]
    lp = {}
    single = ref.counts[k0] == 1
    for k in sorted(ref.counts):
        n = ref.counts[k] - (k == k0)
        w = math.log(n) if n else math.log(ref.alpha)
        lp[k] = w + ref.row(k, {c: X[c][r] for c in X}, without=r)
    if not single:
        k = ref.fresh()
        lp[k] = math.log(ref.alpha) + ref.row(k, {c: X[c][r] for c in X})
    return normalise(lp)


def tv(p, q):
    return .5 * sum(abs(p.get(k, 0) - q.get(k, 0)) for k in set(p) | set(q))


def find_draw(log, labels, expected=None):
    """The logged categorical draw over these labels: ({label: p}, drawn).
    Entries given by position are mapped in sorted order of the labels."""
    labels = list(labels)
    best = None
    for arr, p, size, res in reversed(log):
        if size is not None or len(arr) != len(labels):
            continue
        if sorted(arr) == sorted(labels):
            d = {a: float(x) for a, x in zip(arr, p)}, res
        elif arr == list(range(len(labels))):
            d = {labels[a]: float(x) for a, x in zip(arr, p)}, \
                labels[int(res)]
        else:
            continue
        if expected is None:
            return d
        if best is None or tv(d[0], expected) < tv(best[0], expected):
            best = d
    return best


def row_moves(ctx, view, X, srng, sweeps):
    rng = ctx.rng
    slack = EPS + 2e-3 * sum(d.cctype == 'vonmises'
                             for d in view.dims.values())
    for _ in range(sweeps):
        rows = sorted(view.Zr())
        r = rows[rng.randint(len(rows))]
        want = row_conditional(view, X, r)
        before = dict(view.Zr())
        srng.log, srng.on = [], True
        view.transition_rows(rows=[r])
        srng.on = False
        after = dict(view.Zr())
        desc = dict(row=r, Zr=before, want=want,
                    specs={c: mix.dim_spec(view.dims[c])
                           for c in view.dims}, X=X)
        ctx.true({k: v for k, v in after.items() if k != r} ==
                 {k: v for k, v in before.items() if k != r},
                 'row:others-moved', 'moving row %s: %r -> %r' % (
                     r, before, after), **desc)
        ctx.true(want.get(after[r], 0) > 1e-300, 'row:impossible-cluster',
                 'row %s in cluster %r, possible %r' % (r, after[r], want),
                 **desc)
        if len(want) > 1:
            got = find_draw(srng.log, sorted(want))
            if got is None:
                ctx.count('row draws not visible')
            else:
                p, res = got
                d = tv(p, want)
                ctx.count('row draws compared')
                ctx.true(d < slack, 'row:weights', 'row %s drawn with %r, '
                         'conditional %r' % (r, p, want), **desc)
                ctx.true(after[r] == res, 'row:installed',
                         'row %s drew %r, installed %r' % (
                             r, res, after[r]), **desc)
        ctx.case(dict(row=r, Zr=before, X=X),
                 sum(p > EPS for p in want.values()) > 1)


@scenario(quick=120, thorough=500, timeout=240)
def rows(ctx):
    for _ in range(2):
        srng = mix.RecordingRng(ctx.rng.randint(2**31 - 1))
        if ctx.rng.rand() < .5:
            srng.steer = ctx.newrng()
        v, X, specs = mix.random_view(ctx.rng, view_rng=srng)
        row_moves(ctx, v, X, srng, 15)


@scenario(quick=12, thorough=80, timeout=240)
def large(ctx):
    """Dozens of clusters, clusters of dozens of rows, a dozen views."""
    srng = mix.RecordingRng(ctx.rng.randint(2**31 - 1))
    if ctx.index % 2:
        v, X, specs = mix.large_view(ctx.rng, view_rng=srng)
        row_moves(ctx, v, X, srng, 5)
    else:
        st, X, specs = mix.large_state(
            ctx.rng, n_rows=int(ctx.rng.randint(20, 50)), state_rng=srng)
        column_moves(ctx, st, X, srng, 4)


@scenario(quick=24, thorough=80, timeout=240)
def rows_uncollapsed(ctx):
    srng = mix.RecordingRng(ctx.rng.randint(2**31 - 1))
    v, X, specs = mix.random_view(
        ctx.rng, types=['beta', 'normal_trunc', 'normal'], n_rows=6,
        view_rng=srng)
    row_moves(ctx, v, X, srng, 20)


@scenario(quick=36, thorough=120, timeout=240)
def rows_in_state(ctx):
    """Through State.transition, every view, and newly recorded rows."""
    srng = mix.RecordingRng(ctx.rng.randint(2**31 - 1))
    st, X, specs = mix.random_state(ctx.rng, state_rng=srng)
    X = {c: list(x) for c, x in X.items()}
    rng = ctx.rng
    for _ in range(4):
        vs = list(st.views)
        v = vs[rng.randint(len(vs))]
        view = st.views[v]
        Xv = {c: X[c] for c in view.dims}
        rows = sorted(view.Zr())
        if len(rows) > 1:
            r = int(rng.randint(len(rows)))
            want = row_conditional(view, Xv, r)
            srng.log, srng.on = [], True
            st.transition(N=1, kernels=['rows'], rowids=[r], views=[v],
                          progress=False)
            srng.on = False
            got = find_draw(srng.log, sorted(want)) if len(want) > 1 else None
            if got:
                ctx.true(tv(got[0], want) < 5e-3, 'row:weights',
                         'state row %s drawn with %r, conditional %r' % (
                             r, got[0], want))
                ctx.true(st.views[v].Zr(r) == got[1], 'row:installed',
                         'drew %r installed %r' % (got[1], view.Zr(r)))
                ctx.count('row draws compared')
            ctx.case(dict(row=r, v=v, want=want))
        # a newly recorded row is placed by its conditional
        n = st.n_rows()
        obs = {c: mix.gen_new_value(rng, specs[c]) for c in X
               if rng.rand() < .8}
        if not obs:
            continue
        srng.log, srng.on = [], True
        wants = {}
        refs = {v: mix.ref_view(st.views[v], X) for v in st.views}
        for v, ref in refs.items():
            row = {c: obs[c] for c in ref.specs if c in obs}
            wants[v] = normalise({k: ref.crp(k) + ref.row(k, row)
                                  for k in ref.tables()})
        st.incorporate(n, obs)
        srng.on = False
        for c in X:
            X[c].append(obs.get(c, mix.NAN))
        for v in st.views:
            z = st.views[v].Zr(n)
            want = wants[v]
            if z not in refs[v].counts:
                z = max(want)
            ctx.true(z in want, 'row:new-row-cluster',
                     'new row in cluster %r, possible %r' % (z, want))
            # the row sits provisionally in cluster 0 (or alone in a fresh
            # one called 0) before its first move, which may name the
            # unoccupied cluster differently
            best = None
            for arr, p, size, res in srng.log:
                if len(arr) == len(want) and size is None:
                    q = {}
                    fresh = max(want)
                    for a, x in zip(arr, p):
                        q[a if a in want and a in refs[v].counts
                          else fresh] = float(x)
                    if best is None or tv(q, want) < tv(best, want):
                        best = q
            if best is not None:
                ctx.count('new rows compared')
                ctx.true(tv(best, want) < 5e-3, 'row:new-row-weights',
                         'new row %r drawn with %r, conditional %r' % (
                             obs, best, want))
            ctx.case(dict(new=obs, want=want, v=v))


@scenario(quick=24, thorough=80, timeout=300)
def row_frequencies(ctx):
    """The same move repeated from the same state, without looking inside."""
    rng = ctx.rng
    v, X, specs = mix.random_view(
        rng, n_rows=int(rng.randint(2, 6)), n_cols=2,
        types=['normal', 'bernoulli', 'categorical', 'poisson'])
    r = int(rng.randint(len(v.Zr())))
    want = row_conditional(v, X, r)
    fresh_name = max(want)

    def test(n):
        seen = {}
        for _ in range(n):
            w = copy.deepcopy(v)
            w.rng.seed(rng.randint(2**31 - 1))
            w.transition_rows(rows=[r])
            z = w.Zr(r)
            seen[z] = seen.get(z, 0) + 1
        return chi2_pvalue(seen, want)
    # every component shares the view's generator in the copy too
    ctx.stat('row:frequencies', 'row %s from %r' % (r, dict(v.Zr())), test,
             150, want=want, X=X, specs=specs)
    ctx.case(dict(r=r, want=want), len(want) > 1)


# ------------------------------------------------------------------ columns ---

def column_score(st, X, c, Zr, params=None):
    spec = mix.dim_spec(st.dim_for(c))
    ref = mix.RefMix(Zr, X, {c: spec}, 1.)
    return ref.dim_score(c)


def columns_setup(ctx, st, X, c, m):
    """labels in table order, and log weights of the existing views."""
    Zv, Nv = dict(st.Zv()), dict(st.Nv())
    single = Nv[Zv[c]] == 1
    lw = {}
    for v in sorted(Nv):
        n = Nv[v] - (v == Zv[c])
        lw[v] = math.log(n) if n else math.log(st.alpha() / m)
        lw[v] += column_score(st, X, c, dict(st.views[v].Zr()))
        for pair in st.Ci:
            if c in pair:
                for a in pair:
                    if a != c and Zv[a] == v:
                        lw[v] = -mix.INF
    n_aux = m - 1 if single else m
    aux = [max(Nv) + 1 + i for i in range(n_aux)]
    return lw, aux


def parse_fresh_partitions(log, n_rows, n_aux):
    """The row partitions drawn for fresh views: n_rows - 1 sequential draws
    each, immediately before the draw of the view."""
    need = (n_rows - 1) * n_aux
    entries = [e for e in log if e[2] is None][-need:] if need else []
    if len(entries) < need:
        return None
    out = []
    i = 0
    for _ in range(n_aux):
        counts, z, alphas = {0: 1}, {0: 0}, []
        for r in range(1, n_rows):
            arr, p, _, res = entries[i]
            i += 1
            K = sorted(counts) + [max(counts) + 1]
            if list(arr) != K:
                return None
            alphas.append(p[-1] * r / (1 - p[-1]))
            old = [counts[k] / float(r) * (1 - p[-1]) for k in K[:-1]]
            if not np.allclose(old, p[:-1], atol=1e-9):
                alphas.append(-1.)
            counts[int(res)] = counts.get(int(res), 0) + 1
            z[r] = int(res)
        out.append((z, alphas))
    return out


def column_moves(ctx, st, X, srng, moves, ms=(1, 1, 2, 3)):
    rng = ctx.rng
    slack = EPS + 4e-3 * sum(d.cctype == 'vonmises' for d in st.dims())
    n_rows = st.n_rows()
    for _ in range(moves):
        cols = sorted(X)
        c = cols[rng.randint(len(cols))]
        m = int(rng.choice(ms))
        Zv = dict(st.Zv())
        single = st.Nv(Zv[c]) == 1
        lw, aux = columns_setup(ctx, st, X, c, m)
        others = {k: (v, dict(st.views[v].Zr())) for k, v in Zv.items()}
        srng.log, srng.on = [], True
        st.transition_dims(cols=[c], m=m)
        srng.on = False
        after = dict(st.Zv())
        desc = dict(col=c, m=m, Zv=Zv, Ci=st.Ci, X=X, after=after,
                    specs={k: mix.dim_spec(st.dim_for(k)) for k in X})
        ctx.true(all(after[k] == Zv[k] for k in Zv if k != c),
                 'column:others-moved', 'moving column %s: %r -> %r' % (
                     c, Zv, after), **desc)
        ctx.true(all(dict(st.views[v].Zr()) == zr
                     for k, (v, zr) in others.items() if k != c),
                 'column:row-partition-changed', 'moving column %s changed a '
                 'row partition' % c, **desc)
        allowed = {v for v in lw if lw[v] > -mix.INF} | set(aux)
        ctx.true(after[c] in allowed, 'column:view-not-permitted',
                 'column %s in view %r, permitted %r' % (
                     c, after[c], sorted(allowed)), **desc)
        labels = sorted(lw) + aux
        if len(labels) > 1 and srng.log:
            arr, p, size, res = srng.log[-1]
            fresh = parse_fresh_partitions(srng.log[:-1], n_rows, len(aux))
            if list(arr) == list(range(len(labels))):
                got = {labels[i]: float(x) for i, x in enumerate(p)}
                drawn = labels[int(res)]
            elif sorted(arr) == sorted(labels):
                got = {a: float(x) for a, x in zip(arr, p)}
                drawn = res
            else:
                got = None
            if got is None or fresh is None:
                ctx.count('column draws not visible')
            else:
                lw2 = dict(lw)
                for v, (z, alphas) in zip(aux, fresh):
                    lw2[v] = math.log(st.alpha() / m) + column_score(
                        st, X, c, z)
                    if alphas:
                        ctx.true(min(alphas) > 0 and max(alphas) - min(
                            alphas) < 1e-6 * max(alphas),
                            'column:fresh-partition', 'fresh row partition '
                            'drawn with inconsistent concentrations %r' % (
                                alphas,), **desc)
                want = normalise(lw2)
                ctx.count('column draws compared')
                ctx.true(tv(got, want) < slack, 'column:weights',
                         'column %s drawn with %r, conditional %r' % (
                             c, got, want), **desc)
                ctx.true(after[c] == drawn, 'column:installed',
                         'column %s drew view %r, installed %r' % (
                             c, drawn, after[c]), **desc)
                if drawn in aux and after[c] == drawn:
                    z = fresh[aux.index(drawn)][0]
                    ctx.true(dict(st.views[drawn].Zr()) == z,
                             'column:fresh-installed', 'fresh view has rows '
                             '%r, drawn %r' % (
                                 dict(st.views[drawn].Zr()), z), **desc)
                    ctx.count('fresh views installed')
        ctx.case(dict(col=c, m=m, Zv=Zv, after=after, X=X),
                 len(labels) > 1)
        mix.check_state(ctx, st, X, 'after moving column %s' % c,
                        'column:partition')
        if ctx.violations:
            return


@scenario(quick=96, thorough=400, timeout=240)
def columns(ctx):
    srng = mix.RecordingRng(ctx.rng.randint(2**31 - 1))
    if ctx.rng.rand() < .5:
        srng.steer = ctx.newrng()
    st, X, specs = mix.random_state(
        ctx.rng, state_rng=srng, n_rows=int(ctx.rng.randint(1, 8)))
    column_moves(ctx, st, X, srng, 12)


@scenario(quick=32, thorough=140, timeout=240)
def columns_uncollapsed(ctx):
    """Models with instantiated parameters, offered several fresh views: the
    parameters installed with the drawn view are those it was weighed by."""
    rng = ctx.rng
    srng = mix.RecordingRng(rng.randint(2**31 - 1))
    srng.steer = ctx.newrng()
    st, X, specs = mix.random_state(
        rng, types=['beta', 'normal_trunc'], state_rng=srng,
        n_rows=int(rng.randint(2, 6)), n_cols=int(rng.randint(1, 4)))
    cols = sorted(X)

    def own(c):
        view = st.view_for(c)
        ref = mix.ref_view(view, X)
        return ref.dim_score(c), {k: v for k, v in ref.params.items()
                                  if k[0] == c and k[1] in view.Nk()}
    for _ in range(10):
        c = cols[rng.randint(len(cols))]
        m = int(rng.choice([1, 2, 3, 4, 5]))
        Zv, Nv = dict(st.Zv()), dict(st.Nv())
        score0, params0 = own(c)
        single = Nv[Zv[c]] == 1
        n_aux = m - 1 if single else m
        labels = sorted(Nv) + [max(Nv) + 1 + i for i in range(n_aux)]
        size = {v: math.log(Nv[v] - (v == Zv[c]))
                if Nv[v] - (v == Zv[c]) else math.log(st.alpha() / m)
                for v in Nv}
        srng.log, srng.on = [], True
        st.transition_dims(cols=[c], m=m)
        srng.on = False
        after = dict(st.Zv())
        score1, params1 = own(c)
        desc = dict(col=c, m=m, Zv=Zv, after=after, X=X, before=params0,
                    params=params1, specs=specs)
        ctx.true(all(after[k] == Zv[k] for k in Zv if k != c)
                 and after[c] in labels, 'column:others-moved',
                 'moving column %s: %r -> %r' % (c, Zv, after), **desc)
        ctx.case(dict(col=c, m=m, Zv=Zv, after=after, X=X), len(labels) > 1)
        if after[c] == Zv[c]:
            ctx.true(params0 == params1, 'column:parameters-changed',
                     'column %s stayed, its parameters %r became %r' % (
                         c, params0, params1), **desc)
        elif srng.log and list(srng.log[-1][0]) == list(range(len(labels))):
            p = dict(zip(labels, srng.log[-1][1]))
            if p[after[c]] > 1e-250 and p[Zv[c]] > 1e-250:
                got = math.log(p[after[c]]) - math.log(p[Zv[c]])
                want = size.get(after[c], math.log(st.alpha() / m)) + score1 \
                    - size[Zv[c]] - score0
                ctx.close(got, want, 'column:weights-uncollapsed',
                          'column %s moved to view %r weighed %.6g more than '
                          'its own, with the parameters installed %.6g' % (
                              c, after[c], got, want), 1e-6, 1e-5, **desc)
                ctx.count('uncollapsed draws compared')
        mix.check_state(ctx, st, X, 'after moving column %s' % c,
                        'column:partition')
        if ctx.violations:
            return


@scenario(quick=48, thorough=200, timeout=240)
def columns_independent(ctx):
    """Independence constraints restrict the permitted views."""
    rng = ctx.rng
    srng = mix.RecordingRng(rng.randint(2**31 - 1))
    if rng.rand() < .5:
        srng.steer = ctx.newrng()
    n = int(rng.randint(2, 7))
    X, specs = mix.gen_table(rng, int(rng.randint(1, 7)), n, None, .15)
    Ci = []
    for i in range(n):
        for j in range(i):
            if rng.rand() < .3:
                Ci.append((i, j) if rng.rand() < .5 else (j, i))
    st = mix.make_state(rng, X, specs, Ci=Ci, state_rng=srng)
    column_moves(ctx, st, X, srng, 12)


@scenario(quick=24, thorough=80, timeout=300)
def columns_after_history(ctx):
    """Views created and deleted in every order first."""
    srng = mix.RecordingRng(ctx.rng.randint(2**31 - 1))
    srng.steer = ctx.newrng()
    st, X, specs = mix.random_state(ctx.rng, state_rng=srng, n_rows=5)
    h = hist.StateHistory(ctx, st, X, specs, ops=[
        ('columns_some', 4), ('incorporate_dim', 2), ('unincorporate_dim', 1),
        ('rows_some', 1), ('incorporate', 1)])
    for _ in range(3):
        for _ in range(4):
            h.step()
        column_moves(ctx, h.state, h.X, srng, 4)
        h.X = {c: list(h.X[c]) for c in h.X}


def partitions(n):
    if n == 0:
        yield []
        return
    for p in partitions(n - 1):
        for k in range(max(p) + 2 if p else 1):
            yield p + [k]


@scenario(quick=24, thorough=80, timeout=300)
def column_frequencies(ctx):
    """Outcome frequencies of one column move against the exact marginal over
    the fresh view's partition, without looking inside."""
    rng = ctx.rng
    n = int(rng.randint(2, 5))
    st, X, specs = mix.random_state(
        rng, n_rows=n, n_cols=int(rng.randint(2, 4)), missing=0.,
        types=['normal', 'bernoulli', 'categorical', 'poisson'])
    c = sorted(X)[rng.randint(len(X))]
    lw, aux = columns_setup(ctx, st, X, c, 1)
    grid = np.exp(np.linspace(math.log(1. / n), math.log(n), 30))
    want = {}
    if aux:
        for z in partitions(n):
            counts = [z.count(k) for k in sorted(set(z))]
            prior = np.mean([math.exp(mix.crp_logp(counts, a))
                             for a in grid])
            w = dict(lw)
            w[aux[0]] = math.log(st.alpha()) + column_score(
                st, X, c, dict(enumerate(z)))
            for k, p in normalise(w).items():
                want[k] = want.get(k, 0) + prior * p
    else:
        want = normalise(lw)
    if len(want) < 2:
        raise Inconclusive('single alternative')

    def test(m):
        seen = {}
        for _ in range(m):
            s = copy.deepcopy(st)
            s.rng.seed(rng.randint(2**31 - 1))
            s.transition_dims(cols=[c])
            seen[s.Zv(c)] = seen.get(s.Zv(c), 0) + 1
        return chi2_pvalue(seen, want)
    ctx.stat('column:frequencies', 'column %s from %r' % (c, st.Zv()), test,
             120, want=want, X=X, specs=specs)
    ctx.case(dict(c=c, want=want))


@scenario(quick=8, thorough=30, timeout=240)
def fresh_views(ctx):
    """A view made for a column is a draw from the prior of views, when the
    column says nothing on rows (it has a single observed cell)."""
    rng = ctx.rng
    n = int(rng.randint(3, 12))
    X, specs = mix.gen_table(
        rng, n, int(rng.randint(2, 4)),
        ['normal', 'bernoulli', 'categorical', 'poisson'], 0., None)
    c = sorted(X)[rng.randint(len(X))]
    keep = int(rng.randint(n))
    for r in range(n):
        if r != keep:
            X[c][r] = mix.NAN
    st = mix.make_state(rng, X, specs, alpha=4.)
    # (E over the grid of) the distribution of the number of clusters
    grid = np.exp(np.linspace(math.log(1. / n), math.log(n), 30))
    want = np.zeros(n + 1)
    for a in grid:
        d = np.zeros(n + 1)
        d[0] = 1.
        for i in range(n):
            d = d * (i / (a + i)) + np.append(0., d[:-1]) * (a / (a + i))
        want += d / len(grid)
    want = {k: want[k] for k in range(1, n + 1)}

    def test(m):
        ranks, sizes, tries = {}, {}, 0
        while sum(sizes.values()) < m and tries < 20 * m:
            tries += 1
            before = set(st.views)
            st.transition_dims(cols=[c], m=int(rng.randint(1, 4)))
            v = st.Zv(c)
            if v in before:
                continue
            view = st.views[v]
            z = view.Zr()
            ctx.true(sorted(z) == list(range(n)), 'column:fresh-rows',
                     'the fresh view has rows %r of %d' % (sorted(z), n))
            k = len(set(z.values()))
            sizes[k] = sizes.get(k, 0) + 1
            i = int(np.argmin(np.abs(np.log(grid) - math.log(view.alpha()))))
            ctx.true(abs(math.log(grid[i] / view.alpha())) < 1e-6,
                     'column:fresh-alpha', 'concentration %r of a fresh view '
                     'is not on the grid of %d rows' % (view.alpha(), n))
            ranks[i // 5] = ranks.get(i // 5, 0) + 1
        if sum(sizes.values()) < m:
            raise Inconclusive('few fresh views')
        ctx.count('fresh views judged', m)
        return min(1., 2 * min(
            chi2_pvalue(ranks, dict.fromkeys(range(6), 1 / 6.)),
            chi2_pvalue(sizes, want)))
    ctx.stat('column:fresh-prior', 'concentration and clusters of %d rows in '
             'views made for column %s' % (n, c), test, 150)
    ctx.case(dict(n=n, X=X, c=c))
