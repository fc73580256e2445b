"""C07: conditional densities from states and views are exact."""
import math

import numpy as np

import hist
import mix
import prims
from vlib import scenario

RULE = ('a case is one logpdf query (row kind, targets, constraints) on one '
        'state or view, compared with enumeration of the row\'s cluster in '
        'each view; non-trivial when it has constraints, several targets, or '
        'several clusters; distinct by the whole query')


def tolerance(specs, cols):
    return 1e-6 + 4e-3 * sum(specs[c]['cctype'] == 'vonmises' for c in cols)


def pick(rng, cols, p):
    return [c for c in cols if rng.rand() < p]


def typed(rng, x):
    forms = [x, np.float64(x)]
    if float(x) == int(x):
        forms += [int(x), np.int64(int(x))]
    return forms[rng.randint(len(forms))]


def state_queries(ctx, st, X, specs, n):
    rng = ctx.rng
    ref = mix.RefState(st, X)
    cols = sorted(X)
    rows = len(X[cols[0]])
    for _ in range(n):
        perm = [cols[i] for i in rng.permutation(len(cols))]
        rowid = None
        holes = {r: [c for c in cols if mix.isnan(X[c][r])]
                 for r in range(rows)}
        cand = [r for r in holes if holes[r]]
        if cand and rng.rand() < .35:
            rowid = int(cand[rng.randint(len(cand))])
            free = holes[rowid]
            nt = 1 + rng.randint(len(free))
            tcols = [free[i] for i in rng.permutation(len(free))[:nt]]
            ecols = [c for c in free if c not in tcols and rng.rand() < .5]
        else:
            nt = 1 + rng.randint(min(4, len(perm)))
            tcols, rest = perm[:nt], perm[nt:]
            ecols = pick(rng, rest, rng.choice([0, .5, 1.]))
        t = {c: typed(rng, mix.gen_new_value(rng, specs[c])) for c in tcols}
        e = {c: typed(rng, mix.gen_new_value(rng, specs[c])) for c in ecols}
        if rowid is not None and rng.rand() < .3:
            # repeating the row's own value is permitted
            own = [c for c in cols if not mix.isnan(X[c][rowid])]
            for c in pick(rng, own, .5):
                e[c] = X[c][rowid]
        call = rowid if rowid is not None else \
            [None, -1, rows, rows + 7][rng.randint(4)]
        want = ref.logpdf(t, e, rowid)
        given = dict(t), dict(e)
        got = st.logpdf(call, t, e if e or rng.rand() < .5 else None)
        desc = dict(rowid=call, targets=t, constraints=e, Zv=ref.Zv,
                    specs=specs)
        ctx.close(got, want, 'state-logpdf', 'state logpdf(%r, %r, %r)' % (
            call, t, e), 1e-6, tolerance(specs, list(t) + list(e)), **desc)
        ctx.true((t, e) == given, 'arguments-modified',
                 '%r became %r' % (given, (t, e)))
        views = {ref.Zv[c] for c in t}
        ctx.case(desc, bool(e) or len(t) > 1 or any(
            len(ref.views[v].counts) > 1 for v in views))
        ctx.count('observed-row queries' if rowid is not None
                  else 'hypothetical-row queries')
        # bulk form agrees
        if rng.rand() < .2:
            b = st.logpdf_bulk([call, call], [t, t], [e, e])
            ctx.true(len(b) == 2 and mix.near(b[0], got)
                     and mix.near(b[1], got), 'bulk',
                     'bulk %r, single %r' % (b, got), **desc)
        # the same query with its variables listed in other orders
        if len(t) + len(e) > 1 and rng.rand() < .4:
            t2 = dict(sorted(t.items(), key=lambda _: rng.rand()))
            e2 = dict(sorted(e.items(), key=lambda _: rng.rand()))
            g2 = st.logpdf(call, t2, e2)
            ctx.true(mix.near(g2, got), 'variable-order',
                     '%r in another order gives %r, %r' % (t, g2, got),
                     **desc)
        # chain rule: p(a, b | e) = p(a | e) p(b | a, e)
        if len(t) > 1 and rowid is None and math.isfinite(got):
            ks = list(t)
            cut = 1 + rng.randint(len(ks) - 1)
            a = {c: t[c] for c in ks[:cut]}
            b = {c: t[c] for c in ks[cut:]}
            la = st.logpdf(call, a, e)
            lb = st.logpdf(call, b, dict(a, **{}) | e)
            ctx.close(la + lb, got, 'chain-rule', 'p(a|e) p(b|a,e) for a=%r '
                      'b=%r e=%r' % (a, b, e), 1e-6,
                      tolerance(specs, list(t) + list(e)), **desc)


@scenario(quick=80, thorough=600, timeout=240)
def states(ctx):
    for _ in range(3):
        st, X, specs = mix.random_state(ctx.rng)
        state_queries(ctx, st, X, specs, 20)


@scenario(quick=12, thorough=100, timeout=240)
def large(ctx):
    st, X, specs = mix.large_state(ctx.rng)
    state_queries(ctx, st, X, specs, 6)
    v, X, specs = mix.large_view(ctx.rng)
    view_queries(ctx, v, X, specs, 8)


@scenario(quick=32, thorough=200, timeout=240)
def states_after_history(ctx):
    st, X, specs = mix.random_state(ctx.rng)
    h = hist.StateHistory(ctx, st, X, specs)
    for _ in range(4):
        for _ in range(4):
            h.step()
        state_queries(ctx, h.state, h.X, {
            c: dict(s, hypers=None) for c, s in h.specs.items()}, 10)


@scenario(quick=12, thorough=60, timeout=240)
def uncollapsed(ctx):
    """Columns with their own parameters per cluster."""
    types = ['beta', 'normal_trunc', 'bernoulli', 'normal']
    st, X, specs = mix.random_state(ctx.rng, types=types, n_rows=4, n_cols=3)
    ref = mix.RefState(st, X)
    for v, view in st.views.items():
        for c, d in view.dims.items():
            if not d.is_collapsed():
                for k in d.clusters:
                    p = prims.gen_params(d.cctype, specs[c]['distargs'],
                                         ctx.rng)
                    for name, x in p.items():
                        setattr(d.clusters[k], name, x)
    state_queries(ctx, st, X, specs, 25)


def view_queries(ctx, view, X, specs, n, out=()):
    """`out`: rows of X which are not recorded"""
    rng = ctx.rng
    ref = mix.ref_view(view, X)
    cols = sorted(X)
    rows = len(X[cols[0]])
    recorded = [r for r in range(rows) if r not in out]
    new = [None, -1, rows, rows + 3] + sorted(out)
    tok = view.outputs[0]
    for _ in range(n):
        perm = [cols[i] for i in rng.permutation(len(cols))]
        nt = 1 + rng.randint(len(perm))
        tcols, rest = perm[:nt], perm[nt:]
        t = {c: mix.gen_new_value(rng, specs[c]) for c in tcols}
        e = {c: mix.gen_new_value(rng, specs[c])
             for c in pick(rng, rest, rng.choice([0, .5, 1.]))}
        kind = rng.randint(5)
        call, rowid = new[rng.randint(len(new))], None
        ks = ref.tables()
        k = int(ks[rng.randint(len(ks))])
        if kind == 1:
            t[tok] = k
        elif kind == 2:
            e[tok] = k
        elif kind == 3:
            t = {tok: k}
        elif kind == 4:
            call = rowid = recorded[rng.randint(len(recorded))]
            e = {c: x for c, x in e.items() if mix.isnan(X[c][rowid])}
        want = ref.logpdf(t, e, rowid)
        got = view.logpdf(call, dict(t), dict(e) or None)
        desc = dict(rowid=call, targets=t, constraints=e, specs=specs,
                    Zr=ref.Zr)
        ctx.close(got, want, 'view-logpdf:%s' % ['plain', 'cluster target',
                  'cluster constraint', 'cluster alone', 'observed row'][
                      kind], 'view logpdf(%r, %r, %r)' % (call, t, e),
                  1e-6, tolerance(specs, [c for c in list(t) + list(e)
                                          if c != tok]), **desc)
        ctx.case(desc, bool(e) or len(ref.counts) > 1)
        # Bayes: p(z=k | e) p(t | z=k, e) over k sums to p(t | e)
        if kind == 0 and math.isfinite(got):
            parts = [view.logpdf(call, dict(t, **{}) | {tok: k2}, dict(e))
                     for k2 in ks]
            ctx.close(mix.lse(parts), got, 'total-probability',
                      'sum over clusters of logpdf(%r, z | %r)' % (t, e),
                      1e-6, tolerance(specs, list(t) + list(e)), **desc)
    # the cluster distribution is normalised for any constraints
    e = {c: mix.gen_new_value(rng, specs[c]) for c in pick(rng, cols, .5)}
    tot = mix.lse(view.logpdf(-1, {tok: k}, dict(e)) for k in ref.tables())
    ctx.close(tot, 0., 'cluster-normalised', 'cluster posterior given %r' % e,
              1e-6, 1e-6 + tolerance(specs, e))


@scenario(quick=64, thorough=480, timeout=240)
def views(ctx):
    for _ in range(3):
        v, X, specs = mix.random_view(ctx.rng)
        view_queries(ctx, v, X, specs, 15)


@scenario(quick=48, thorough=300, timeout=240)
def views_after_history(ctx):
    """Rows removed, rows recorded again, columns exchanged."""
    v, X, specs = mix.random_view(ctx.rng, n_rows=int(ctx.rng.randint(4, 10)))
    h = hist.ViewHistory(ctx, v, X, specs)
    for _ in range(4):
        for _ in range(4):
            h.step()
        view_queries(ctx, h.view, h.X, {
            c: dict(s, hypers=None) for c, s in h.specs.items()}, 8, h.out)
        ctx.count('views with rows missing from the middle', int(any(
            r < max(h.rows()) for r in h.out)))


@scenario(quick=32, thorough=160, timeout=240)
def discrete_sums(ctx):
    """Total probability over jointly discrete targets is one."""
    import itertools
    rng = ctx.rng
    st, X, specs = mix.random_state(
        rng, types=['bernoulli', 'categorical', 'normal'], n_cols=4)
    cols = [c for c in sorted(X)
            if specs[c]['cctype'] in mix.DISCRETE_FINITE]
    for _ in range(4):
        t = [c for c in cols if rng.rand() < .6][:3]
        if not t:
            continue
        e = {c: mix.gen_new_value(rng, specs[c]) for c in X
             if c not in t and rng.rand() < .5}
        dom = [range(specs[c]['distargs']['k'] if specs[c]['distargs']
                     else 2) for c in t]
        tot = mix.lse(st.logpdf(None, dict(zip(t, xs)), e)
                      for xs in itertools.product(*dom))
        ctx.close(tot, 0., 'normalised', 'sum over %s given %r' % (t, e),
                  1e-7, 1e-7, specs=specs)
        ctx.case(dict(targets=t, constraints=e, specs=specs))


@scenario(quick=24, thorough=120, timeout=120)
def degenerate(ctx):
    """Impossible targets have zero density; impossible constraints are
    reported by a state."""
    rng = ctx.rng
    st, X, specs = mix.random_state(rng, n_cols=4)
    for c in sorted(X):
        bad = prims.outside(specs[c]['cctype'], specs[c]['distargs'])
        if not bad:
            continue
        x = bad[rng.randint(len(bad))]
        lp = st.logpdf(None, {c: x})
        ctx.true(lp == -math.inf, 'impossible-target',
                 'logpdf of %r under %s is %r' % (
                     x, specs[c]['cctype'], lp), spec=specs[c])
        mates = [o for o in X if o != c and st.Zv(o) == st.Zv(c)]
        if mates:
            o = mates[0]
            t = {o: mix.gen_new_value(rng, specs[o])}
            ctx.raises(ValueError, lambda: st.logpdf(None, t, {c: x}),
                       'impossible-constraint',
                       'logpdf(%r | %s=%r)' % (t, specs[c]['cctype'], x))
            lp = st.logpdf(None, dict(t) | {c: x})
            ctx.true(lp == -math.inf, 'impossible-joint',
                     'joint with impossible value %r' % lp)
        ctx.case(dict(c=c, x=x, spec=specs[c]))


@scenario(quick=16, thorough=90, timeout=240)
def regression_columns(ctx):
    """Several regression columns, in one view and across views: they share
    the cluster of the row and read the ordinary columns of their view."""
    rng = ctx.rng
    n = int(rng.randint(6, 12))
    X, specs = mix.gen_table(rng, n, 4, ['normal', 'bernoulli', 'poisson'],
                             0., [1, 2, 3, 4])
    for c in (0, 5, 6):
        X[c] = mix.gen_column(rng, dict(cctype='normal', distargs=None), n)
        specs[c] = dict(cctype='normal', distargs=None, hypers=None)
    z = [mix.gen_partition(rng, range(n), 1.) for _ in range(2)]
    Zv = {0: 0, 1: 0, 2: 0, 5: 0, 3: 1, 4: 1, 6: 1}
    st = mix.make_state(rng, X, specs, Zv=Zv, Zrv={
        v: [z[v][r] for r in range(n)] for v in (0, 1)})
    regs = [(0, 5, 6)[i] for i in rng.permutation(3)]
    regs = regs[:rng.randint(2, 4)]
    ins = {}
    for c in regs:
        ordinary = [o for o in sorted(X) if Zv[o] == Zv[c] and o != c
                    and o not in regs[:regs.index(c)]]
        ins[c] = ordinary
        da = None
        if rng.rand() < .4:
            ins[c] = [o for o in ordinary if o not in regs]
            ins[c] = [ins[c][i] for i in rng.permutation(len(ins[c]))]
            ins[c] = ins[c][:rng.randint(1, len(ins[c]) + 1)]
            da = {'inputs': list(ins[c])}
        elif any(o in regs for o in ordinary):
            # (an input of this one is about to be a regression itself)
            ins[c] = [o for o in ordinary if o not in regs]
            da = {'inputs': list(ins[c])}
        st.update_cctype(c, 'linear_regression', distargs=da)
        got = list(st.dim_for(c).inputs)[1:]
        ctx.true(sorted(got) == sorted(ins[c]), 'regression-inputs', 'column %s, of %r with '
                 'regressions %r, reads %r, expected %r' % (
                     c, Zv, regs, got, ins[c]))
    if ctx.violations:
        return
    plain = [c for c in sorted(X) if c not in regs]
    refs = {v: mix.ref_view(st.views[v], X, cols=[
        c for c in plain if Zv[c] == v]) for v in (0, 1)}

    def reg(c, k, x, env):
        d = st.dim_for(c)
        m = d.clusters.get(k, d.aux_model)
        return m.logpdf(None, {c: x}, None, {i: env[i] for i in ins[c]})

    def joint(env):
        """log density of cells among which are the inputs they need"""
        t = 0.
        for v, ref in refs.items():
            e = {c: x for c, x in env.items() if Zv[c] == v}
            if e:
                t += mix.lse(ref.crp(k) + ref.row(k, {
                    c: x for c, x in e.items() if c not in regs}) + sum(
                        reg(c, k, x, e) for c, x in e.items() if c in regs)
                    for k in ref.tables())
        return t
    for _ in range(8):
        env = {c: mix.gen_new_value(rng, specs[c]) for c in plain}
        for c in regs:
            env[c] = float(rng.normal(0, 3))
        # a random query whose constraints, and whose all, carry the inputs
        part = {c for c in plain if rng.rand() < .5}
        given = {c for c in part if rng.rand() < .6}
        for c in regs:
            if set(ins[c]) <= given and rng.rand() < .5:
                given.add(c)
            elif set(ins[c]) <= part and rng.rand() < .7:
                part.add(c)
        t = {c: env[c] for c in part - given}
        e = {c: env[c] for c in given}
        if not t:
            t = {c: env[c] for c in set(env) - given}
        want = joint(dict(t) | e) - joint(e)
        ctx.close(st.logpdf(None, dict(t), dict(e)), want,
                  'regressions-joint', 'p(%r | %r), regressions %r' % (
                      t, e, ins), 1e-6, 1e-6)
        vs = {Zv[c] for c in t} | {Zv[c] for c in e}
        if len(vs) == 1:
            ctx.close(st.views[min(vs)].logpdf(None, dict(t), dict(e)), want,
                      'regressions-view', 'p(%r | %r), regressions %r' % (
                          t, e, ins), 1e-6, 1e-6)
        ctx.case(dict(t=t, e=e, ins=ins, z=z))


@scenario(quick=20, thorough=100, timeout=240)
def regression_column(ctx):
    """A state with a regression column: clusters enumerated, the regression
    asked directly."""
    rng = ctx.rng
    n = int(rng.randint(6, 12))
    types = ['normal', 'bernoulli', 'poisson']
    X, specs = mix.gen_table(rng, n, 4, types, 0.)
    X[0] = mix.gen_column(rng, dict(cctype='normal', distargs=None), n)
    specs[0] = dict(cctype='normal', distargs=None, hypers=None)
    zr = mix.gen_partition(rng, range(n), 1.)
    z2 = mix.gen_partition(rng, range(n), 1.)
    st = mix.make_state(rng, X, specs, Zv={0: 0, 1: 0, 2: 0, 3: 1},
                        Zrv={0: [zr[r] for r in range(n)],
                             1: [z2[r] for r in range(n)]})
    st.update_cctype(0, 'linear_regression')
    ctx.true(st.is_composite(), 'composite-flag',
             'a state with a regression column is not composite')
    view = st.views[0]
    ref0 = mix.ref_view(view, X, cols=[1, 2])
    ref1 = mix.ref_view(st.views[1], X)
    dim = view.dims[0]

    def reg(k, x, ins):
        m = dim.clusters.get(k, dim.aux_model)
        return m.logpdf(None, {0: x}, None, dict(ins))
    for _ in range(8):
        ins = {1: mix.gen_new_value(rng, specs[1]),
               2: mix.gen_new_value(rng, specs[2])}
        x, y = float(rng.normal(0, 3)), mix.gen_new_value(rng, specs[3])
        joint = mix.lse(ref0.crp(k) + ref0.row(k, ins) + reg(k, x, ins)
                        for k in ref0.tables())
        marg = ref0.joint(ins)
        ctx.close(st.logpdf(None, {0: x}, dict(ins)), joint - marg,
                  'regression-conditional', 'p(y | inputs %r)' % ins,
                  1e-6, 1e-6)
        ctx.close(st.logpdf(None, {0: x, 1: ins[1]}, {2: ins[2], 3: y}),
                  joint - ref0.joint({2: ins[2]}), 'regression-mixed',
                  'p(y, x1 | x2, other view)', 1e-6, 1e-6)
        ctx.close(st.logpdf(None, {0: x, 3: y, 1: ins[1], 2: ins[2]}),
                  joint + ref1.joint({3: y}), 'regression-joint',
                  'p(all)', 1e-6, 1e-6)
        r = int(rng.randint(n))
        ctx.case(dict(ins=ins, x=x, zr=zr))
