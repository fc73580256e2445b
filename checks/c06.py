"""C06: the joint score equals the density recomputed from scratch."""
import math

import numpy as np

import c05
import mix
from vlib import scenario

RULE = ('a case is one state or view right after one operation of a random '
        'history, whose logpdf_score (and its parts) is compared with the '
        'density recomputed from partitions, hyperparameters and the '
        'caller\'s data alone; non-trivial when there are two or more columns '
        'or clusters; distinct by operation and partition')


def tol(n, base=1e-6):
    return base * (1 + n)


def state_score(ctx, st, X, where, **w):
    ref = mix.RefState(st, X)
    n = sum(len(xs) for xs in X.values())
    t = tol(n) + mix.score_tol(st)
    ctx.close(st.logpdf_score(), ref.score(), 'state-score',
              '%s: state score' % where, 1e-7, t, Zv=ref.Zv, X=X, **w)
    ctx.close(st.logpdf_score_crp(), ref.crp_score(), 'state-crp-score',
              '%s: column partition score' % where, 1e-9, 1e-8, Zv=ref.Zv,
              **w)
    like = 0
    for v, view in st.views.items():
        r = ref.views[v]
        ctx.close(view.logpdf_score(), r.score(), 'view-score',
                  '%s: view %s score' % (where, v), 1e-7, t, **w)
        ctx.close(view.logpdf_prior(), r.crp_score(), 'view-prior',
                  '%s: view %s prior' % (where, v), 1e-9, 1e-8, **w)
        for c, d in view.dims.items():
            s = r.dim_score(c)
            like += s
            ctx.close(d.logpdf_score(), s, 'dim-score',
                      '%s: column %s score' % (where, c), 1e-7, t, **w)
    ctx.close(st.logpdf_likelihood(), like, 'state-likelihood',
              '%s: likelihood' % where, 1e-7, t, **w)


def view_score(ctx, h, where):
    r = mix.ref_view(h.view, h.X)
    n = sum(len(xs) for xs in h.X.values())
    t = tol(n) + mix.score_tol(h.view)
    ctx.close(h.view.logpdf_score(), r.score(), 'view-score',
              '%s: score' % where, 1e-7, t, log=h.log[-30:], X=h.X)
    ctx.close(h.view.logpdf_prior(), r.crp_score(), 'view-prior',
              '%s: prior' % where, 1e-9, 1e-8, log=h.log[-30:])
    ctx.close(h.view.logpdf_likelihood(), math.fsum(
        r.dim_score(c) for c in r.specs), 'view-likelihood',
        '%s: likelihood' % where, 1e-7, t, log=h.log[-30:])


@scenario(quick=96, thorough=480, timeout=240)
def state_histories(ctx):
    c05.run_state(ctx, 30, monitor=state_score)


@scenario(quick=48, thorough=240, timeout=240)
def view_histories(ctx):
    c05.run_view(ctx, 40, monitor=view_score)


@scenario(quick=16, thorough=80, timeout=240)
def uncollapsed_columns(ctx):
    c05.run_state(ctx, 10, types=['normal', 'normal_trunc', 'bernoulli',
                                  'beta'],
                  monitor=state_score, n_rows=4, n_cols=3)


@scenario(quick=32, thorough=160, timeout=120)
def static(ctx):
    """Random states exactly as constructed, dependence constraints too."""
    rng = ctx.rng
    for _ in range(4):
        st, X, specs = mix.random_state(rng)
        state_score(ctx, st, X, 'as built')
        ctx.case(dict(Zv=dict(st.Zv()), X=X), len(X) > 1)
    n = int(rng.randint(2, 8))
    X, specs = mix.gen_table(rng, int(rng.randint(1, 8)), n, None, .2)
    cols = [int(c) for c in rng.permutation(n)]
    Cd = []
    while len(cols) >= 2 and len(Cd) < 3:
        k = min(len(cols), int(rng.randint(2, 4)))
        Cd.append(cols[:k])
        cols = cols[k:]
    st = mix.make_state(rng, X, specs, Cd=Cd)
    for _ in range(3):
        state_score(ctx, st, X, 'dependence constraints %s' % Cd)
        ctx.case(dict(Zv=dict(st.Zv()), Cd=Cd, X=X))
        st.transition(N=1, kernels=['alpha', 'view_alphas', 'column_hypers',
                                    'rows'], progress=False)


@scenario(quick=12, thorough=48, timeout=120)
def larger(ctx):
    rng = ctx.rng
    st, X, specs = mix.random_state(rng, n_rows=60, n_cols=8) \
        if ctx.index % 2 else mix.large_state(rng)
    state_score(ctx, st, X, 'large state')
    st.transition(N=1, progress=False, kernels=None if ctx.index % 2 else [
        'alpha', 'view_alphas', 'columns', 'column_hypers'])
    state_score(ctx, st, X, 'large state after a sweep')
    ctx.case(dict(Zv=dict(st.Zv()), X=X))
