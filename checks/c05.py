"""C05: row and column partitions stay consistent through every history."""
import numpy as np

import hist
import mix
from vlib import scenario

RULE = ('a case is one state or view right after one operation of a random '
        'history (row, column, cell and type changes, each inference kernel, '
        'queries, reloads), compared with partitions, members, statistics and '
        'data recomputed from the caller\'s own copy; non-trivial when it has '
        'two or more columns or clusters; distinct by the operation log')


def run_state(ctx, steps, types=None, missing=None, monitor=None, steer=None,
              large=False, **kw):
    srng = mix.RecordingRng(ctx.rng.randint(2**31 - 1))
    if steer if steer is not None else ctx.rng.rand() < .4:
        srng.steer = ctx.newrng()       # rare moves become common
    make = mix.large_state if large else mix.random_state
    st, X, specs = make(ctx.rng, types=types, missing=missing or (
        .1 if large else None), state_rng=srng, **kw)
    h = hist.StateHistory(ctx, st, X, specs, new_types=types)
    monitor = monitor or mix.check_state
    monitor(ctx, h.state, h.X, 'initially', log=h.log)
    for _ in range(steps):
        if h.step() is None:
            break
        monitor(ctx, h.state, h.X, 'after ' + h.log[-1][:150],
                log=h.log[-30:])
        ctx.case(h.log[-1] + repr(sorted(h.state.Zv().items())),
                 len(h.X) > 1)
        if ctx.violations:
            break
    return h


def run_view(ctx, steps, types=None, missing=None, monitor=None):
    srng = mix.RecordingRng(ctx.rng.randint(2**31 - 1))
    if ctx.rng.rand() < .4:
        srng.steer = ctx.newrng()
    v, X, specs = mix.random_view(ctx.rng, types=types, missing=missing,
                                  view_rng=srng)
    h = hist.ViewHistory(ctx, v, X, specs, new_types=types)
    monitor = monitor or check_view
    for _ in range(steps):
        if h.step() is None:
            break
        monitor(ctx, h, 'after ' + h.log[-1][:150])
        ctx.case(h.log[-1] + repr(sorted(v.Zr().items())), len(v.Nk()) > 1)
        if ctx.violations:
            break
    return h


def check_view(ctx, h, where):
    rows = h.rows()
    ctx.true(rows == [r for r in range(h.n_all()) if r not in h.out],
             'partition:rows', '%s: recorded %r, removed %r' % (
                 where, rows, sorted(h.out)), log=h.log[-30:])
    ctx.true(sorted(h.view.dims) == sorted(h.X), 'partition:columns',
             '%s: %r vs %r' % (where, sorted(h.view.dims), sorted(h.X)),
             log=h.log[-30:])
    mix.check_view(ctx, h.view, h.X, where, log=h.log[-30:])


@scenario(quick=96, thorough=480, timeout=240)
def state_histories(ctx):
    run_state(ctx, 30)


@scenario(quick=48, thorough=240, timeout=240)
def view_histories(ctx):
    run_view(ctx, 40)


@scenario(quick=16, thorough=80, timeout=240)
def uncollapsed_columns(ctx):
    run_state(ctx, 10, types=['normal', 'normal_trunc', 'bernoulli', 'beta'],
              n_rows=4, n_cols=3)


@scenario(quick=16, thorough=80, timeout=240)
def many_columns_one_row(ctx):
    run_state(ctx, 15, n_rows=int(ctx.rng.randint(1, 3)), n_cols=6)


@scenario(quick=8, thorough=60, timeout=300)
def large_states(ctx):
    run_state(ctx, 6, large=True)


@scenario(quick=24, thorough=120, timeout=240)
def fresh_states(ctx):
    """Partitions drawn by the constructor itself."""
    rng = ctx.rng
    for _ in range(4):
        n, m = int(rng.randint(1, 9)), int(rng.randint(1, 7))
        X, specs = mix.gen_table(rng, n, m, None, float(rng.choice([0, .3])))
        st = mix.make_state(rng, X, specs, hypers=bool(rng.rand() < .5))
        mix.check_state(ctx, st, X, 'fresh state')
        ctx.case(dict(Zv=dict(st.Zv()), X=X), m > 1)
        v = mix.make_view(rng, {c: list(X[c]) for c in X}, specs)
        mix.check_view(ctx, v, X, 'fresh view')
        ctx.case(dict(Zr=dict(v.Zr()), X=X), len(v.Nk()) > 1)


@scenario(quick=12, thorough=60, timeout=240)
def regression_columns(ctx):
    """A column of a view that takes other columns as inputs."""
    rng = ctx.rng
    n = int(rng.randint(6, 12))
    types = ['normal', 'categorical', 'bernoulli', 'poisson']
    X, specs = mix.gen_table(rng, n, 4, types, float(rng.choice([0, .15])))
    X[0], specs[0] = mix.gen_column(rng, dict(
        cctype='normal', distargs=None), n), dict(
            cctype='normal', distargs=None, hypers=None)
    Zv = {0: 0, 1: 0, 2: 0, 3: 1}
    st = mix.make_state(rng, X, specs, Zv=Zv)
    st.update_cctype(0, 'linear_regression')
    log = []
    X = {c: list(xs) for c, xs in X.items()}
    mix.check_state(ctx, st, X, 'regression column')
    for _ in range(8):
        op = rng.randint(4)
        if op == 0:
            st.transition(N=1, kernels=['alpha', 'view_alphas',
                                        'column_hypers', 'rows'],
                          progress=False)
        elif op == 1:
            obs = {c: mix.gen_new_value(rng, specs[c]) for c in X
                   if rng.rand() < .8} or {3: mix.gen_new_value(
                       rng, specs[3])}
            st.incorporate(st.n_rows(), obs)
            for c in X:
                X[c].append(obs.get(c, mix.NAN))
        elif op == 2 and st.n_rows() > 3:
            st.unincorporate(st.n_rows() - 1)
            for c in X:
                X[c].pop()
        else:
            st.transition_dim_hypers(cols=[0])
        log.append(int(op))
        mix.check_state(ctx, st, X, 'regression column after %s' % log)
        ctx.case(dict(log=log, X=X), True)
