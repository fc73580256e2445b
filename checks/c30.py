"""C30: the debug self-checks agree with the model, and change nothing."""
import copy
import os

import numpy as np

import hist
import mix
import queries as Q
from vlib import Ctx, Inconclusive, scenario

RULE = ('a case is one history run from one seed with the self-checks '
        '(GPMCCDEBUG) off and on, its traces compared step by step; '
        'non-trivial when a self-check evaluated its assertions')

TECHNIQUE = ('paired runs with the built-in assertions off and on; event '
             'counters on the self-check functions show that they ran')


class Debug(object):
    """GPMCCDEBUG set to a value (None: unset) while inside."""

    def __init__(self, value):
        self.value = value

    def set(self, value):
        if value is None:
            os.environ.pop('GPMCCDEBUG', None)
        else:
            os.environ['GPMCCDEBUG'] = value

    def __enter__(self):
        self.old = os.environ.get('GPMCCDEBUG')
        self.set(self.value)

    def __exit__(self, *a):
        self.set(self.old)


def watch(ctx):
    """Count the self-checks which run to their end."""
    from cgpm.crosscat.state import State
    from cgpm.mixtures.view import View
    for C in (State, View):
        f = getattr(C, '_check_partitions', None)
        if f is None:
            continue

        def g(self, f=f, C=C):
            r = f(self)
            if os.environ.get('GPMCCDEBUG') == '1':
                ctx.count('%s self-checks passed' % C.__name__)
            return r
        C._check_partitions = g


def paired(ctx, run, kind):
    watch(ctx)
    traces = []
    for value in (ctx.rng.choice([None, '0']), '1'):
        sub = Ctx(ctx.prop, ctx.scenario, ctx.index, ctx.seed, ctx.tier)
        with Debug(value):
            try:
                traces.append(run(sub))
            except AssertionError as e:
                import traceback
                ctx.fail('selfcheck:' + kind, 'with GPMCCDEBUG=%s an '
                         'assertion fails: %s' % (
                             value, traceback.format_exc()[-1500:]))
                return
        for k, n in sub.counters.items():
            ctx.count(k, n)
    d = mix.diff(traces[0], traces[1], 'trace', 1e-9)
    ctx.true(d is None, 'differs:' + kind,
             'the run with self-checks differs from the one without: %s' % d)
    ctx.case(dict(history=traces[0][-1]),
             any('self-checks' in k for k in ctx.counters))


def drive(sub, h, digest, n):
    trace = [digest(h)]
    for _ in range(n):
        name = h.step()
        trace.append([name, digest(h)])
    trace.append(h.log)
    return trace


def dstate(h):
    return Q.digest_state(h.state)


@scenario(quick=40, thorough=500, timeout=240)
def states(ctx):
    def run(sub):
        large = sub.index % 10 == 9
        st, X, specs = mix.large_state(sub.rng, n_rows=24) if large else \
            mix.random_state(sub.rng)
        return drive(sub, hist.StateHistory(sub, st, X, specs), dstate,
                     4 if large else 12)
    paired(ctx, run, 'state')


@scenario(quick=16, thorough=200, timeout=240)
def constrained(ctx):
    def run(sub):
        rng = sub.rng
        n = int(rng.randint(3, 7))
        X, specs = mix.gen_table(rng, int(rng.randint(3, 8)), n)
        p = [int(i) for i in rng.permutation(n)]
        kw = {}
        k = rng.randint(3)
        if k != 1:
            kw['Cd'] = [p[:2]]
        if k != 0:
            kw['Ci'] = [(p[0], p[2])]
        st = mix.make_state(rng, X, specs, **kw)
        h = hist.StateHistory(sub, st, X, specs)
        h.ops = [o for o in h.ops if o[0] not in (
            'incorporate_dim', 'unincorporate_dim')]
        return drive(sub, h, dstate, 10)
    paired(ctx, run, 'constrained')


@scenario(quick=16, thorough=200, timeout=240)
def composite(ctx):
    """Regression columns within views, and models hooked to a state."""
    def run(sub):
        rng = sub.rng
        missing = (0., .2)[sub.index // 2 % 2]
        for _ in range(6):
            st, X, specs = mix.random_state(
                rng, n_rows=int(rng.randint(4, 9)),
                n_cols=int(rng.randint(2, 6)),
                types=['normal', 'bernoulli', 'categorical'], missing=missing)
            if sub.index % 2 == 0:
                Q.hook_models(rng, st, X, specs)
                break
            if Q.conditional_column(
                    rng, st, X, specs, missing > 0) is not None:
                break
        else:
            raise Inconclusive('no column to regress')
        kernels = ['rows', 'column_hypers', 'alpha', 'view_alphas',
                   'column_params']
        X = {c: list(xs) for c, xs in X.items()}
        trace, log = [Q.digest_state(st)], []
        for _ in range(6):
            k = rng.randint(4)
            holes = [(r, c) for c in X for r in range(st.n_rows())
                     if mix.isnan(X[c][r])]
            if k == 0 or k == 3 and not holes:
                st.transition(N=1, kernels=kernels, progress=False)
                log.append('transition')
            elif k == 1:
                cols = [c for c in st.outputs
                        if missing == 0 or rng.rand() < .7]
                obs = {c: mix.gen_new_value(rng, specs[c])
                       for c in cols or st.outputs}
                st.incorporate(st.n_rows(), dict(obs))
                for c in X:
                    X[c].append(obs.get(c, mix.NAN))
                log.append('incorporate %s' % obs)
            elif k == 3:
                r, c = holes[rng.randint(len(holes))]
                X[c][r] = mix.gen_new_value(rng, specs[c])
                st.force_cell(r, {c: X[c][r]})
                log.append('force_cell %s %s=%s' % (r, c, X[c][r]))
            elif st.n_rows() > 2:
                st.unincorporate(st.n_rows() - 1)
                for c in X:
                    X[c].pop()
                log.append('unincorporate')
            trace.append(Q.digest_state(st))
        trace.append(log)
        return trace
    paired(ctx, run, 'composite')


@scenario(quick=24, thorough=300, timeout=240)
def views(ctx):
    def run(sub):
        v, X, specs = mix.random_view(sub.rng)
        h = hist.ViewHistory(sub, v, X, specs)
        # The self-check of a view expects rows 0..n-1.
        h.ops = [o for o in h.ops if o[0] not in ('remove', 'migrate')]
        return drive(sub, h, lambda h: Q.digest_view(h.view), 12)
    paired(ctx, run, 'view')


@scenario(quick=40, thorough=500, timeout=240)
def relevance(ctx):
    """Relevance checks its own normalisation over every pair of tables."""
    def run(sub):
        rng = sub.rng
        v, X, specs = mix.random_view(rng, n_rows=int(rng.randint(3, 10)))
        rows = sorted(v.Zr())
        trace = []
        for _ in range(4):
            p = [int(r) for r in rng.permutation(rows)]
            n = int(rng.randint(1, len(rows)))
            trace.append(float(v.relevance_probability(
                p[0], p[1:1 + n], v.outputs[1])))
            if rng.rand() < .4:
                v.transition(1)
        trace.append([int(r) for r in p])
        if os.environ.get('GPMCCDEBUG') == '1':
            sub.count('relevance self-checks passed', 4)
        return trace
    paired(ctx, run, 'relevance')


@scenario(quick=8, thorough=80, timeout=240)
def engines(ctx):
    """Worker processes inherit the setting."""
    def run(sub):
        from cgpm.crosscat.engine import Engine
        rng = sub.rng
        X, specs = mix.gen_table(rng, 6, 4, missing=.2)
        e = Engine(np.asarray([X[c] for c in X], dtype=float).T,
                   num_states=2, outputs=list(X),
                   cctypes=[specs[c]['cctype'] for c in X],
                   distargs=[specs[c]['distargs'] for c in X],
                   rng=sub.newrng(), multiprocess=int(rng.randint(2)))
        trace = []
        for _ in range(3):
            e.transition(N=1, progress=False,
                         multiprocess=int(rng.randint(2)))
            e.incorporate(e.states[0].n_rows(), {
                c: mix.gen_new_value(rng, specs[c]) for c in X},
                multiprocess=int(rng.randint(2)))
            trace.append(Q.digest_engine(e))
        trace.append(list(X))
        return trace
    paired(ctx, run, 'engine')
