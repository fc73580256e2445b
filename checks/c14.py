"""C14: results are a function of the seed alone."""

import copy
import os
import random
import subprocess
import sys
import time

import numpy as np

import hist
import mix
import models
import nets
import prims
import queries as Q
from mix import isnan
from vlib import Ctx, Inconclusive, scenario

RULE = ('a case is one call sequence run at least twice from one seed, under '
        'other global generator states, worker counts, delays or hash seeds, '
        'its complete traces compared')

TECHNIQUE = ('differential monitor over recorded traces of paired runs; '
             'watch on the global generators around every call; injected '
             'delays in worker processes')


class Globals(object):
    """The process-wide generators, set to something arbitrary and watched."""

    def __init__(self, g):
        np.random.seed(g)
        random.seed(g)
        self.np, self.py = self.now()

    @staticmethod
    def now():
        s = np.random.get_state()
        return (s[1].tobytes(), s[2], s[3], s[4]), random.getstate()

    def untouched(self):
        a, b = self.now()
        return ([] if a == self.np else ['numpy.random']) + \
            ([] if b == self.py else ['random'])


def run_twice(ctx, run, kind, times=2):
    """run(sub ctx, watch) -> trace, each time from the same streams."""
    traces = []
    seed = int(ctx.rng.randint(2**31 - 1))
    for i in range(times):
        sub = Ctx(ctx.prop, ctx.scenario, ctx.index, seed, ctx.tier)
        # a little junk allocated differently in each run
        junk = [object() for _ in range(37 * i)]
        watch = Globals(1000 + 77 * i)
        used = []

        def watched(what):
            u = watch.untouched()
            if u and not used:
                used.append(what)
                ctx.fail('globals:' + kind, '%s used the global %s although '
                         'every model has its own generator' % (what, u))
        t = run(sub, watched)
        watched('the whole run')
        traces.append(t)
        for v in sub.violations:    # other properties' business
            ctx.count('side findings')
        for k, n in sub.counters.items():
            ctx.count(k, n)
        del junk
    for t in traces[1:]:
        d = mix.diff(traces[0], t, 'trace', 1e-9)
        ctx.true(d is None, 'differs:' + kind, 'two runs from one seed: %s'
                 % d)
    return traces[0]


def ask_state(rng, st, specs, n=3):
    """Sampled and exact answers of a state."""
    gen = Q.StateQueries(rng, st, specs)
    out = []
    for _ in range(n):
        name, args, kw = gen.good()
        try:
            r = getattr(st, name)(*args, **kw)
        except Exception as e:
            r = type(e).__name__
        out.append([name, Q.norm(r)])
    return out


# ------------------------------------------------------------------- models ---

@scenario(quick=48, thorough=480)
def states(ctx):
    def run(sub, watched):
        rng = sub.rng
        if sub.index % 3 == 0:
            # from nothing: the partitions are drawn too
            n = int(rng.randint(3, 8))
            c = int(rng.randint(2, 6))
            X, specs = mix.gen_table(rng, n, c, missing=.15)
            kw = {}
            if sub.index % 6 == 0:
                kw = dict(Ci=[(0, 1)]) if sub.index % 12 else dict(
                    Cd=[[0, 1]])
            st = mix.make_state(rng, X, specs, hypers=bool(rng.rand() < .5),
                                **kw)
        else:
            st, X, specs = mix.random_state(rng)
        watched('construction')
        trace = [Q.digest_state(st)]
        h = hist.StateHistory(sub, st, X, specs)
        for _ in range(9):
            name = h.step()
            watched(name)
            trace.append([name, Q.digest_state(h.state)])
            trace.append(ask_state(rng, h.state, h.specs, 2))
            watched('queries')
        trace.append(h.log)
        return trace
    t = run_twice(ctx, run, 'state')
    ctx.case(dict(history=t[-1]))


@scenario(quick=30, thorough=300)
def views(ctx):
    def run(sub, watched):
        rng = sub.rng
        v, X, specs = mix.random_view(rng)
        watched('construction')
        trace = [Q.digest_view(v)]
        h = hist.ViewHistory(sub, v, X, specs)
        for _ in range(9):
            name = h.step()
            watched(name)
            trace.append([name, Q.digest_view(h.view)])
            rows = h.rows()
            if rows == list(range(len(rows))):
                c = h.pick_col()
                trace.append(Q.norm(h.view.simulate(None, [c], N=3)))
                watched('simulate')
        trace.append(h.log)
        return trace
    t = run_twice(ctx, run, 'view')
    ctx.case(dict(history=t[-1]))


@scenario(quick=33, thorough=330)
def primitives(ctx):
    names = sorted(set(mix.MIXED) | {'beta', 'normal_trunc', 'crp'})
    name = names[ctx.index % len(names)]

    def run(sub, watched):
        rng = sub.rng
        da = prims.gen_distargs(name, rng)
        hy = prims.gen_hypers(name, rng)
        inputs = None
        C = prims.cls(name)
        m = C([0], [], hypers=dict(hy) if hy and rng.rand() < .7 else None,
              distargs=da, rng=sub.newrng())
        watched(name + ' construction')
        trace = []
        for r in range(int(rng.randint(1, 9))):
            m.incorporate(r, {0: prims.gen_value(name, rng, da)}, inputs)
        for _ in range(4):
            m.transition_params()
            watched(name + ' transition_params')
            trace.append(Q.norm(m.get_params()))
            trace.append([float(m.simulate(-1, [0], None, inputs)[0])
                          for _ in range(4)])
            # (primitives take N where simulate_many gives it)
            watched(name + ' simulate')
            trace.append(float(m.logpdf_score()))
            trace.append(float(m.logpdf(-1, {0: prims.gen_value(
                name, rng, da)}, None, inputs)))
            watched(name + ' densities')
        X = prims.gen_data(name, rng, 6, da)
        trace.append(Q.norm({k: list(v) for k, v in
                             C.construct_hyper_grids(X, 5).items()}))
        return trace
    t = run_twice(ctx, run, 'primitive:' + name)
    ctx.case(dict(primitive=name, trace=t[:3]))


@scenario(quick=36, thorough=360)
def regressions_and_joints(ctx):
    names = sorted(models.ALL)
    name = names[ctx.index % len(names)]

    def run(sub, watched):
        rng = sub.rng
        ad = models.ALL[name](rng)
        m = ad.build(seed=int(rng.randint(2**31 - 1)))
        watched(name + ' construction')
        rows, trace = {}, []
        n = int(rng.randint(12, 22))
        for r in range(n):
            rows[r] = ad.fresh_row()
            ad.record(m, r, rows[r])
        watched(name + ' incorporate')
        if not ad.usable(rows):
            raise Inconclusive('rows')
        for _ in range(2):
            m.transition(N=2)
            watched(name + ' transition')
            qs = ad.queries(rows, 3)
            trace.append(Q.digest_model(m, ad, qs, rows))
            watched(name + ' densities')
            for q in qs:
                kw = dict(inputs=q[2]) if ad.conditional else {}
                try:
                    s = m.simulate(None, list(q[0]), dict(q[1] or {}) or
                                   None, N=3, **kw)
                except Exception as e:
                    s = type(e).__name__
                trace.append(Q.norm(s))
            watched(name + ' simulate')
        r = sorted(rows)[rng.randint(len(rows))]
        m.unincorporate(r)
        del rows[r]
        m2 = type(m).from_metadata(m.to_metadata(), rng=sub.newrng())
        watched(name + ' reconstruction')
        for x in (m, m2):
            x.transition(N=1)
            t = Q.digest_model(x, ad, ad.queries(rows, 2), rows)
            trace.append(t)
        watched(name + ' transition')
        return trace
    t = run_twice(ctx, run, 'model:' + name)
    ctx.case(dict(model=name, trace=t[:1]))


def zoo(rng, newrng):
    """(name, model, inputs) of every synthetic model"""
    out = []

    def load(mod, name):
        import importlib
        return getattr(importlib.import_module(mod), name)
    for mod, name, noise in [
            ('linear', 'Linear', .3), ('parabola', 'Parabola', .3),
            ('ring', 'Ring', .3), ('sin', 'Sin', .3), ('xcross', 'XCross', .3),
            ('diamond', 'Diamond', .3), ('dots', 'Dots', .2)]:
        out.append((name, load('cgpm.uncorrelated.' + mod, name)(
            outputs=[0, 1], noise=noise, rng=newrng()), [0, 1], None))
    U = load('cgpm.uncorrelated.uniformx', 'UniformX')
    out.append(('UniformX', U(outputs=[0], low=-1, high=1, rng=newrng()),
                [0], None))
    out.append(('PieceWise', load('cgpm.dummy.piecewise', 'PieceWise')(
        [0, 1], [2], sigma=1, flip=.7, rng=newrng()), [0, 1], {2: .5}))
    out.append(('FourWay', load('cgpm.dummy.fourway', 'FourWay')(
        [5], [0, 1], rng=newrng()), [5], {0: .3, 1: -2.}))
    out.append(('TwoWay', load('cgpm.dummy.twoway', 'TwoWay')(
        [5], [0], rng=newrng()), [5], {0: 1}))
    out.append(('TrollNormal', load('cgpm.dummy.trollnormal', 'TrollNormal')(
        [5], [0, 1], rng=newrng()), [5], {0: 1., 1: .4}))
    return out


@scenario(quick=8, thorough=80)
def synthetic(ctx):
    def run(sub, watched):
        trace = []
        for name, m, t, inputs in zoo(sub.rng, sub.newrng):
            watched(name + ' construction')
            kw = {} if inputs is None else dict(inputs=inputs)
            for N in (None, 4):
                s = m.simulate(-1, list(t), None, N=N, **kw)
                trace.append([name, Q.norm(s)])
            watched(name + ' simulate')
        return trace
    t = run_twice(ctx, run, 'synthetic')
    ctx.case(dict(synthetic=[x[0] for x in t], trace=t[:2]))


@scenario(quick=24, thorough=240)
def networks(ctx):
    def run(sub, watched):
        from cgpm.network.importance import ImportanceNetwork
        rng = sub.rng
        ms, card, exo = nets.random_network(rng, int(rng.randint(2, 6)),
                                            exogenous=1)
        vs = [v for m in ms for v in m.outputs]
        net = ImportanceNetwork(ms, accuracy=int(rng.randint(2, 6)),
                                rng=sub.newrng())
        inputs = {e: 1 for e in exo}
        watched('network construction')
        trace = []
        for _ in range(4):
            p = [vs[i] for i in rng.permutation(len(vs))]
            k = 1 + rng.randint(len(p))
            e = {v: int(rng.randint(card[v])) for v in p[k:]
                 if rng.rand() < .6}
            trace.append(net.simulate(None, p[:k], e, inputs, 3))
            trace.append(net.logpdf(None, {v: int(rng.randint(card[v]))
                                           for v in p[:k]}, e, inputs))
            watched('network queries')
        return Q.norm(trace)
    t = run_twice(ctx, run, 'network')
    ctx.case(dict(trace=t))


@scenario(quick=20, thorough=200)
def utilities(ctx):
    def run(sub, watched):
        from cgpm.utils import general as gu
        from cgpm.utils import sampling as su
        from cgpm.utils import test as tu
        rng = sub.rng
        trace = []

        def note(what, x):
            watched(what)
            trace.append([what, Q.norm(x)])
        p = list(rng.uniform(.1, 1, 5))
        note('pflip', gu.pflip(p, size=5, rng=sub.newrng()))
        note('log_pflip', gu.log_pflip(np.log(p), array=list('abcde'),
                                       size=5, rng=sub.newrng()))
        note('simulate_crp', gu.simulate_crp(8, 1.3, rng=sub.newrng()))
        note('crp dependent', gu.simulate_crp_constrained_dependent(
            7, 1.1, [[0, 2], [3, 4]], sub.newrng()))
        note('crp constrained', gu.simulate_crp_constrained(
            7, 1.1, [[0, 2], [3, 4]], [(0, 3)], {}, {}, rng=sub.newrng()))
        f = lambda x: -.5 * (x - .3) ** 2
        note('mh_sample', su.mh_sample(
            0., f, .8, [-4., 4.], num_samples=4, burn=2, lag=2,
            rng=sub.newrng()))
        d = rng.uniform(1, 2)
        note('slice_sample', su.slice_sample(
            lambda: d, f, [-4., 4.], num_samples=4, burn=2, lag=2,
            rng=sub.newrng()))
        prop = sub.newrng()
        note('rejection', su.rejection_sample(
            lambda x: np.exp(f(x)), lambda x: 2., lambda: prop.uniform(-3, 3),
            N=4, rng=sub.newrng()))
        names = ['normal', 'poisson', 'bernoulli', 'categorical',
                 'lognormal', 'exponential', 'geometric', 'vonmises',
                 'beta', 'normal_trunc']
        sel = [names[i] for i in rng.permutation(len(names))[:4]]
        T, Zv, Zc = tu.gen_data_table(
            12, [.5, .5], [[.3, .7], [.5, .5]], sel,
            [prims.gen_distargs(t, rng) if t == 'categorical' else
             dict(l=0., h=1.) if t == 'normal_trunc' else None
             for t in sel], [.8] * 4, rng=sub.newrng())
        note('gen_data_table', [T, Zv, Zc])
        return trace
    t = run_twice(ctx, run, 'utilities')
    ctx.case(dict(trace=t))


# ------------------------------------------------------------------- streams ---

@scenario(quick=40, thorough=400)
def reseeded(ctx):
    """Every part of a state draws from the state's generator: whatever was
    drawn before, reseeding it determines everything after it."""
    rng = ctx.rng
    st, X, specs = mix.random_state(rng)
    h = hist.StateHistory(ctx, st, X, specs)
    for _ in range(int(rng.randint(0, 9))):
        h.step()
    st = h.state
    cols = list(h.X)
    comp = False
    if rng.rand() < .3:
        # models composed through an engine take the state's generator
        from cgpm.crosscat.engine import Engine
        disc = [c for c in h.X if h.specs[c]['cctype'] == 'bernoulli']
        card = {60: 3}
        card.update({c: 2 for c in disc[:2]})
        m = nets.Cpt([60], disc[:2], card, nets.random_table(
            rng, [60], disc[:2], card))
        e = Engine.__new__(Engine)
        e.rng = ctx.newrng()
        e.states = [st]
        e.compose_cgpm([m], multiprocess=0)
        st = e.states[0]
        comp = True
    a, b = copy.deepcopy(st), copy.deepcopy(st)
    # b draws a while, from every part of it, changing nothing else
    for _ in range(int(rng.randint(1, 6))):
        b.simulate(None, cols[:1], N=2)
        for d in b.dims():
            d.rng.uniform()
            for m in d.clusters.values():
                m.rng.uniform()
        for v in b.views.values():
            v.rng.uniform()
            v.crp.rng.uniform()
    plan = []
    for _ in range(5):
        k = rng.randint(6)
        if k == 0 and not comp and mix.conditional_free(st) and \
                not st.Cd and h.no_empty_column():
            plan.append(('transition', (1,), dict(progress=False)))
        elif k == 1:
            plan.append(('transition', (1,), dict(
                progress=False, kernels=['rows', 'column_hypers', 'alpha',
                                         'view_alphas', 'column_params'])))
        elif k == 2:
            plan.append(('simulate', (None, [60] + cols[:1] if comp else
                                      cols[:2], {}, None, 4), {}))
        elif k == 3:
            c = cols[rng.randint(len(cols))]
            plan.append(('mutual_information', ([c], [c]), dict(N=5)))
        elif k == 4:
            plan.append(('incorporate', ('next', {
                c: mix.gen_new_value(rng, h.specs[c]) for c in cols}), {}))
        else:
            plan.append(('simulate', (None, cols, {}, None, 3), {}))
    out = []
    for s in (a, b):
        s.rng.seed(4242)
        t = []
        for name, args, kw in plan:
            args = tuple(s.n_rows() if x == 'next' else copy.deepcopy(x)
                         for x in args) if name == 'incorporate' else args
            r = getattr(s, name)(*args, **copy.deepcopy(kw))
            t.append([name, Q.norm(r), Q.digest_state(s)])
        out.append(t)
    ctx.case(dict(plan=plan, log=h.log[-6:]))
    d = mix.diff(out[0], out[1], 'after reseeding', 1e-9)
    ctx.true(d is None, 'reseeded', 'two copies of a state, reseeded alike, '
             'differ: %s' % d, plan=plan, log=h.log)


def engine_table(rng, n=None, c=None):
    n = n or int(rng.randint(3, 8))
    c = c or int(rng.randint(2, 5))
    return mix.gen_table(rng, n, c, missing=.1)


@scenario(quick=28, thorough=280)
def engines(ctx):
    """One engine history under several executions of its workers."""
    from cgpm.crosscat import engine as em
    from cgpm.utils import parallel_map as pm
    seed = int(ctx.rng.randint(2**31 - 1))
    n_states = int(ctx.rng.choice([1, 2, 3, 5, 8]))
    traces = []
    how = [dict(mp=0, cpus=None, delay=False),
           dict(mp=1, cpus=int(ctx.rng.randint(1, 4)), delay=False),
           dict(mp=1, cpus=int(ctx.rng.randint(2, 9)), delay=True),
           dict(mp=0, cpus=None, delay=False)]
    real_cpu = getattr(pm, 'cpu_count', None)
    for i, w in enumerate(how):
        sub = Ctx(ctx.prop, ctx.scenario, ctx.index, seed, ctx.tier)
        rng = sub.rng
        if real_cpu is not None:
            pm.cpu_count = (lambda k=w['cpus']: k) if w['cpus'] else real_cpu
        # delays drawn from the clock: each run schedules differently
        jitter = np.random.RandomState((os.getpid() * 31 + i) % 2**31)
        delays = {}

        def slow(s):
            if w['delay']:
                time.sleep(delays.setdefault(
                    id(s), float(jitter.uniform(0, .02))))
            return s
        watch = Globals(50 + i)
        X, specs = engine_table(rng)
        A = np.asarray([X[c] for c in X], dtype=float).T
        e = em.Engine(A, num_states=n_states, outputs=list(X),
                      cctypes=[specs[c]['cctype'] for c in X],
                      distargs=[specs[c]['distargs'] for c in X],
                      rng=sub.newrng(), multiprocess=w['mp'])
        mp = dict(multiprocess=w['mp'])
        trace = [Q.digest_engine(e)]
        cols = list(X)
        for _ in range(5):
            e.alter([slow], **mp)
            k = rng.randint(13)
            if k >= 11:
                # refused after some of it has been answered
                what = rng.randint(4)
                try:
                    if what == 0:
                        r = e.simulate_bulk([None, None], [cols, [-5]], None,
                                            None, [3, 1], **mp)
                    elif what == 1:
                        r = e.logpdf_bulk(
                            [None, None], [{cols[0]: .5}, {-5: 1.}], **mp)
                    elif what == 2:
                        r = e.mutual_information(
                            [cols[0]], [cols[1]], {-5: None}, 3, 3, **mp)
                    else:
                        r = e.simulate_bulk(
                            [None, 10**6 + 1, None], [cols[:1], cols, cols],
                            [{}, {}, {cols[0]: 1.}], None, [2, 1, 1], **mp)
                    r = 'answered'
                except Exception:
                    r = 'refused'
                    ctx.count('engine queries refused half way')
                e.transition(N=1, progress=False, kernels=['rows', 'columns'],
                             **mp)
            elif k <= 1:
                e.transition(N=1, progress=False, **mp)
                r = None
            elif k == 2:
                r = e.simulate(None, cols[:2], N=3, **mp)
            elif k == 3:
                r = e.simulate_bulk([None, None], [cols[:1], cols], None,
                                    None, [2, 1], **mp)
            elif k == 4:
                r = e.mutual_information([cols[0]], [cols[1]], N=5, **mp)
            elif k == 5:
                r = e.logpdf(None, {cols[0]: mix.gen_new_value(
                    rng, specs[cols[0]])}, **mp)
            elif k == 6:
                e.add_state(count=2, **mp)
                r = None
            elif 8 <= k <= 10 and hasattr(e, '_likelihood_weighted_resample'):
                const = {cols[0]: mix.gen_new_value(rng, specs[cols[0]])} \
                    if k == 8 else None
                r = e._likelihood_weighted_resample(
                    [[[s, j] for j in range(6)]
                     for s in range(len(e.states))], None, const, **mp)
            else:
                e.incorporate(e.states[0].n_rows(), {
                    c: mix.gen_new_value(rng, specs[c]) for c in cols}, **mp)
                r = None
            trace.append([int(k), Q.norm(r), Q.digest_engine(e)])
        m = e.to_metadata()
        e2 = em.Engine.from_metadata(m, rng=sub.newrng(), **mp)
        if all(d.is_collapsed() for s in e2.states for d in s.dims()):
            trace.append(Q.norm(e2.simulate(None, cols[:1], N=2, **mp)))
            e2.transition(N=1, progress=False, **mp)
            trace.append(Q.digest_engine(e2))
        u = watch.untouched()
        ctx.true(not u, 'globals:engine', 'an engine with its own generator '
                 'used the global %r' % u, how=w)
        traces.append(trace)
    if real_cpu is not None:
        pm.cpu_count = real_cpu
    ctx.case(dict(states=n_states, how=how, ops=[
        t[0] for t in traces[0][1:-1] if isinstance(t[0], int)]),
        nontrivial=n_states > 1)
    for w, t in zip(how[1:], traces[1:]):
        d = mix.diff(traces[0], t, 'trace', 1e-9)
        ctx.true(d is None, 'differs:engine:%s' % (
            'parallel' if w['mp'] else 'serial'),
            'serial run against %r: %s' % (w, d))


@scenario(quick=20, thorough=200)
def distinct_streams(ctx):
    """Members of an engine, and successive calls, draw different numbers."""
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    n = int(rng.choice([2, 5, 20, 60]))
    X = rng.normal(size=(4, 2))
    e = Engine(X, num_states=n, cctypes=['normal', 'normal'],
               rng=ctx.newrng(), multiprocess=int(rng.rand() < .5))
    mp = dict(multiprocess=int(rng.rand() < .5))
    seen = {}

    def fresh(tag, xs):
        for s, x in enumerate(xs):
            if x in seen:
                ctx.fail('streams:shared', 'state %d in %s drew %r, like %r'
                         % (s, tag, x, seen[x]))
                return
            seen[x] = (tag, s)
    fresh('construction', [st.rng.uniform() for st in map(
        copy.deepcopy, e.states)])
    for i in range(3):
        k = rng.randint(4)
        if k == 0:
            fresh('simulate %d' % i, [
                s[0][0] for s in e.simulate(None, [0], N=1, **mp)])
        elif k == 1:
            fresh('bulk %d' % i, [
                s[0][0][1] for s in e.simulate_bulk(
                    [None], [[1]], Ns=[1], **mp)])
        elif k == 2:
            m = int(rng.choice([1, 4, 12]))
            e.add_state(count=m, **mp)
            fresh('added %d' % i, [st.rng.uniform() for st in map(
                copy.deepcopy, e.states[-m:])])
        else:
            e.transition(N=1, progress=False, kernels=['alpha', 'rows'],
                         **mp)
            fresh('transition %d' % i, [st.rng.uniform() for st in map(
                copy.deepcopy, e.states)])
    e2 = Engine.from_metadata(e.to_metadata(), rng=ctx.newrng(), **mp)
    fresh('reconstructed', [st.rng.uniform() for st in map(
        copy.deepcopy, e2.states)])
    ctx.case(dict(states=n, draws=len(seen)))
    # within one state the columns and rows draw different numbers too
    st = e.states[0]
    xs = st.simulate(None, [0, 1], N=30)
    vals = [v for s in xs for v in s.values()]
    ctx.true(len(set(vals)) == len(vals), 'streams:within',
             'samples of one state repeat')


SCRIPT = '''
import sys
sys.path.insert(0, %(lib)r); sys.path.insert(0, %(checks)r)
import py2loader; py2loader.install()
import json, warnings
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
import c14
from vlib import Ctx
sub = Ctx('C14', 'hash_seeds', %(index)d, %(seed)d, 'quick')
t = c14.long_trace(sub)
print('TRACE' + json.dumps(t, default=str, sort_keys=True))
'''


def long_trace(sub):
    rng = sub.rng
    st, X, specs = mix.random_state(rng, n_rows=6, n_cols=4)
    h = hist.StateHistory(sub, st, X, specs)
    trace = []
    for _ in range(10):
        trace.append([h.step(), Q.norm(Q.digest_state(h.state)),
                      ask_state(rng, h.state, h.specs, 2)])
    ms, card, exo = nets.random_network(rng, 4, exogenous=1)
    from cgpm.network.importance import ImportanceNetwork
    net = ImportanceNetwork(ms, accuracy=3, rng=sub.newrng())
    vs = [v for m in ms for v in m.outputs]
    trace.append(Q.norm(net.simulate(None, vs, {}, {e: 1 for e in exo}, 4)))
    return trace


@scenario(quick=6, thorough=40)
def hash_seeds(ctx):
    """Other processes, with other string hashes, agree."""
    here = os.path.dirname(os.path.abspath(__file__))
    seed = int(ctx.rng.randint(2**31 - 1))
    outs = []
    for hs in ('0', str(1 + ctx.index), 'random'):
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run(
            [sys.executable, '-c', SCRIPT % dict(
                lib=os.path.join(here, '..', 'lib'), checks=here,
                index=ctx.index, seed=seed)],
            env=env, capture_output=True, text=True, timeout=150)
        lines = [ln for ln in p.stdout.splitlines()
                 if ln.startswith('TRACE')]
        if p.returncode or not lines:
            ctx.fail('crash:hash_seeds', p.stderr[-1500:])
            return
        import json
        outs.append(json.loads(lines[-1][5:]))
    ctx.case(dict(seed=seed, first=outs[0][0][0]))
    for o in outs[1:]:
        d = mix.diff(outs[0], o, 'trace', 1e-9)
        ctx.true(d is None, 'differs:processes', 'two processes, one seed: '
                 '%s' % d)
