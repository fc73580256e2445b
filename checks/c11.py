"""C11: queries never change the model they are asked about."""
import copy

import numpy as np

import hist
import mix
import models
import nets
import prims
import queries as Q
from vlib import scenario

RULE = ('a case is one query, answered or refused, of a live model, between '
        'two digests of everything a caller can observe of it (data, '
        'partitions, counts, statistics, hyperparameters, parameters, scores, '
        'metadata and the answers to a fixed set of density queries); the '
        'arguments are compared with copies too; distinct by query and model')

TECHNIQUE = ('digest of the live model before and after each randomly '
             'generated query, valid and invalid, and comparison of the '
             'arguments with copies taken before the call')


def ask(ctx, target, call, digest, kind, before=None, log=None):
    method, args, kwargs = call
    a0, k0 = Q.copied(args), Q.copied(kwargs)
    before = digest() if before is None else before
    out = 'answered'
    try:
        getattr(target, method)(*args, **kwargs)
    except Exception as e:
        out = 'refused ' + type(e).__name__
    try:
        after = digest()
        d = mix.diff(before, after)
    except Exception as e:
        after, d = None, '(no longer answers) %s: %s' % (type(e).__name__, e)
    ctx.count('%s.%s %s' % (kind, method, out.split()[0]))
    ctx.true(d is None, 'changed:%s:%s:%s' % (kind, method, out.split()[0]),
             '%s%r %r (%s) changed the model at %s' % (
                 method, a0, k0, out, d), log=log)
    d2 = Q.same_args([a0, k0], [args, kwargs])
    ctx.true(d2 is None, 'arguments:%s:%s' % (kind, method),
             '%s%r %r (%s) changed its %s' % (method, a0, k0, out, d2))
    ctx.case('%s %s %s%r%r %s' % (kind, out, method, a0, k0,
                                  hash(repr(before)) % 10**6))
    return after


def run_queries(ctx, st, qs, kind, n, p_bad=.35):
    digest = lambda: Q.digest_state(st)
    before = digest()
    for _ in range(n):
        call = qs.bad() if ctx.rng.rand() < p_bad else qs.good()
        before = ask(ctx, st, call, digest, kind, before)
        if ctx.violations:
            return


def small_state(ctx, **kw):
    kw.setdefault('n_rows', int(ctx.rng.randint(2, 8)))
    return mix.random_state(ctx.rng, **kw)


@scenario(quick=70, thorough=700)
def state_plain(ctx):
    """after a short history, any queries"""
    large = ctx.index % 12 == 11
    st, X, specs = mix.large_state(ctx.rng, n_rows=24) if large else \
        small_state(ctx)
    h = hist.StateHistory(ctx, st, X, specs)
    for _ in range(int(ctx.rng.randint(0, 2 if large else 5))):
        h.step()
    qs = Q.StateQueries(ctx.rng, h.state, h.specs)
    run_queries(ctx, h.state, qs, 'state', 14)


@scenario(quick=20, thorough=200)
def state_constrained(ctx):
    outs = [3, 1, 4, 0]
    X, specs = mix.gen_table(ctx.rng, int(ctx.rng.randint(2, 7)), 4,
                             None, .2, outs)
    if ctx.rng.rand() < .5:
        st = mix.make_state(ctx.rng, X, specs, Zv={3: 0, 4: 0, 1: 1, 0: 2},
                            Cd=[[3, 4]])
    else:
        st = mix.make_state(ctx.rng, X, specs, Zv={3: 0, 4: 0, 1: 1, 0: 1},
                            Ci=[(1, 4), (3, 0)])
    qs = Q.StateQueries(ctx.rng, st, specs)
    run_queries(ctx, st, qs, 'constrained', 12)


@scenario(quick=24, thorough=240)
def state_composite(ctx):
    st, X, specs = small_state(ctx, n_cols=4,
                               types=['bernoulli', 'categorical', 'normal'],
                               missing=.15)
    foreign = Q.hook_models(ctx.rng, st, X, specs,
                            real=ctx.rng.rand() < .5)
    qs = Q.StateQueries(ctx.rng, st, specs, foreign)
    run_queries(ctx, st, qs, 'composite', 10)


@scenario(quick=20, thorough=200)
def state_conditional(ctx):
    """a column that is a regression on the others of its view"""
    X, specs = mix.gen_table(ctx.rng, int(ctx.rng.randint(4, 9)), 3,
                             ['normal', 'exponential', 'lognormal'], 0.)
    st = mix.make_state(ctx.rng, X, specs, Zv={c: 0 for c in X})
    c = Q.conditional_column(ctx.rng, st, X, specs)
    specs[c] = dict(cctype='normal', distargs=None, hypers=None)
    qs = Q.StateQueries(ctx.rng, st, specs)
    run_queries(ctx, st, qs, 'conditional', 10)


@scenario(quick=60, thorough=600)
def view(ctx):
    v, X, specs = mix.random_view(ctx.rng)
    qs = Q.ViewQueries(ctx.rng, v, specs)
    digest = lambda: Q.digest_view(v)
    before = digest()
    for _ in range(25):
        call = qs.bad() if ctx.rng.rand() < .35 else qs.good()
        before = ask(ctx, v, call, digest, 'view', before)
        if ctx.violations:
            return


# ------------------------------------------------------------- primitives ---

@scenario(quick=26, thorough=260)
def primitive(ctx):
    rng = ctx.rng
    name = prims.ALL[ctx.index % len(prims.ALL)]
    for _ in range(4):
        da = prims.gen_distargs(name, rng)
        m = prims.make(name, rng.randint(2**31 - 1),
                       prims.gen_hypers(name, rng), da,
                       prims.gen_params(name, da, rng), output=3)
        for r, x in enumerate(prims.gen_data(
                name, rng, int(rng.randint(0, 9)), da)):
            m.incorporate(int(r), {3: float(x)})
        good = lambda: float(prims.gen_value(name, rng, da))
        outs = prims.outside(name, da) or [float('nan')]
        dig = lambda: Q.digest_prim(name, m, da)
        before = dig()
        for _ in range(12):
            k = rng.randint(9)
            row = [None, -1, 0, 77][rng.randint(4)]
            call = [
                ('logpdf', (row, {3: good()}), {}),
                ('simulate', (row, [3]), dict(N=[None, 1, 4][rng.randint(3)])),
                ('logpdf_score', (), {}), ('to_metadata', (), {}),
                ('logpdf', (row, {3: outs[rng.randint(len(outs))]}), {}),
                ('logpdf', (row, {4: good()}), {}),
                ('logpdf', (row, {3: good()}, {3: good()}), {}),
                ('simulate', (row, [3, 9]), {}),
                ('logpdf_multirow' if hasattr(m, 'logpdf_multirow')
                 else 'get_suffstats', (), {})][k]
            before = ask(ctx, m, call, dig, name, before)


# ------------------------------------------------------ models with data ---

@scenario(quick=30, thorough=300)
def model(ctx):
    name = sorted(models.ALL)[ctx.index % len(models.ALL)]
    rng = ctx.rng
    ad = models.ALL[name](rng)
    m = ad.build(int(rng.randint(1000)))
    rows = {}
    for r in range(int(rng.randint(8, 14))):
        rows[r] = ad.fresh_row()
        ad.record(m, r, rows[r])
    if ad.usable(rows):
        m.transition(N=1)
    # a model that refits lazily has settled once it was asked
    qs = ad.queries(rows, 3) if ad.usable(rows) else []
    for q in qs:
        try:
            ad.ask(m, q)
        except Exception:
            pass
    dig = lambda: Q.digest_model(m, ad, qs, rows)
    before = dig()
    for _ in range(14):
        t, c, i = (ad.queries(rows, 1) or [({}, {}, {})])[0] \
            if ad.usable(rows) else ({m.outputs[0]: 1.}, {}, {})
        t, c, i = dict(t), dict(c or {}), dict(i or {})
        row = [None, -1, 3, 99][rng.randint(4)]
        k = rng.randint(9)
        call = [
            ('logpdf', (row, t, c, i), {}),
            ('simulate', (row, list(t), c, i,
                          [None, 1, 3][rng.randint(3)]), {}),
            ('logpdf_score', (), {}), ('to_metadata', (), {}),
            ('logpdf', (row, {997: 1.}, c, i), {}),
            ('logpdf', (row, t, c, {996: 1.}), {}),
            ('simulate', (row, list(t), {995: 0.}, i, 2), {}),
            ('logpdf', (row, t, dict(t), i), {}),
            ('simulate', (row, list(t) + list(c), {}, {}, 1), {})][k]
        before = ask(ctx, m, call, dig, name, before)


@scenario(quick=12, thorough=120)
def network(ctx):
    rng = ctx.rng
    from cgpm.network.importance import ImportanceNetwork
    for _ in range(4):
        ms, card, exo = nets.random_network(rng, int(rng.randint(2, 5)))[:3]
        net = ImportanceNetwork(ms, accuracy=3, rng=ctx.newrng())
        variables = sorted(set(v for m in ms for v in m.outputs))
        exo = sorted(set(i for m in ms for i in m.inputs) - set(variables))
        dig = lambda: [Q.norm_meta(m.to_metadata()) for m in net.cgpms] + [
            sorted(net.extraneous), Q.norm(net.adjacency),
            Q.norm(net.topo), net.accuracy]
        before = dig()
        for _ in range(12):
            vs = [variables[i] for i in rng.permutation(len(variables))]
            n = 1 + rng.randint(len(vs))
            val = lambda v: int(rng.randint(card[v]))
            t = {v: val(v) for v in vs[:n]}
            e = {v: val(v) for v in vs[n:] if rng.rand() < .5}
            i = {v: val(v) for v in exo}
            call = [
                ('logpdf', (None, t, e, i), {}),
                ('simulate', (None, list(t), e, i, 3), {}),
                ('logpdf', (None, t, dict(t), i), {}),
                ('logpdf', (None, {99: 1}, e, i), {}),
                ('simulate', (None, list(t), {98: 1}, i, 1), {}),
                ('logpdf', (None, t, e, {}), {})][rng.randint(6)]
            before = ask(ctx, net, call, dig, 'network', before)


# ------------------------------------------------------------------ engine ---

ENGINE_ONLY = ['dependence_probability', 'row_similarity']


@scenario(quick=20, thorough=200)
def engine(ctx):
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    n_rows = int(rng.randint(3, 7))
    X, specs = mix.gen_table(rng, n_rows, 3, missing=.15)
    e = Engine(np.asarray([X[c] for c in X], dtype=float).T,
               num_states=3, outputs=list(X),
               cctypes=[specs[c]['cctype'] for c in X],
               distargs=[specs[c]['distargs'] for c in X],
               rng=ctx.newrng(), multiprocess=0)
    e.transition(N=1, progress=False, multiprocess=0)
    dig = lambda: Q.digest_engine(e)
    before = dig()
    qs = Q.StateQueries(rng, e.states[0], specs)
    for _ in range(8):
        m, a, k = qs.bad() if rng.rand() < .35 else qs.good()
        if rng.rand() < .5:
            k = dict(k, statenos=[int(s) for s in rng.permutation(3)[
                :1 + rng.randint(3)]])
        k = dict(k, multiprocess=int(rng.rand() < .4))
        before = ask(ctx, e, (m, a, k), dig, 'engine', before)
        if ctx.violations:
            return


# ------------------------------------- what a query returns is the caller's ---

def scramble(x):
    """Mutate a result in place, wherever a caller could."""
    if isinstance(x, dict):
        for k in list(x):
            scramble(x[k])
        for k in list(x):
            if isinstance(x[k], (int, float, np.number)):
                x[k] = x[k] + 17
        x['scrambled'] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        x.append('scrambled')
    elif isinstance(x, np.ndarray) and x.dtype.kind == 'f' \
            and x.flags.writeable:
        x += 17


@scenario(quick=20, thorough=200)
def results(ctx):
    """results, the caller's to keep, are no part of the model"""
    rng = ctx.rng
    types = ['bernoulli', 'categorical', 'normal'] if ctx.index % 2 else None
    st, X, specs = small_state(ctx, types=types)
    if ctx.index % 2:
        Q.hook_models(rng, st, X, specs, 1)
    c = sorted(X)[rng.randint(len(X))]
    vs = list(st.views.values())
    v = vs[rng.randint(len(vs))]
    d = v.dims[sorted(v.dims)[0]]
    m = d.clusters[sorted(d.clusters)[0]] if d.clusters else d.aux_model
    calls = [
        ('state.to_metadata', lambda: st.to_metadata()),
        ('state.Zv', lambda: st.Zv()), ('state.Nv', lambda: st.Nv()),
        ('state.data_array', lambda: st.data_array()),
        ('state.simulate', lambda: st.simulate(None, [c], N=2)),
        ('state.dependence', lambda: st.dependence_probability_pairwise()),
        ('state.similarity', lambda: st.row_similarity_pairwise()),
        ('view.to_metadata', lambda: v.to_metadata()),
        ('view.simulate', lambda: v.simulate(None, [sorted(v.dims)[0]], N=2)),
        ('cluster.get_hypers', lambda: m.get_hypers()),
        ('cluster.get_suffstats', lambda: m.get_suffstats()),
        ('cluster.get_params', lambda: m.get_params()),
    ] + [('hooked.to_metadata', lambda: list(
        st.hooked_cgpms.values())[0].to_metadata())] * bool(ctx.index % 2)
    dig = lambda: Q.digest_state(st)
    before = dig()
    for name, f in calls:
        r = f()
        scramble(r)
        try:
            after = dig()
            diff = mix.diff(before, after)
        except Exception as e:
            diff = 'digest failed: %s %s' % (type(e).__name__, e)
        ctx.true(diff is None, 'result-aliased:' + name,
                 'changing the result of %s changed the model at %s' % (
                     name, diff))
        ctx.case('%s %s' % (name, repr(before)[:80]))
        if diff is not None:
            return
