"""C31: ill-formed definitions and queries are refused, well-formed accepted."""
import copy

import numpy as np

import hist
import mix
import models
import prims
import queries as Q
from vlib import Inconclusive, scenario

RULE = ('a case is one definition of a model, or one query of a model in use, '
        'made ill-formed in one known way; the same definition or query '
        'without the fault is given too, and must be accepted')

TECHNIQUE = ('fault injection into well-formed definitions and queries; '
             'monitors on the outcome, on the arguments and on the model')

OK = (ValueError, AssertionError, KeyError)


def offer(ctx, f, what, good=False, model=None, digest=None):
    before = digest() if digest else None
    try:
        r = f()
        out = None
    except Exception as e:
        out, r = e, None
    if good:
        ctx.true(out is None, 'refused', '%s is well-formed, but is refused: '
                 '%r' % (what, out))
    else:
        ctx.true(out is not None, 'accepted',
                 '%s is ill-formed, but is accepted: %r' % (what, r))
        ctx.true(isinstance(out, OK), 'kind', '%s raises %r, which is no '
                 'ValueError' % (what, out))
        ctx.count('refusals')
    if digest:
        d = mix.diff(before, digest())
        ctx.true(d is None, 'changed', '%s changed the model: %s' % (what, d))
    return r


def without(d, *ks):
    d = copy.deepcopy(d)
    for k in ks:
        d.pop(k)
    return d


def put(d, path, value):
    d = copy.deepcopy(d)
    x = d
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = value
    return d


# -------------------------------------------------------------- definitions ---

def joint_faults(kw, name, rng):
    o = kw['outputs']
    yield 'inputs', put(kw, ['inputs'], [77])
    if len(o) >= 2:
        dup = list(o)
        dup[rng.randint(1, len(o))] = dup[0]
        yield 'duplicate outputs', put(kw, ['outputs'], dup)
    yield 'no outputs', put(kw, ['outputs'], [])
    if name != 'kde':
        yield 'one output', put(
            put(put(kw, ['outputs'], o[:1]),
                ['distargs', 'outputs', 'stattypes'],
                kw['distargs']['outputs']['stattypes'][:1]),
            ['distargs', 'outputs', 'statargs'],
            kw['distargs']['outputs'].get('statargs', [])[:1])
    if name == 'factor':
        return
    da = kw['distargs']['outputs']
    yield 'no distargs', put(kw, ['distargs'], None)
    yield 'empty distargs', put(kw, ['distargs'], {})
    yield 'no stattypes', put(kw, ['distargs', 'outputs'],
                              without(da, 'stattypes'))
    yield 'no statargs', put(kw, ['distargs', 'outputs'],
                             without(da, 'statargs'))
    yield 'one stattype fewer', put(
        kw, ['distargs', 'outputs', 'stattypes'], da['stattypes'][:-1])
    yield 'one statarg fewer', put(
        kw, ['distargs', 'outputs', 'statargs'], da['statargs'][:-1])
    yield 'one stattype more', put(
        kw, ['distargs', 'outputs', 'stattypes'],
        da['stattypes'] + ['numerical'])
    yield 'one statarg more', put(
        kw, ['distargs', 'outputs', 'statargs'], da['statargs'] + [{}])
    for i, t in enumerate(da['stattypes']):
        if t != 'numerical':
            yield 'no k', put(kw, ['distargs', 'outputs', 'statargs', i], {})


@scenario(quick=60, thorough=400)
def joint_definitions(ctx):
    rng = ctx.rng
    name = ['kde', 'knn', 'factor'][ctx.index % 3]
    if name == 'factor':
        from cgpm.factor.factor import FactorAnalysis as C
        L = int(rng.randint(1, 4))
        D = L + int(rng.randint(0, 3)) + (L == 0)
        outs = models.varids(rng, D + L)
        kw = dict(outputs=[int(x) for x in outs], inputs=[], L=L, distargs={
            'outputs': {'stattypes': ['numerical'] * (D + L),
                        'statargs': [{}] * (D + L)}})
    else:
        n = int(rng.randint(2 if name == 'knn' else 1, 5))
        ks = [int(rng.randint(2, 5)) if rng.rand() < .5 else None
              for _ in range(n)]
        kw = dict(
            outputs=[int(x) for x in models.varids(rng, n)], inputs=[],
            distargs={'outputs': {
                'stattypes': ['categorical' if k else 'numerical'
                              for k in ks],
                'statargs': [{'k': k} if k else {} for k in ks]}})
        if name == 'kde':
            from cgpm.kde.mvkde import MultivariateKde as C
        else:
            from cgpm.knn.mvknn import MultivariateKnn as C
            kw['K'] = int(rng.randint(1, 9))
    build = lambda kw: C(rng=ctx.newrng(), **kw)
    faults = [(n, f) for n, f in joint_faults(kw, name, rng)]
    if name == 'knn':
        faults += [('K=%r' % k, put(kw, ['K'], k))
                   for k in (0, -1, -5, None)]
    if name == 'factor':
        faults += [('no L', put(kw, ['L'], None)), ('L=0', put(kw, ['L'], 0))]
        n = len(kw['outputs'])
        faults += [('L=%d of %d' % (l, n), put(kw, ['L'], l))
                   for l in range(n // 2 + 1, n)]
        i = int(rng.randint(n))
        faults.append(('categorical output', put(
            kw, ['distargs', 'outputs', 'stattypes', i], 'categorical')))
    for what, bad in faults:
        before = copy.deepcopy(bad)
        offer(ctx, lambda: build(bad), '%s with %s: %s' % (name, what, bad))
        ctx.true(bad == before, 'arguments', '%s changed %s' % (name, before))
    before = copy.deepcopy(kw)
    m = offer(ctx, lambda: build(kw), '%s: %s' % (name, kw), good=True)
    ctx.true(kw == before, 'arguments', '%s changed %s' % (name, before))
    if m is not None:
        ctx.true(list(m.outputs) == kw['outputs'] and not m.inputs,
                 'variables', '%s has variables %s' % (name, m.outputs))
    ctx.case(dict(model=name, definition=kw, faults=[n for n, _ in faults]))


@scenario(quick=36, thorough=200)
def regression_definitions(ctx):
    rng = ctx.rng
    name = ['linreg', 'ols', 'forest'][ctx.index % 3]
    if name == 'linreg':
        from cgpm.regressions.linreg import LinearRegression as C
    elif name == 'ols':
        from cgpm.regressions.ols import OrdinaryLeastSquares as C
    else:
        from cgpm.regressions.forest import RandomForest as C
    n = int(rng.randint(1, 5))
    vs = [int(x) for x in models.varids(rng, n + 1)]
    ks = [int(rng.randint(2, 5)) if rng.rand() < .5 else None
          for _ in range(n)]
    kw = dict(outputs=vs[:1], inputs=vs[1:], distargs={'inputs': {
        'stattypes': ['categorical' if k else 'numerical' for k in ks],
        'statargs': [{'k': k} if k else {} for k in ks]}})
    if name == 'forest':
        kw['distargs']['k'] = int(rng.randint(2, 5))
    da = kw['distargs']['inputs']
    faults = [
        ('no outputs', put(kw, ['outputs'], [])),
        ('two outputs', put(kw, ['outputs'], [vs[0], 990])),
        ('no inputs', put(put(kw, ['inputs'], []), [
            'distargs', 'inputs', 'stattypes'], [])),
        ('its output as input', put(
            kw, ['inputs', int(rng.randint(n))], vs[0])),
        ('one stattype fewer', put(
            kw, ['distargs', 'inputs', 'stattypes'], da['stattypes'][:-1])),
        ('one stattype more', put(
            kw, ['distargs', 'inputs', 'stattypes'],
            da['stattypes'] + ['numerical'])),
    ]
    build = lambda kw: C(rng=ctx.newrng(), **kw)
    for what, bad in faults:
        before = copy.deepcopy(bad)
        offer(ctx, lambda: build(bad), '%s with %s: %s' % (name, what, bad))
        ctx.true(bad == before, 'arguments', '%s changed %s' % (name, before))
    before = copy.deepcopy(kw)
    m = offer(ctx, lambda: build(kw), '%s: %s' % (name, kw), good=True)
    ctx.true(kw == before, 'arguments', '%s changed %s' % (name, before))
    if m is not None:
        ctx.true([list(m.outputs), list(m.inputs)] == [vs[:1], vs[1:]],
                 'variables', '%s has variables %s, %s' % (
                     name, m.outputs, m.inputs))
    ctx.case(dict(model=name, definition=kw, faults=[n for n, _ in faults]))


@scenario(quick=44, thorough=110)
def univariate_definitions(ctx):
    rng = ctx.rng
    name = prims.ALL[ctx.index % len(prims.ALL)]
    C = prims.cls(name)
    da = prims.gen_distargs(name, rng)
    hy = prims.gen_hypers(name, rng) or {}
    build = lambda o, i, h, d: C(o, i, hypers=h, distargs=d,
                                 rng=ctx.newrng())
    args = dict(hypers=hy, distargs=da)
    before = copy.deepcopy(args)
    m = offer(ctx, lambda: build([3], [], dict(hy), da), '%s %s' % (
        name, args), good=True)
    offer(ctx, lambda: build([], [], dict(hy), da), name + ' of nothing')
    offer(ctx, lambda: build([3, 4], [], dict(hy), da),
          name + ' of two outputs')
    offer(ctx, lambda: build([3], [4], dict(hy), da), name + ' of an input')
    if name == 'categorical':
        offer(ctx, lambda: build([3], [], dict(hy), {}), 'categorical '
              'without k')
    positive = {'normal': ['r', 's', 'nu'], 'lognormal': ['r', 's', 'nu'],
                'exponential': 'ab', 'poisson': 'ab', 'geometric': 'ab',
                'vonmises': 'ak', 'bernoulli': ['alpha', 'beta']}
    for h in positive.get(name, ''):
        for x in (0., -1e-9, -float(rng.uniform(.1, 5))):
            offer(ctx, lambda: build([3], [], dict(hy, **{h: x}), da),
                  '%s with %s=%r' % (name, h, x))
    if name == 'vonmises':
        for x in (-.1, 6.3, 50.):
            offer(ctx, lambda: build([3], [], dict(hy, b=x), da),
                  'vonmises with b=%r' % x)
    ctx.true(args == before, 'arguments', '%s changed %s' % (name, before))
    # Queries of a model in use.
    from cgpm.primitives.distribution import DistributionGpm
    for r in range(4):
        m.incorporate(r, {3: prims.gen_value(name, rng, da)})
    x = prims.gen_value(name, rng, da)
    dig = lambda: [float(m.logpdf_score()), float(m.logpdf(-1, {3: x})),
                   Q.norm(m.data), Q.norm(m.get_hypers())]
    settable = dict(positive, categorical=['alpha'], crp=['alpha'])
    if name == 'vonmises':
        for b in (0., 6.28):
            offer(ctx, lambda: C([3], [], hypers=hy, rng=ctx.newrng()
                                 ).set_hypers(dict(m.get_hypers(), b=b)),
                  'vonmises set to b=%r' % b, good=True)
    for h in settable.get(name, ''):
        for bad in (0., -float(rng.uniform(.1, 5))):
            offer(ctx, lambda: m.set_hypers(dict(m.get_hypers(), **{h: bad})),
                  '%s set to %s=%r' % (name, h, bad), digest=dig)
    off = lambda f, what: offer(ctx, f, '%s %s' % (name, what), digest=dig)
    off(lambda: m.incorporate(9, {4: x}), 'recording another variable')
    off(lambda: m.incorporate(9, {3: x, 4: x}), 'recording two variables')
    off(lambda: m.incorporate(9, {3: x}, {4: 1}), 'recording with an input')
    off(lambda: m.incorporate(2, {3: x}), 'recording a row again')
    off(lambda: m.logpdf(-1, {4: x}), 'density of another variable')
    off(lambda: m.logpdf(-1, {3: x}, {4: x}), 'density under constraints')
    off(lambda: m.logpdf(-1, {3: x}, None, {4: x}), 'density with inputs')
    if name != 'crp':
        off(lambda: m.logpdf(2, {3: x}), 'density of a recorded row')
    off(lambda: m.simulate(-1, [4]), 'samples of another variable')
    off(lambda: m.simulate(-1, [3, 4]), 'samples of two variables')
    off(lambda: m.simulate(-1, [3], {4: 1}), 'samples under constraints')
    off(lambda: m.simulate(-1, [3], None, {4: 1}), 'samples with inputs')
    ctx.case(dict(model=name, hypers=hy, distargs=da))


@scenario(quick=24, thorough=120)
def mixture_definitions(ctx):
    from cgpm.mixtures.dim import Dim
    from cgpm.mixtures.view import View
    from cgpm.crosscat.state import State
    rng = ctx.rng
    n = int(rng.randint(2, 6))
    X, specs = mix.gen_table(rng, 5, n)
    cols = list(X)
    c = cols[0]
    s = specs[c]
    dim = lambda **kw: Dim(**dict(dict(
        outputs=[c], inputs=[90], cctype=s['cctype'],
        distargs=s['distargs'], rng=ctx.newrng()), **kw))
    offer(ctx, dim, 'a column', good=True)
    offer(ctx, lambda: dim(outputs=[]), 'a column of no output')
    offer(ctx, lambda: dim(outputs=[c, 91]), 'a column of two outputs')
    offer(ctx, lambda: dim(inputs=[]), 'a column without a cluster variable')
    offer(ctx, lambda: dim(cctype='gaussian'), 'a column of unknown type')

    def view(**kw):
        return View({o: list(X[o]) for o in X}, **dict(dict(
            outputs=[90] + cols, cctypes=[specs[o]['cctype'] for o in cols],
            distargs=[specs[o]['distargs'] for o in cols],
            rng=ctx.newrng()), **kw))
    offer(ctx, view, 'a view', good=True)
    offer(ctx, lambda: view(outputs=[90] + cols[:-1]), 'a view with a type '
          'too many')
    offer(ctx, lambda: view(inputs=[3]), 'a view with inputs')
    offer(ctx, lambda: view(outputs=[]), 'a view of nothing')
    offer(ctx, lambda: view(cctypes=[specs[o]['cctype'] for o in cols[:-1]]),
          'a view with a type too few')
    offer(ctx, lambda: view(distargs=[None] * (n + 1)), 'a view with an '
          'argument too many')
    offer(ctx, lambda: view(hypers=[None] * (n - 1)), 'a view with a '
          'hyperparameter set too few')
    # No types are needed without columns; defaults fill what is left out.
    offer(ctx, lambda: view(outputs=[90], cctypes=None, distargs=None),
          'a view without columns', good=True)
    if not any(specs[o]['distargs'] for o in cols):
        offer(ctx, lambda: view(distargs=None), 'a view without distargs',
              good=True)

    T = np.asarray([X[o] for o in cols], dtype=float).T

    def state(**kw):
        return State(T, **dict(dict(
            outputs=cols, cctypes=[specs[o]['cctype'] for o in cols],
            distargs=[specs[o]['distargs'] for o in cols],
            rng=ctx.newrng()), **kw))
    st = offer(ctx, state, 'a state', good=True)
    offer(ctx, lambda: state(inputs=[3]), 'a state with inputs')
    offer(ctx, lambda: state(Rd={0: [[1, 2]]}), 'a state with row '
          'dependences')
    offer(ctx, lambda: state(Ri={0: [(1, 2)]}), 'a state with row '
          'independences')
    offer(ctx, lambda: state(outputs=cols[:-1]), 'a state with a column '
          'name too few')
    offer(ctx, lambda: state(outputs=cols + [95]), 'a state with a column '
          'name too many')
    offer(ctx, lambda: state(outputs=cols[:-1] + [-2]), 'a state with a '
          'negative column')
    offer(ctx, lambda: state(
        outputs=[o + 40 for o in cols], Cd=[[40, 41]]),
        'a state with other than zero-based columns and constraints to '
        'simulate')
    offer(ctx, lambda: state(
        outputs=[o + 40 for o in cols], Ci=[(cols[0] + 40, cols[1] + 40)]),
        'a state with other than zero-based columns and constraints to '
        'simulate')
    from cgpm.crosscat.engine import Engine
    e = Engine(T, num_states=1, multiprocess=0, outputs=cols,
               cctypes=[specs[o]['cctype'] for o in cols],
               distargs=[specs[o]['distargs'] for o in cols],
               rng=ctx.newrng())
    for kw in (dict(X=T), dict(outputs=cols), dict(distargs=None),
               dict(cctypes=[specs[o]['cctype'] for o in cols]),
               dict(outputs=cols, alpha=1.)):
        offer(ctx, lambda: e.add_state(multiprocess=0, **kw),
              'another state with its own %s' % sorted(kw),
              digest=lambda: e.num_states())
    offer(ctx, lambda: e.add_state(multiprocess=0, alpha=1.),
          'another state', good=True)
    ctx.case(dict(columns=cols, types=[specs[o]['cctype'] for o in cols]))


# ------------------------------------------------------------------ queries ---

@scenario(quick=60, thorough=400)
def joint_queries(ctx):
    rng = ctx.rng
    name = [models.Kde, models.Knn, models.Factor][ctx.index % 3]
    ad = name(rng)
    m = ad.build(int(rng.randint(1000)))
    name = name.__name__
    rows = {}
    # Without enough data there is no estimate.
    if name in ('Kde', 'Knn'):
        o = list(m.outputs)
        need = 1 if name == 'Kde' else m.K
        for r in range(need):
            if r in (0, need - 1):
                t, c = [o[0]], {o[1]: ad.value(o[1])} if len(o) > 1 else {}
                q = {o[0]: ad.value(o[0])}
                offer(ctx, lambda: m.logpdf(None, q, c),
                      '%s logpdf with %d rows' % (name, r))
                offer(ctx, lambda: m.simulate(None, t, c),
                      '%s simulate with %d rows' % (name, r))
            m.incorporate(r, {c: ad.value(c) for c in o})
            rows[r] = ({c: ad.value(c) for c in o}, None)
    for r in range(len(rows), len(rows) + 12):
        rows[r] = ad.fresh_row()
        ad.record(m, r, rows[r])
    if not ad.usable(rows):
        raise Inconclusive('rows')
    if name == 'Factor':
        m.transition(N=1)
    qs = ad.queries(rows, 3)
    dig = lambda: Q.digest_model(m, ad, qs, rows)
    off = lambda f, what: offer(ctx, f, '%s %s' % (name, what), digest=dig)
    outs = list(m.outputs)
    val = lambda c: ad.value(c) if hasattr(ad, 'value') else \
        float(rng.normal())
    for t, c, _ in qs:
        c = dict(c or {})
        offer(ctx, lambda: m.logpdf(None, dict(t), dict(c)),
              '%s density of %s given %s' % (name, t, c), good=True)
        for kind, ask in [
                ('density', lambda tt, cc, **kw: m.logpdf(
                    None, dict(tt), dict(cc), **kw)),
                ('samples', lambda tt, cc, **kw: m.simulate(
                    None, list(tt), dict(cc), **kw))]:
            off(lambda: ask(t, c, inputs={990: 1.}), kind + ' with inputs')
            off(lambda: ask({}, c), kind + ' of nothing')
            off(lambda: ask(dict(t, **{}) | {990: 1.}, c),
                kind + ' of an unknown variable')
            k = sorted(t)[rng.randint(len(t))]
            off(lambda: ask(t, dict(c) | {k: t[k]}),
                kind + ' of a constrained variable')
            if name == 'Knn':
                off(lambda: ask(t, dict(c) | {990: 1.}),
                    kind + ' under an unknown constraint')
                e = sorted(c)[rng.randint(len(c))]
                off(lambda: ask(t, dict(c) | {e: float('nan')}),
                    kind + ' under a missing constraint')
        if name in ('Kde', 'Knn'):
            k = sorted(t)[rng.randint(len(t))]
            off(lambda: m.logpdf(None, dict(t) | {k: float('nan')}, c),
                'density of a missing value')
        if name == 'Knn':
            off(lambda: m.logpdf(None, dict(t), {}),
                'density without constraints')
            for N in (0, -1):
                off(lambda: m.simulate(None, list(t), c, N=N),
                    '%d samples' % N)
    o = sorted(outs)[0]
    obs, _ = ad.fresh_row()
    off(lambda: m.incorporate(99, dict(obs), {990: 1.}),
        'recording with inputs')
    off(lambda: m.incorporate(0, dict(obs)), 'recording a row again')
    off(lambda: m.incorporate(99, {}), 'recording nothing')
    off(lambda: m.incorporate(99, dict(obs) | {990: 1.}),
        'recording an unknown variable')
    off(lambda: m.unincorporate(99), 'removing an unknown row')
    if name == 'Factor':
        z = outs[-1]
        off(lambda: m.incorporate(99, dict(obs) | {z: .1}),
            'recording a latent variable')
    ctx.case(dict(model=name, outputs=outs, queries=[q[:2] for q in qs]))


def near(rng, x):
    """Another value close to x."""
    return float(x) * (1 + [-1, 1][rng.randint(2)] * .003) + (
        .003 if x == 0 else 0.)


@scenario(quick=48, thorough=300)
def state_queries(ctx):
    rng = ctx.rng
    st, X, specs = mix.random_state(rng, n_cols=int(rng.randint(2, 6)),
                                    missing=.3)
    h = hist.StateHistory(ctx, st, X, specs)
    for _ in range(int(rng.randint(0, 6))):
        h.step()
    st = h.state
    cols = list(st.outputs)
    if len(cols) < 2:
        raise Inconclusive('one column')
    dig = lambda: Q.digest_state(st)
    off = lambda f, what: offer(ctx, f, 'state: ' + what, digest=dig)
    p = [cols[i] for i in rng.permutation(len(cols))]
    a, b = p[0], p[1]
    x = {c: mix.gen_new_value(rng, h.specs[c]) for c in cols}
    new = [None, -1, st.n_rows(), st.n_rows() + 4][rng.randint(4)]
    off(lambda: st.simulate(new, [a, b, a]), 'samples of %s twice' % a)
    off(lambda: st.simulate(new, [a, b], {b: x[b]}),
        'samples of a constrained column')
    off(lambda: st.logpdf(new, {a: x[a], b: x[b]}, {b: x[b]}),
        'density of a constrained column')
    offer(ctx, lambda: st.simulate(new, [a], {b: x[b]}), 'samples', good=True)
    offer(ctx, lambda: st.logpdf(new, {a: x[a]}, {b: x[b]}), 'density',
          good=True)
    for r in range(st.n_rows()):
        seen = [c for c in cols if not mix.isnan(h.X[c][r])]
        gone = [c for c in cols if c not in seen]
        if seen:
            s = seen[rng.randint(len(seen))]
            off(lambda: st.logpdf(r, {s: h.X[s][r]}),
                'density of an observed cell')
            if len(gone) >= 1:
                g = gone[rng.randint(len(gone))]
                off(lambda: st.logpdf(r, {g: x[g], s: x[s]}),
                    'density of an observed cell, too')
                offer(ctx, lambda: st.logpdf(r, {g: x[g]}, {s: h.X[s][r]}),
                      'density of a missing cell', good=True)
                for other in (x[s], near(rng, h.X[s][r])):
                    if np.allclose(other, h.X[s][r]):
                        continue
                    off(lambda: st.logpdf(r, {g: x[g]}, {s: other}),
                        'density under another value of an observed cell')
                    off(lambda: st.simulate(r, [g], {s: other}),
                        'samples under another value of an observed cell')
        if r > 3:
            break
    ctx.case(dict(history=h.log, columns=cols))


@scenario(quick=48, thorough=300)
def view_queries(ctx):
    rng = ctx.rng
    v, X, specs = mix.random_view(rng)
    h = hist.ViewHistory(ctx, v, X, specs)
    for _ in range(int(rng.randint(0, 6))):
        h.step()
    z = v.outputs[0]
    cols = sorted(v.dims)
    rows = h.rows()
    dig = lambda: Q.digest_view(v)
    off = lambda f, what: offer(ctx, f, 'view: ' + what, digest=dig)
    ok = lambda f, what: offer(ctx, f, 'view: ' + what, good=True)
    x = {c: h.value(c) for c in cols}
    p = [cols[i] for i in rng.permutation(len(cols))]
    a, k = p[0], int(sorted(v.Nk())[rng.randint(len(v.Nk()))])
    new = [None, -1, h.n_all() + 3][rng.randint(3)]
    off(lambda: v.simulate(new, [a, z, a]), 'samples of %s twice' % a)
    off(lambda: v.simulate(new, [z, a, z]), 'samples of the cluster twice')
    off(lambda: v.simulate(new, [a, z], {z: k}),
        'samples of a constrained cluster')
    off(lambda: v.logpdf(new, {a: x[a], z: k}, {z: k}),
        'density of a constrained cluster')
    off(lambda: v.simulate(new, [a], {a: x[a]}),
        'samples of a constrained column')
    off(lambda: v.logpdf(new, {a: x[a]}, {a: x[a]}),
        'density of a constrained column')
    ok(lambda: v.simulate(new, [a], {z: k}), 'samples in a cluster')
    ok(lambda: v.logpdf(new, {a: x[a]}, {z: k}), 'density in a cluster')
    ok(lambda: v.logpdf(new, {z: k}, {a: x[a]}), 'density of a cluster')
    for r in rows[:4]:
        own = v.Zr(r)
        for c in (own, k):
            off(lambda: v.logpdf(r, {z: c}, {}),
                'density of the cluster of a row')
            off(lambda: v.logpdf(r, {a: x[a], z: c}, {}),
                'density of the cluster of a row, too')
            off(lambda: v.logpdf(r, {a: x[a]}, {z: c}),
                'density given the cluster of a row')
            off(lambda: v.simulate(r, [a], {z: c}),
                'samples given the cluster of a row')
        off(lambda: v.simulate(r, [z]), 'samples of the cluster of a row')
        off(lambda: v.simulate(r, [a, z]),
            'samples of the cluster of a row, too')
        seen = [c for c in cols if not mix.isnan(h.X[c][r])]
        for s in seen[:2]:
            g = [c for c in cols if c != s]
            if not g:
                continue
            g = g[rng.randint(len(g))]
            ok(lambda: v.logpdf(r, {g: x[g]}, {s: h.X[s][r]}),
               'density under an observed cell')
            for other in (x[s], near(rng, h.X[s][r])):
                if np.allclose(other, h.X[s][r]):
                    continue
                off(lambda: v.logpdf(r, {g: x[g]}, {s: other}),
                    'density under another value of an observed cell')
                off(lambda: v.simulate(r, [g], {s: other}),
                    'samples under another value of an observed cell')
    ctx.case(dict(history=h.log, columns=cols))
