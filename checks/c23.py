"""C23: regression models give coherent conditional distributions."""
import math

import numpy as np

import mix
import models
from vlib import scenario, uniform_test, chi2_pvalue, Inconclusive

RULE = ('a case is one regression model (input design, history, '
        'hyperparameters) and one input point, at which density, total mass, '
        'simulator, marginal likelihood or hyperparameter draw is compared '
        'with the definition; non-trivial when rows were recorded')


def make(ctx, cls, n=None, **kw):
    """Adapter, model with a history (some rows removed again), its rows."""
    rng = ctx.rng
    ad = cls(rng, **kw)
    m = ad.build(int(rng.randint(2**31 - 1)))
    rows = {}
    n = int(rng.choice([0, 0, 1, 1, 2, 2, 5, 5, 12, 12, 40, 40, 150])) if n is None else n
    ids = [int(i) for i in rng.permutation(100)[:n]]
    for r in ids:
        rows[r] = ad.fresh_row()
        ad.record(m, r, rows[r])
        if rng.rand() < .1:
            m.unincorporate(r)
            del rows[r]
    return ad, m, rows


def mass(f, lo, hi):
    """Integral by adaptive quadrature over pieces."""
    from scipy import integrate
    pts = np.linspace(lo, hi, 41)
    return math.fsum(integrate.quad(f, a, b, limit=100)[0]
                     for a, b in zip(pts, pts[1:]))


@scenario(quick=60, thorough=800, timeout=240)
def linreg_density(ctx):
    ad, m, rows = make(ctx, models.LinReg)
    rng = ctx.rng
    for round_ in range(2):
        w = dict(ad.desc(), hypers=ad.hypers, rows=rows)
        for q in ad.queries(rows, 6):
            ctx.close(ad.ask(m, q), ad.ref(m, rows, q), 'linreg:density',
                      'linreg logpdf(%r | %r)' % (q[0], q[2]), 1e-6, 1e-5,
                      query=q, **w)
            # far out in the tails too
            far = ({ad.outputs[0]: q[0][ad.outputs[0]] * 100}, None, q[2])
            ctx.close(ad.ask(m, far), ad.ref(m, rows, far), 'linreg:density',
                      'linreg logpdf(%r | %r)' % (far[0], q[2]), 1e-6, 1e-5,
                      query=far, **w)
            ctx.case(dict(w, q=q, h=m.get_hypers()), bool(rows))
        ctx.close(m.logpdf_score(), ad.ref_score(m, rows), 'linreg:score',
                  'linreg logpdf_score', 1e-6, 1e-5 * (1 + len(rows)), **w)
        # chain rule
        q = ad.queries(rows, 1)[0]
        if all(not k or q[2][c] < k for c, k in zip(ad.inputs, ad.kinds)):
            before = m.logpdf_score()
            lp = ad.ask(m, q)
            m.incorporate(777, dict(q[0]), dict(q[2]))
            ctx.close(m.logpdf_score() - before, lp, 'linreg:chain',
                      'linreg score gained by recording %r' % (q,), 1e-6,
                      1e-5 * (2 + len(rows)), **w)
            m.unincorporate(777)
        if rows:
            m.transition(N=1)


@scenario(quick=24, thorough=240, timeout=240)
def linreg_mass(ctx):
    ad, m, rows = make(ctx, models.LinReg)
    for q in ad.queries(rows, 2):
        df, loc, sc = ad.t_params(m, rows, q[2])
        # over the quantile scale, where tails are finite
        from scipy import stats
        t = stats.t(df, loc, sc)

        def f(u):
            x = t.ppf(u)
            return math.exp(ad.ask(m, ({ad.outputs[0]: float(x)}, None,
                                       q[2])) - t.logpdf(x))
        us = (np.arange(200) + .5) / 200
        tot = float(np.mean([f(u) for u in us]))
        ctx.close(tot, 1., 'linreg:mass', 'total probability of the response '
                  'given %r' % (q[2],), 1e-4, 1e-4, rows=rows, **ad.desc())
        ctx.case(dict(ad.desc(), q=q, rows=rows), bool(rows))


@scenario(quick=36, thorough=360, timeout=300)
def linreg_simulate(ctx):
    ad, m, rows = make(ctx, models.LinReg)
    if rows and ctx.rng.rand() < .5:
        m.transition(N=2)
    q = ad.queries(rows, 1)[0]
    F = ad.cdf(m, rows, q[2])
    o = ad.outputs[0]

    def test(n):
        s = m.simulate(None, [o], None, dict(q[2]), n)
        ctx.count('samples drawn', n)
        ctx.true(isinstance(s, list) and len(s) == n and all(
            list(x) == [o] for x in s), 'linreg:shape',
            'simulate of %d samples returned %r' % (n, s[:2]))
        return uniform_test([[u] for u in F(np.array([x[o] for x in s]))])
    w = dict(ad.desc(), inputs=q[2], rows=rows, hypers=ad.hypers)
    ctx.stat('linreg:simulate', 'linreg simulate given %r' % (q[2],), test,
             200, **w)
    one = m.simulate(None, [o], None, dict(q[2]))
    ctx.true(isinstance(one, dict) and list(one) == [o], 'linreg:shape',
             'single sample %r' % (one,))
    # a recorded row is its own sample
    if rows:
        r = sorted(rows)[0]
        s = m.simulate(r, [o], None, dict(rows[r][1]))
        ctx.true(s == {o: rows[r][0][o]}, 'linreg:recorded-row',
                 'sample of recorded row %r, recorded %r' % (s, rows[r]))
    ctx.case(w, bool(rows))


@scenario(quick=20, thorough=200, timeout=300)
def linreg_hypers(ctx):
    """Every draw of a hyperparameter has the conditional's weights."""
    rng = ctx.rng
    ad, m, rows = make(ctx, models.LinReg, n=int(rng.choice([1, 4, 12])))
    while not rows:
        ad, m, rows = make(ctx, models.LinReg, n=3)
    srng = mix.RecordingRng(int(rng.randint(2**31 - 1)))
    m.rng = srng
    srng.steer = ctx.newrng() if rng.rand() < .5 else None
    from cgpm.regressions.linreg import LinearRegression

    class At(object):
        def __init__(self, h):
            self.h = h

        def get_hypers(self):
            return self.h
    for _ in range(2):
        # the grids a move uses, as any caller would construct them
        grids = LinearRegression.construct_hyper_grids(
            list(m.data.x.values()), n_grid=30)
        old = {k: float(v) for k, v in m.get_hypers().items()}
        srng.log, srng.on = [], True
        m.transition(N=1)
        srng.on = False
        new = {k: float(v) for k, v in m.get_hypers().items()}
        # draws with probabilities over a grid of 30
        got = [(p, r) for _, p, _, r in srng.log if len(p) == 30]
        w = dict(ad.desc(), rows=rows, old=old, new=new)
        for h in 'ab':
            ctx.true(any(abs(new[h] - g) < 1e-12 * max(1, g)
                         for g in grids[h]) and new[h] > 0,
                     'linreg:hyper-grid', '%s moved to %r, not on its grid'
                     % (h, new[h]), **w)
        if len(got) != 2:
            ctx.count('moves not visible')
            continue

        def cond(h, others):
            lp = np.array([ad.ref_score(At(dict(others, **{h: float(g)})),
                                        rows) for g in grids[h]])
            p = np.exp(lp - lp.max())
            return p / p.sum()
        ok = False
        for first, second in ('ab', 'ba'):
            p1 = cond(first, old)
            mid = dict(old, **{first: new[first]})
            p2 = cond(second, mid)
            if max(np.abs(got[0][0] - p1).max(),
                   np.abs(got[1][0] - p2).max()) < 1e-5:
                ok = True
        ctx.true(ok, 'linreg:hyper-weights', 'weights of the hyperparameter '
                 'moves are in neither order the conditionals', **w)
        ctx.case(w, True)


@scenario(quick=48, thorough=600, timeout=240)
def ols(ctx):
    rng = ctx.rng
    ad, m, rows = make(ctx, models.Ols, n=int(rng.choice([14, 25, 60])))
    if not ad.usable(rows):
        raise Inconclusive('no unique fit')
    m.transition()
    fitted = dict(rows)
    o = ad.outputs[0]
    for rnd in range(3):
        w = dict(ad.desc(), rows=fitted)
        wts, s = ad.fit(fitted)
        ctx.close(m.get_params()['noise'], s, 'ols:noise',
                  'noise scale of the fit', 1e-6, 1e-9, **w)
        for q in ad.queries(rows, 4):
            ctx.close(ad.ask(m, q), ad.ref(m, fitted, q), 'ols:density',
                      'ols logpdf(%r | %r)' % (q[0], q[2]), 1e-6, 1e-6,
                      query=q, **w)
            mean = float(ad.phi(q[2]) @ wts)
            tot = mass(lambda x: math.exp(ad.ask(m, (
                {o: x}, None, q[2]))), mean - 9 * s, mean + 9 * s) \
                if rng.rand() < .1 else 1.
            ctx.close(tot, 1., 'ols:mass', 'total probability', 1e-5, 1e-5,
                      **w)
            xs = m.simulate(None, [o], None, dict(q[2]), 40)
            ctx.true(isinstance(xs, list) and len(xs) == 40 and all(
                list(x) == [o] for x in xs), 'ols:shape',
                'simulate of 40 samples returned %r' % (xs[:2],), **w)
            xs = np.array([x[o] for x in xs], dtype=float)
            if np.ptp(xs) == 0:
                # see the finding: the noise of the simulator is disabled
                ctx.close(xs[0], mean, 'ols:simulate-mean',
                          'constant sample given %r' % (q[2],), 1e-7, 1e-7,
                          **w)
                ctx.count('noiseless samples')
            else:
                from scipy import stats

                def test(n, q=q, mean=mean):
                    y = [x[o] for x in m.simulate(None, [o], None,
                                                  dict(q[2]), n)]
                    return uniform_test([[u] for u in stats.norm.cdf(
                        y, mean, s)])
                ctx.stat('ols:simulate', 'ols simulate given %r' % (q[2],),
                         test, 200, **w)
            ctx.case(dict(w, q=q), True)
        # new rows count only after the next fit
        for r in range(200 + 5 * rnd, 203 + 5 * rnd):
            rows[r] = ad.fresh_row()
            ad.record(m, r, rows[r])
        victim = sorted(rows)[int(rng.randint(len(rows)))]
        m.unincorporate(victim)
        del rows[victim]
        if rng.rand() < .6 and ad.usable(rows):
            m.transition()
            fitted = dict(rows)


@scenario(quick=1, thorough=1, timeout=120)
def ols_simulator_noise(ctx):
    """One fixed model: samples of the response vary as its density says."""
    from cgpm.regressions.ols import OrdinaryLeastSquares
    m = OrdinaryLeastSquares(
        [0], [1], distargs={'inputs': {'stattypes': ['normal'],
                                       'statargs': [{}]}},
        rng=np.random.RandomState(1))
    rng = np.random.RandomState(2)
    for i in range(50):
        x = float(rng.normal())
        m.incorporate(i, {0: 2 * x + float(rng.normal())}, {1: x})
    m.transition()
    s = m.get_params()['noise']
    xs = np.array([x[0] for x in m.simulate(None, [0], None, {1: .3}, 200)])
    ctx.case('ols simulator noise')
    if np.ptp(xs) == 0:
        ctx.fail('ols:noise-disabled', 'OrdinaryLeastSquares.simulate '
                 'returns the fitted mean every time, density has scale %r'
                 % s)
    else:
        ctx.true(.5 < np.std(xs) / s < 2, 'ols:noise-scale',
                 'samples have scale %r, density %r' % (np.std(xs), s))


@scenario(quick=24, thorough=240, timeout=300)
def forest(ctx):
    rng = ctx.rng
    ad, m, rows = make(ctx, models.Forest, n=int(rng.choice([0, 3, 15, 30])))
    o = ad.outputs[0]
    for rnd in range(3):
        w = dict(ad.desc(), k=ad.k, rows=rows)
        for q in ad.queries(rows, 3):
            p = ad.proba(m, q[2])
            got = [m.logpdf(None, {o: x if rng.rand() < .5 else float(x)},
                            None, dict(q[2])) for x in range(ad.k)]
            for x in range(ad.k):
                ctx.close(got[x], math.log(p[x]) if p[x] > 0 else -models.INF,
                          'forest:density', 'forest logpdf(%d | %r)' % (
                              x, q[2]), 1e-7, 1e-7, **w)
            ctx.close(math.fsum(math.exp(g) for g in got), 1.,
                      'forest:mass', 'class probabilities given %r' % (
                          q[2],), 1e-9, 1e-9, **w)
            for bad in (-1, ad.k, ad.k + 3, .5):
                ctx.true(m.logpdf(None, {o: bad}, None, dict(q[2])) ==
                         -models.INF, 'forest:outside',
                         'category %r of %d has positive density' % (
                             bad, ad.k), **w)
            ctx.case(dict(w, q=q, rnd=rnd), bool(rows))
        q = ad.queries(rows, 1)[0]
        p = ad.proba(m, q[2])

        def test(n):
            s = m.simulate(None, [o], None, dict(q[2]), n)
            ctx.count('samples drawn', n)
            ctx.true(len(s) == n and all(list(x) == [o] for x in s),
                     'forest:shape', '%r' % (s[:2],))
            c = {}
            for x in s:
                c[int(x[o])] = c.get(int(x[o]), 0) + 1
            return chi2_pvalue(c, dict(enumerate(p)))
        ctx.stat('forest:simulate', 'forest simulate given %r' % (q[2],),
                 test, 40, **w)
        ctx.close(m.logpdf_score(), ad.ref_score(m, rows), 'forest:score',
                  'forest logpdf_score', 1e-7, 1e-6, **w)
        if rows:
            r = sorted(rows)[0]
            s = m.simulate(r, [o], None, dict(rows[r][1]))
            ctx.true(s == {o: rows[r][0][o]}, 'forest:recorded-row',
                     'sample of recorded row %r, recorded %r' % (s, rows[r]))
        # the noise level is drawn from its conditional under the old forest,
        # then the forest is grown on the rows recorded now
        srng = mix.RecordingRng(int(rng.randint(2**31 - 1)))
        if rng.rand() < .5:
            srng.steer = ctx.newrng()
        m.rng = srng
        grid = np.linspace(.01, .99, 30)
        X = list(rows.values())
        base = []
        alpha0 = m.get_params()['alpha']
        for ob, i in X:
            pr = ad.proba(m, i)[int(ob[o])]
            # invert the mixture to get the forest's own probability
            base.append((pr - alpha0 / ad.k) / (1 - alpha0))
        fitted = hasattr(m.get_params()['forest'], 'classes_')
        srng.log, srng.on = [], True
        m.transition()
        srng.on, srng.steer = False, None
        alpha = m.get_params()['alpha']
        ctx.true(any(abs(alpha - g) < 1e-12 for g in grid), 'forest:alpha',
                 'noise level %r is off its grid' % alpha, **w)
        got = [p for _, p, _, _ in srng.log if len(p) == 30]
        if got:
            lp = np.array([math.fsum(
                math.log(max(a / ad.k + (1 - a) * b, 1e-300)) for b in base)
                if fitted else 0. for a in grid])
            want = np.exp(lp - lp.max())
            want /= want.sum()
            ctx.true(np.abs(got[0] - want).max() < 1e-6,
                     'forest:alpha-weights', 'noise level drawn with weights '
                     '%r, conditional %r' % (got[0][:5], want[:5]), **w)
            ctx.count('noise levels compared')
        if rows:
            rf = m.get_params()['forest']
            cls = sorted({int(ob[o]) for ob, _ in X})
            ctx.true([int(c) for c in rf.classes_] == cls,
                     'forest:classes', 'forest grown for classes %r, rows '
                     'have %r' % (list(rf.classes_), cls), **w)
            ctx.true(all(abs(t.tree_.weighted_n_node_samples[0] - len(X))
                         < 1e-9 for t in rf.estimators_), 'forest:rows',
                     'forest grown on %r rows, %d recorded' % (
                         rf.estimators_[0].tree_.weighted_n_node_samples[0],
                         len(X)), **w)
        for r in range(300 + 5 * rnd, 302 + 5 * rnd):
            rows[r] = ad.fresh_row()
            ad.record(m, r, rows[r])


@scenario(quick=6, thorough=60, timeout=300)
def forest_learns(ctx):
    """A response determined by one input: the forest assigns it most of the
    mass, so inputs reach the forest in one and the same order always."""
    rng = ctx.rng
    ad = models.Forest(rng)
    m = ad.build(3)
    o, key = ad.outputs[0], ad.inputs[int(rng.randint(len(ad.inputs)))]
    k = ad.kinds[ad.inputs.index(key)]

    def truth(i):
        v = i[key]
        return int(v) % ad.k if k else int(v > 0)
    for r in range(50):
        i = ad.fresh_inputs()
        m.incorporate(r, {o: truth(i)}, i)
    m.transition(N=2)
    hits, n = 0., 0
    for _ in range(60):
        i = ad.fresh_inputs()
        if not k and abs(i[key]) < .2 * ad.scale:
            continue
        hits += math.exp(m.logpdf(None, {o: truth(i)}, None, i))
        n += 1
    ctx.true(hits / n > .6, 'forest:order', 'mean probability of the '
             'determined response is %.3f' % (hits / n), **ad.desc())
    ctx.case(dict(ad.desc(), key=key), True)


@scenario(quick=24, thorough=240, timeout=240)
def inputs_demanded(ctx):
    rng = ctx.rng
    cls = [models.LinReg, models.Ols, models.Forest][ctx.index % 3]
    ad, m, rows = make(ctx, cls, n=20)
    if cls is models.Ols:
        m.transition()
    name, o = ad.name, ad.outputs[0]
    for _ in range(6):
        obs, i = ad.fresh_row()
        drop = int(rng.choice(ad.inputs))
        less = {c: v for c, v in i.items() if c != drop}
        more = dict(i)
        more[99] = 1.
        own = dict(i)
        own[o] = obs[o]
        bad = [('missing input', less), ('response as input', own)]
        bad.append(('unknown input', more))
        if cls is not models.LinReg:
            bad.append(('nan input', dict(i, **{}) | {drop: float('nan')}))
        cats = [(c, k) for c, k in zip(ad.inputs, ad.kinds) if k]
        if cats and cls is not models.Forest:
            c, k = cats[int(rng.randint(len(cats)))]
            bad.append(('category too large', i | {c: k + 1}))
            bad.append(('negative category', i | {c: -1}))
            if cls is models.Ols:
                bad.append(('category too large', i | {c: k}))
            bad.append(('fractional category', i | {c: .5}))
        for what, inp in bad:
            excs = (ValueError, TypeError) if 'fractional' in what else \
                ValueError
            ctx.raises(excs, lambda: m.incorporate(500, dict(obs), inp),
                       name + ':inputs', '%s: incorporate with %s %r' % (
                           name, what, inp), **ad.desc())
            ctx.raises(excs, lambda: m.logpdf(None, dict(obs), None, inp),
                       name + ':inputs', '%s: logpdf with %s %r' % (
                           name, what, inp), **ad.desc())
            ctx.raises(excs, lambda: m.simulate(None, [o], None, inp),
                       name + ':inputs', '%s: simulate with %s %r' % (
                           name, what, inp), **ad.desc())
        for what, ob in [('no response', {}), ('nan response', {
                o: float('nan')})]:
            ctx.raises(ValueError, lambda: m.incorporate(501, ob, dict(i)),
                       name + ':response', '%s: incorporate with %s' % (
                           name, what), **ad.desc())
        # and the valid row is still welcome
        m.incorporate(500, dict(obs), dict(i))
        m.unincorporate(500)
        ctx.case(dict(ad.desc(), name=name, i=i), True)
