"""C01: univariate predictives and marginals are exact and normalised."""
import math

import numpy as np
from scipy import integrate, special

import prims
from vlib import scenario, same

RULE = ('a case is one univariate model (type, hyperparameters, distargs, '
        'history of values); non-trivial when it holds at least one '
        'observation; distinct by its full description')


def build(ctx, name, n, large=False):
    rng = ctx.rng
    distargs = (prims.large_distargs if large else prims.gen_distargs)(
        name, rng)
    hypers = prims.gen_hypers(name, rng) if rng.rand() > .1 else None
    params = prims.gen_params(name, distargs, rng)
    m = prims.make(name, rng.randint(2**31), hypers, distargs, params)
    hypers = dict(m.get_hypers())
    data = prims.gen_data(name, rng, n, distargs)
    return m, hypers, distargs, params, data


def tol(name, m, data):
    if name == 'vonmises' and len(data) * m.get_hypers()['k'] > 500:
        return 2e-3         # documented asymptotic form of the normaliser
    return 1e-6


def one(ctx, name, n):
    m, hypers, distargs, params, data = build(ctx, name, n)
    desc = dict(type=name, hypers=hypers, distargs=distargs, params=params,
                data=data)
    t = tol(name, m, data)
    prev = m.logpdf_score()
    base = 0. if name in prims.COLLAPSED else prims.prior(
        name, params, distargs)
    ctx.close(prev, base, name + ':score:empty',
              '%s empty score' % name, t, t, **desc)
    seen = []
    for i, x in enumerate(data):
        lp = m.logpdf(-1, {0: x})
        ref = prims.predictive(name, x, seen, hypers, distargs, params)
        ctx.close(lp, ref, name + ':predictive',
                  '%s predictive of %r after %d values' % (name, x, i),
                  t, t, **desc)
        m.incorporate(1000 - i, {0: x})
        seen.append(x)
        score = m.logpdf_score()
        ctx.close(score - prev, lp, name + ':chain',
                  '%s score increment' % name, 10 * t,
                  10 * t * (1 + 1e-3 * abs(score)), **desc)
        prev = score
    ref = prims.marginal(name, seen, hypers, distargs, params)
    ctx.close(prev, ref, name + ':score', '%s score of %d values' % (
        name, n), t, t * (1 + n), **desc)
    # Predictive at further points of the support.
    for x in prims.gen_data(name, ctx.rng, 6, distargs) + \
            prims.boundary(name, distargs):
        ctx.close(m.logpdf(-1, {0: x}), prims.predictive(
            name, x, seen, hypers, distargs, params), name + ':predictive',
            '%s predictive at %r' % (name, x), t, 10 * t, **desc)
    ctx.close(m.logpdf(None, {0: seen[0] if seen else x}),
              m.logpdf(-1, {0: seen[0] if seen else x}), name + ':rowid-none',
              'a hypothetical row is the same however it is named', **desc)
    ctx.close(m.logpdf_score(), prev, name + ':query-changes-score',
              'score after queries', 0, 0, **desc)
    ctx.case(desc, n > 0)
    return m, desc, seen, hypers, distargs, params


@scenario(quick=660, thorough=4400, timeout=120)
def sequences(ctx):
    name = prims.ALL[ctx.index % len(prims.ALL)]
    for _ in range(8):
        n = int(ctx.rng.choice([0, 1, 2, 3, 5, 9, 20]))
        one(ctx, name, n)


@scenario(quick=220, thorough=1100, timeout=120)
def normalisation(ctx):
    name = prims.ALL[ctx.index % len(prims.ALL)]
    for _ in range(3):
        m, desc, seen, hypers, distargs, params = one(
            ctx, name, int(ctx.rng.choice([0, 1, 4, 12])))
        f = lambda x: math.exp(m.logpdf(-1, {0: x}))
        if name == 'bernoulli':
            total = f(0) + f(1)
        elif name == 'categorical':
            total = sum(f(i) for i in range(distargs['k']))
        elif name == 'crp':
            total = sum(f(i) for i in set(seen)) + f(max(seen or [0]) + 1)
        elif name in ('geometric', 'poisson'):
            # sum until the reference tail is negligible, plus that tail
            N = 3000
            total = math.fsum(f(i) for i in range(N))
            if name == 'poisson':
                from scipy import stats
                a, b = hypers['a'] + sum(seen), hypers['b'] + len(seen)
                total += stats.nbinom.sf(N - 1, a, b / (b + 1.))
            else:
                a, b = hypers['a'] + len(seen), hypers['b'] + sum(seen)
                total += math.exp(special.betaln(a, b + N)
                                  - special.betaln(a, b))
        else:
            lo, hi = {'exponential': (0, np.inf), 'lognormal': (0, np.inf),
                      'normal': (-np.inf, np.inf),
                      'vonmises': (0, 2 * math.pi), 'beta': (0, 1),
                      'normal_trunc': (distargs or {}).get('l') is not None
                      and (distargs['l'], distargs['h'])}[name]
            if name in ('normal', 'lognormal'):
                h = hypers
                d = [math.log(v) for v in seen] if name == 'lognormal' \
                    else seen
                c, r, s, nu = prims._nig(d, h['m'], h['r'], h['s'], h['nu'])
                sc = math.sqrt(s * (r + 1) / (r * nu))
                # substitute x = c + sc*sinh(u) so that heavy tails converge

                def g(u):
                    z = c + sc * math.sinh(u)
                    j = sc * math.cosh(u)
                    if name == 'lognormal':
                        if abs(z) > 600:
                            return 0.
                        e = math.exp(z)
                        return f(e) * e * j
                    return f(z) * j
                top = 30. / min(1., nu) if name == 'normal' else 40.
                top = min(top, 60.)
                total = 0.
                for a, b in ((-top, -5), (-5, 0), (0, 5), (5, top)):
                    total += integrate.quad(g, a, b, limit=400)[0]
                if name == 'lognormal':
                    # mass beyond |log x| > 600, by the reference form
                    from scipy import stats
                    total += stats.t.cdf(-600, nu, c, sc) + stats.t.sf(
                        600, nu, c, sc)
            elif name == 'exponential':
                an, bn = hypers['a'] + len(seen), hypers['b'] + math.fsum(seen)
                g = lambda u: f(bn * math.expm1(u)) * bn * math.exp(u)
                total = integrate.quad(g, 0, 5 / an, limit=400)[0] + \
                    integrate.quad(g, 5 / an, 60 / an, limit=400)[0]
            elif name == 'beta':
                # u -> u^2(3-2u) flattens integrable end-point singularities
                s, b = params['strength'], params['balance']
                g = lambda u: f(u * u * (3 - 2 * u)) * 6 * u * (1 - u)
                total = integrate.quad(g, 0, .5, limit=600)[0] + \
                    integrate.quad(g, .5, 1, limit=600)[0]
            else:
                pts = np.linspace(lo, hi, 9)
                total = sum(integrate.quad(f, a, b, limit=200)[0]
                            for a, b in zip(pts, pts[1:]))
        ctx.close(total, 1., name + ':normalisation',
                  '%s total probability' % name, 2e-4, 2e-4, **desc)
        ctx.count('densities integrated')


@scenario(quick=88, thorough=440, timeout=120)
def long_histories(ctx):
    """Many values, and values far from the prior."""
    name = prims.ALL[ctx.index % len(prims.ALL)]
    m, hypers, distargs, params, data = build(
        ctx, name, int(ctx.rng.choice([150, 300])), True)
    if name == 'crp':
        data = prims.large_crp(ctx.rng, len(data))
    if name in ('normal',):
        shift = ctx.rng.choice([0, 30., -200.])
        data = [d + shift for d in data]
    if name in ('lognormal',):
        data = [d * 20 for d in data]
    desc = dict(type=name, hypers=hypers, n=len(data), first=data[:5])
    for i, x in enumerate(data):
        m.incorporate(i, {0: x})
    t = 1e-5 if name != 'vonmises' else 2e-3
    ctx.close(m.logpdf_score(), prims.marginal(
        name, data, hypers, distargs, params), name + ':score',
        '%s score of %d values' % (name, len(data)), t, t, **desc)
    for x in prims.gen_data(name, ctx.rng, 10, distargs):
        ctx.close(m.logpdf(None, {0: x}), prims.predictive(
            name, x, data, hypers, distargs, params), name + ':predictive',
            '%s predictive' % name, t, t, **desc)
    ctx.case(desc)


@scenario(quick=90, thorough=450, timeout=60)
def changed_hypers(ctx):
    """set_hypers takes effect for every later query."""
    name = prims.COLLAPSED[ctx.index % len(prims.COLLAPSED)]
    for _ in range(4):
        m, hypers, distargs, params, data = build(
            ctx, name, int(ctx.rng.randint(0, 6)))
        for i, x in enumerate(data):
            m.incorporate(i, {0: x})
        h2 = prims.gen_hypers(name, ctx.rng)
        m.set_hypers(h2)
        desc = dict(type=name, hypers=h2, distargs=distargs, data=data)
        got = m.get_hypers()
        for k in h2:
            ctx.close(got[k], h2[k], name + ':hypers', 'hypers read back',
                      0, 0, **desc)
        x = prims.gen_value(name, ctx.rng, distargs)
        ctx.close(m.logpdf(-1, {0: x}), prims.predictive(
            name, x, data, h2, distargs), name + ':predictive',
            '%s predictive after set_hypers' % name, 1e-6, 1e-6, **desc)
        ctx.close(m.logpdf_score(), prims.marginal(
            name, data, h2, distargs), name + ':score',
            '%s score after set_hypers' % name, 1e-6, 1e-5, **desc)
        ctx.case(desc)


@scenario(quick=1, thorough=2, timeout=60)
def large_offset(ctx):
    """Data far from zero (time stamps, say): the centred form is unaffected,
    a difference of large sums is not."""
    for offset in (1e9, 1.4e9):
        data = [offset + d for d in (-7., -2., 0., 1., 3., 8.)]
        m = prims.make('normal', 1, dict(m=offset, r=1., s=1., nu=1.))
        ref = prims.marginal('normal', data, m.get_hypers())
        try:
            for i, x in enumerate(data):
                m.incorporate(i, {0: x})
            got, lp = m.logpdf_score(), m.logpdf(None, {0: offset})
        except ValueError as e:
            got = lp = str(e)
        ctx.close(got, ref, 'normal:large-offset', 'score of %r' % data,
                  1e-3, 1e-3)
        ctx.close(lp, prims.predictive(
            'normal', offset, data, m.get_hypers()), 'normal:large-offset',
            'predictive given %r' % data, 1e-3, 1e-3)
        ctx.case(dict(offset=offset))


def extreme_hypers(name, rng):
    """Legal hyperparameters far outside the everyday range."""
    h = prims.gen_hypers(name, rng)
    for k in h:
        if (name, k) in (('vonmises', 'b'), ('normal', 'm'),
                         ('lognormal', 'm'), ('geometric', 'a')):
            continue
        h[k] = float(h[k]) * 10 ** rng.uniform(-2, 2.3)
    if name == 'vonmises' and rng.rand() < .6:
        h[rng.choice(['a', 'k'])] = float(rng.uniform(600, 1500))
    return h


def extreme_value(name, rng, distargs):
    x = prims.gen_value(name, rng, distargs)
    if rng.rand() < .5:
        if name in ('geometric', 'poisson'):
            return int(x * 10 ** rng.uniform(0, 4))
        if name in ('normal', 'exponential'):
            return float(x * 10 ** rng.uniform(-4, 4))
        if name == 'lognormal':
            return float(x ** rng.uniform(-8, 8))
        if name == 'vonmises':
            return float(min(2 + .05 * rng.normal(), prims.PI2))
    return x


@scenario(quick=90, thorough=900, timeout=60)
def extremes(ctx):
    """Very small and very large hyperparameters and values."""
    name = prims.COLLAPSED[ctx.index % len(prims.COLLAPSED)]
    for _ in range(6):
        distargs = prims.gen_distargs(name, ctx.rng)
        h = extreme_hypers(name, ctx.rng)
        m = prims.make(name, 1, dict(h), distargs)
        data = [extreme_value(name, ctx.rng, distargs)
                for _ in range(int(ctx.rng.randint(0, 6)))]
        desc = dict(type=name, hypers=h, distargs=distargs, data=data)
        t = 4e-3 if name == 'vonmises' else 1e-5
        for i, x in enumerate(data):
            m.incorporate(i, {0: x})
        if name == 'vonmises' and prims.marginal(
                name, data, h, distargs) == -prims.INF:
            continue
        ctx.close(m.logpdf_score(), prims.marginal(name, data, h, distargs),
                  name + ':score', '%s score under extreme hyperparameters'
                  % name, t, t, **desc)
        for x in [extreme_value(name, ctx.rng, distargs) for _ in range(3)]:
            ctx.close(m.logpdf(None, {0: x}), prims.predictive(
                name, x, data, h, distargs), name + ':predictive',
                '%s predictive of %r under extreme hyperparameters'
                % (name, x), t, t, **desc)
        ctx.case(desc)
