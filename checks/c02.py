"""C02: univariate simulators draw from the reported density."""
import collections
import math

import numpy as np

import prims
from vlib import scenario, chi2_pvalue, ks_pvalue, serial_pvalue

RULE = ('a case is one univariate model with a history, whose simulator is '
        'compared with its own density; non-trivial when at least 200 samples '
        'were drawn')


def build(ctx, name, large=False):
    rng = ctx.rng
    distargs = (prims.large_distargs if large else prims.gen_distargs)(
        name, rng)
    hypers = prims.gen_hypers(name, rng)
    params = prims.gen_params(name, distargs, rng)
    m = prims.make(name, rng.randint(2**31), hypers, distargs, params, 7)
    n = int(rng.choice([0, 1, 2, 4, 10, 40]))
    if large:
        n = int(rng.randint(100, 300))
    data = prims.gen_data(name, rng, n, distargs)
    if large and name == 'crp':
        data = prims.large_crp(rng, n)
    for i, x in enumerate(data):
        m.incorporate(i, {7: x})
    # leave some behind
    if len(data) > 4 and rng.rand() < .5:
        m.unincorporate(2)
        del data[2]
    return m, dict(m.get_hypers()), distargs, params, data


def rounded(name, x, params):
    """Is x a draw from the support which no float of the support is near?
    exp() of a heavy-tailed draw may leave the float range, and a beta whose
    mass crowds at an end is rounded to that end."""
    if name == 'lognormal':
        return x in (0., float('inf'))
    if name == 'beta' and x in (0., 1.):
        cdf = prims.cdf_fn('beta', [], {}, None, params)
        mass = cdf(1e-300) if x == 0. else 1 - cdf(1 - 2.**-53)
        return mass > 1e-9
    return False


def both(*ps):
    ps = [p for p in ps if p is not None]
    return min(1., len(ps) * min(ps)) if ps else None


@scenario(quick=440, thorough=1100, timeout=240)
def goodness_of_fit(ctx):
    name = prims.ALL[ctx.index % len(prims.ALL)]
    fits(ctx, name, *build(ctx, name))


@scenario(quick=44, thorough=220, timeout=240)
def many_rows(ctx):
    """Hundreds of rows, dozens of categories and tables."""
    name = prims.ALL[ctx.index % len(prims.ALL)]
    fits(ctx, name, *build(ctx, name, True))


def fits(ctx, name, m, hypers, distargs, params, data):
    desc = dict(type=name, hypers=hypers, distargs=distargs, params=params,
                data=data)
    rng2 = np.random.RandomState(ctx.index)

    def test(n):
        xs = [s[7] for s in m.simulate(None, [7], N=n)]
        ctx.count('samples drawn', n)
        bad = [x for x in xs if not prims.support(name, x, distargs)
               and not rounded(name, x, params)]
        ctx.true(not bad, name + ':support', '%s simulated %r' % (
            name, bad[:3]), **desc)
        for x in [x for x in xs[:60] if x not in bad
                  and 0 <= abs(x) < 1e300 and (name, x) != ('lognormal', 0)]:
            ctx.close(m.logpdf(None, {7: x}), prims.predictive(
                name, x, data, hypers, distargs, params), name + ':density',
                '%s density of simulated value %r' % (name, x), 1e-5, 1e-5,
                **desc)
        if name in prims.DISCRETE:
            obs = collections.Counter(int(x) for x in xs)
            if name == 'bernoulli':
                keys = [0, 1]
            elif name == 'categorical':
                keys = range(distargs['k'])
            elif name == 'crp':
                keys = sorted(set(data)) + [max(data or [-1]) + 1]
            else:
                keys = range(0, min(max(obs), 1500) + 1)
            probs = {k: math.exp(m.logpdf(None, {7: k})) for k in keys}
            if name == 'crp':
                # a fresh value stands for every unseen one
                fresh = keys[-1]
                obs = collections.Counter(
                    k if k in probs else fresh for k in obs.elements())
            elif name in ('geometric', 'poisson'):
                obs = collections.Counter(
                    k if k in probs else 'tail' for k in obs.elements())
                probs['tail'] = max(1 - sum(probs.values()), 1e-12)
            # in the order drawn
            lo, at = {}, 0.
            for k in probs:
                lo[k] = at
                at += probs[k]
            us = []
            for x in xs:
                k = int(x) if int(x) in lo else keys[-1] if name == 'crp' \
                    else 'tail'
                us.append(lo.get(k, 0.) + rng2.rand() * probs.get(k, 1.))
            return both(chi2_pvalue(obs, probs), serial_pvalue(us))
        us = prims.cdf_fn(name, data, hypers, distargs, params)(
            np.asarray(xs))
        if name == 'beta':
            # spread the draws rounded to an end over what they stand for
            cdf = prims.cdf_fn(name, data, hypers, distargs, params)
            us = [rng2.uniform(cdf(1 - 2.**-53), 1) if x == 1. else
                  rng2.uniform(0, cdf(1e-300)) if x == 0. else u
                  for x, u in zip(xs, us)]
        return both(ks_pvalue(np.asarray(us)), serial_pvalue(us))
    ctx.stat(name + ':distribution', '%s simulate vs logpdf' % name, test,
             n=300, **desc)
    ctx.case(desc)


@scenario(quick=88, thorough=110, timeout=60)
def counts_and_keys(ctx):
    name = prims.ALL[ctx.index % len(prims.ALL)]
    m, hypers, distargs, params, data = build(ctx, name)
    desc = dict(type=name, hypers=hypers, n=len(data))
    s = m.simulate(None, [7])
    ctx.true(isinstance(s, dict) and list(s) == [7], name + ':single',
             'a single sample is a dictionary: %r' % (s,), **desc)
    for n in (0, 1, 2, 5, 17):
        for xs in (m.simulate(None, [7], N=n),
                   m.simulate(None, [7], None, None, n)):
            ctx.true(isinstance(xs, list) and len(xs) == n and all(
                isinstance(x, dict) and list(x) == [7] for x in xs),
                name + ':count', 'N=%d gave %r' % (n, xs), **desc)
            ctx.true(all(prims.support(name, x[7], distargs)
                         or rounded(name, x[7], params)
                         for x in xs),
                     name + ':support', 'samples in support', **desc)
    for i, x in list(m.data.items())[:3]:
        ctx.true(m.simulate(i, [7]) == {7: x}, name + ':recorded',
                 'a recorded row has its recorded value', **desc)
        ctx.true(m.simulate(i, [7], N=2) == [{7: x}] * 2, name + ':recorded',
                 'a recorded row has its recorded value, twice', **desc)
        if name == 'crp':
            # the only univariate model that answers for recorded rows
            for y in sorted(set(data)) + [max(data) + 1, x + .5]:
                ctx.close(m.logpdf(i, {7: y}), 0. if y == x else -math.inf,
                          'crp:recorded', 'density of %r for a row recorded '
                          'with %r' % (y, x), 0, 0, **desc)
    if name in prims.DISCRETE and name != 'crp':
        pass
    else:
        xs = [s[7] for s in m.simulate(None, [7], N=30)]
        if name != 'crp':
            ctx.true(len(set(xs)) > 25, name + ':distinct',
                     'samples are drawn afresh: %r' % xs[:5], **desc)
    ctx.case(desc)
