"""C04: values outside the support are rejected and have zero density."""
import math

import numpy as np

import prims
from vlib import scenario

RULE = ('a case is one value offered to one model in one state (logpdf and '
        'incorporate); non-trivial when the value is outside the support, on '
        'its boundary, or of an unusual type')


def snapshot(name, m, distargs, rng_seed):
    rng = np.random.RandomState(rng_seed)
    probes = prims.gen_data(name, rng, 8, distargs) + \
        prims.boundary(name, distargs)
    return dict(
        data=list(m.data.items()), suff=repr(sorted(
            m.get_suffstats().items())),
        score=m.logpdf_score(), hypers=sorted(m.get_hypers().items()),
        params=sorted(m.get_params().items()),
        probes=[m.logpdf(None, {0: x}) for x in probes])


def jitter(x, rng):
    """The same value in another numeric type."""
    forms = [x]
    if float(x) == int(x):
        forms += [int(x), float(x), np.int64(int(x)), np.float64(x)]
    else:
        forms += [np.float64(x)]
    return forms[rng.randint(len(forms))]


@scenario(quick=352, thorough=880, timeout=60)
def offers(ctx):
    name = prims.ALL[ctx.index % len(prims.ALL)]
    rng = ctx.rng
    for _ in range(3):
        distargs = prims.gen_distargs(name, rng)
        hypers = prims.gen_hypers(name, rng)
        params = prims.gen_params(name, distargs, rng)
        m = prims.make(name, rng.randint(2**31), hypers, distargs, params)
        n = 0
        offers = [(jitter(x, rng), False)
                  for x in prims.outside(name, distargs)] + \
            [(jitter(x, rng), True) for x in prims.boundary(name, distargs)]
        # random values around the support
        for _i in range(8):
            x = float(rng.choice([rng.normal(0, 3), rng.uniform(-2, 8),
                                  rng.randint(-3, 15)]))
            if name == 'beta' and (abs(x) < 1e-3 or abs(x - 1) < 1e-3):
                continue
            offers.append((jitter(x, rng), prims.support(name, x, distargs)))
        rng.shuffle(offers)
        seed = rng.randint(2**31)
        for x, inside in offers:
            if isinstance(x, bool) or float(x) == int(x) or not inside:
                nontrivial = True
            else:
                nontrivial = False
            lp = m.logpdf(None, {0: x})
            desc = dict(type=name, x=repr(x), n=n, distargs=distargs,
                        hypers=hypers, params=params)
            before = snapshot(name, m, distargs, seed)
            if inside:
                ctx.true(lp > -math.inf and not math.isnan(lp),
                         name + ':zero-inside',
                         '%s gives %r density %r' % (name, x, lp), **desc)
                try:
                    m.incorporate(n, {0: x})
                    n += 1
                except Exception as e:
                    ctx.fail(name + ':refused-inside', '%s refused %r: %s %s'
                             % (name, x, type(e).__name__, e), **desc)
            else:
                ctx.true(lp == -math.inf, name + ':density-outside',
                         '%s gives %r log density %r' % (name, x, lp), **desc)
                try:
                    m.incorporate(10**6, {0: x})
                except ValueError:
                    pass
                except Exception as e:
                    ctx.fail(name + ':wrong-error',
                             '%s refused %r with %s: %s' % (
                                 name, x, type(e).__name__, e), **desc)
                else:
                    ctx.fail(name + ':accepted-outside',
                             '%s accepted %r' % (name, x), **desc)
                    m.unincorporate(10**6)
                after = snapshot(name, m, distargs, seed)
                ctx.true(after == before or all(
                    same_snap(after[k], before[k]) for k in before),
                    name + ':state-changed',
                    '%s changed by refusing %r: %r -> %r' % (
                        name, x, before, after), **desc)
                ctx.count('values refused')
            if rng.rand() < .3 and len(m.data) > 1:
                m.unincorporate(next(iter(m.data)))
            ctx.case(desc, nontrivial)


def same_snap(a, b):
    return repr(a) == repr(b)


@scenario(quick=44, thorough=110, timeout=60)
def density_positive_where_reference_is(ctx):
    name = prims.ALL[ctx.index % len(prims.ALL)]
    rng = ctx.rng
    distargs = prims.gen_distargs(name, rng)
    hypers = prims.gen_hypers(name, rng)
    params = prims.gen_params(name, distargs, rng)
    m = prims.make(name, rng.randint(2**31), hypers, distargs, params)
    for i, x in enumerate(prims.gen_data(name, rng, 5, distargs)):
        m.incorporate(i, {0: x})
    for x in np.concatenate([np.linspace(-9, 12, 85), [1e3, -1e3]]):
        x = float(x)
        if name == 'beta' and (abs(x) < 1e-6 or abs(x - 1) < 1e-6):
            continue
        lp = m.logpdf(None, {0: x})
        inside = prims.support(name, x, distargs)
        ctx.true((lp > -math.inf) == inside and not math.isnan(lp),
                 name + ':support-shape', '%s at %r: %r' % (name, x, lp),
                 distargs=distargs)
        ctx.case(dict(type=name, x=x), not inside)
