"""Independent closed forms and generators for the univariate models.

Nothing here calls the code under test: each reference predictive is written from
the textbook form (Student-t, Lomax, negative binomial ...), with centred sums,
and marginal likelihoods are accumulated through the chain rule.
"""

import math

import numpy as np
from scipy import special, stats

INF = float('inf')
PI2 = 2 * math.pi

COLLAPSED = ['bernoulli', 'categorical', 'crp', 'exponential', 'geometric',
             'lognormal', 'normal', 'poisson', 'vonmises']
UNCOLLAPSED = ['beta', 'normal_trunc']
ALL = COLLAPSED + UNCOLLAPSED
DISCRETE = {'bernoulli', 'categorical', 'crp', 'geometric', 'poisson'}


def cls(name):
    from cgpm.utils.config import cctype_class
    return cctype_class(name)


def _lu(rng, a, b):
    return float(math.exp(rng.uniform(math.log(a), math.log(b))))


def gen_distargs(name, rng):
    if name == 'categorical':
        return {'k': int(rng.choice([1, 2, 3, 4, 7, 12],
                                    p=[.05, .2, .3, .2, .15, .1]))}
    if name == 'normal_trunc':
        l = float(np.round(rng.uniform(-6, 4), 2))
        return {'l': l, 'h': l + float(np.round(rng.uniform(2, 8), 2))}
    return None


def large_distargs(name, rng):
    """Dozens of categories."""
    if name == 'categorical':
        return {'k': int(rng.randint(20, 70))}
    return gen_distargs(name, rng)


def large_crp(rng, n):
    """Dozens of tables, some numbers unused."""
    pool = [int(k) for k in rng.permutation(60)[:rng.randint(15, 45)]]
    return [pool[rng.randint(len(pool))] for _ in range(n)]


def gen_hypers(name, rng):
    if name == 'bernoulli':
        return {'alpha': _lu(rng, .1, 20), 'beta': _lu(rng, .1, 20)}
    if name in ('categorical', 'crp'):
        return {'alpha': _lu(rng, .05, 20)}
    if name in ('exponential', 'geometric', 'poisson'):
        # Integer hyperparameters are legal and exercise integer arithmetic.
        if rng.rand() < .25:
            return {'a': int(rng.randint(1, 6)), 'b': int(rng.randint(1, 6))}
        # a geometric with a << 1 leaves the integer range when simulated
        return {'a': _lu(rng, .9 if name == 'geometric' else .3, 12),
                'b': _lu(rng, .3, 12)}
    if name in ('normal', 'lognormal'):
        return {'m': float(rng.normal(0, 3)), 'r': _lu(rng, .05, 10),
                's': _lu(rng, .05, 20), 'nu': _lu(rng, .5, 15)}
    if name == 'vonmises':
        return {'a': _lu(rng, .1, 10), 'b': float(rng.uniform(.01, PI2)),
                'k': _lu(rng, .1, 12)}
    return None


def gen_params(name, distargs, rng):
    if name == 'beta':
        return {'strength': _lu(rng, 1., 20), 'balance': rng.uniform(.15, .85)}
    if name == 'normal_trunc':
        return {'mu': rng.uniform(distargs['l'], distargs['h']),
                'sigma': _lu(rng, .3, 6)}
    return None


def gen_value(name, rng, distargs=None, style=None):
    """One value in the support; style selects a regime."""
    if name == 'bernoulli':
        return int(rng.rand() < (.8 if style else .4))
    if name == 'categorical':
        k = distargs['k']
        v = int(rng.randint(k))
        return float(v) if rng.rand() < .2 else v
    if name == 'crp':
        return int(rng.randint(0, 3 + (style or 0)))
    if name == 'exponential':
        return 0. if rng.rand() < .03 else float(
            rng.exponential(_lu(rng, .2, 5)))
    if name == 'geometric':
        return int(rng.geometric(rng.choice([.2, .6])) - 1)
    if name == 'poisson':
        return int(rng.poisson(rng.choice([.5, 4, 20])))
    if name == 'normal':
        return float(rng.normal(3 * (style or 0), _lu(rng, .2, 4)))
    if name == 'lognormal':
        return float(np.exp(rng.normal(.5 * (style or 0), .8)))
    if name == 'vonmises':
        return float(min(max((rng.vonmises(rng.uniform(-3, 3), 2) + math.pi),
                             0.), PI2))
    if name == 'beta':
        return float(np.clip(rng.beta(2, 3), .01, .99))
    if name == 'normal_trunc':
        return float(rng.uniform(distargs['l'], distargs['h']))
    raise KeyError(name)


def gen_data(name, rng, n, distargs=None):
    style = int(rng.randint(0, 3))
    return [gen_value(name, rng, distargs, style) for _ in range(n)]


# ------------------------------------------------------------- predictives ---

def _nig(data, m, r, s, nu):
    x = np.asarray(data, dtype=float)
    n = len(x)
    if n == 0:
        return m, r, s, nu
    xbar = x.mean()
    ss = ((x - xbar) ** 2).sum()
    rn = r + n
    mn = (r * m + n * xbar) / rn
    sn = s + ss + r * n * (xbar - m) ** 2 / rn
    return mn, rn, sn, nu + n


def _logi0(x):
    return float(np.log(special.i0e(x)) + x)


def support(name, x, distargs=None):
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        return False
    if name == 'bernoulli':
        return x in (0, 1)
    if name == 'categorical':
        return x == int(x) and 0 <= x < distargs['k']
    if name == 'crp':
        return x == int(x)
    if name == 'exponential':
        return x >= 0
    if name in ('geometric', 'poisson'):
        return x == int(x) and x >= 0
    if name == 'lognormal':
        return x > 0
    if name == 'vonmises':
        return 0 <= x <= PI2
    if name == 'beta':
        return 0 < x < 1
    if name == 'normal_trunc':
        return distargs['l'] <= x <= distargs['h']
    return True


def predictive(name, x, data, hypers, distargs=None, params=None):
    """log p(x | data, hypers), in closed form."""
    if not support(name, x, distargs):
        return -INF
    n = len(data)
    x = float(x)
    if name == 'bernoulli':
        s = sum(1 for d in data if d == 1)
        num = (s + hypers['alpha']) if x == 1 else (n - s + hypers['beta'])
        return math.log(num / (n + hypers['alpha'] + hypers['beta']))
    if name == 'categorical':
        c = sum(1 for d in data if d == x)
        return math.log((c + hypers['alpha']) /
                        (n + hypers['alpha'] * distargs['k']))
    if name == 'crp':
        c = sum(1 for d in data if d == x)
        return math.log((c or hypers['alpha']) / (n + hypers['alpha']))
    if name == 'exponential':
        return float(stats.lomax.logpdf(
            x, hypers['a'] + n, scale=hypers['b'] + math.fsum(data)))
    if name == 'geometric':
        a, b = hypers['a'] + n, hypers['b'] + sum(data)
        return float(special.betaln(a + 1, b + x) - special.betaln(a, b))
    if name == 'poisson':
        a, b = hypers['a'] + sum(data), hypers['b'] + n
        return float(stats.nbinom.logpmf(x, a, b / (b + 1.)))
    if name in ('normal', 'lognormal'):
        jac = 0.
        if name == 'lognormal':
            data = [math.log(d) for d in data]
            x = math.log(x)
            jac = -x
        m, r, s, nu = _nig(data, hypers['m'], hypers['r'], hypers['s'],
                           hypers['nu'])
        return jac + float(stats.t.logpdf(
            x, nu, loc=m, scale=math.sqrt(s * (r + 1) / (r * nu))))
    if name == 'vonmises':
        a, b, k = hypers['a'], hypers['b'], hypers['k']

        def conc(xs):
            c = a * math.cos(b) + k * math.fsum(math.cos(d) for d in xs)
            s = a * math.sin(b) + k * math.fsum(math.sin(d) for d in xs)
            return math.hypot(c, s)
        return _logi0(conc(list(data) + [x])) - _logi0(conc(data)) \
            - math.log(PI2) - _logi0(k)
    if name == 'beta':
        s, b = params['strength'], params['balance']
        return float(stats.beta.logpdf(x, s * b, s * (1 - b)))
    if name == 'normal_trunc':
        mu, sd = params['mu'], params['sigma']
        l, h = distargs['l'], distargs['h']
        return float(stats.truncnorm.logpdf(
            x, (l - mu) / sd, (h - mu) / sd, loc=mu, scale=sd))
    raise KeyError(name)


def marginal(name, data, hypers, distargs=None, params=None):
    """log p(data | hypers) (collapsed), by the chain rule; closed forms for
    the ones where that is cheap."""
    data = list(data)
    n = len(data)
    if n == 0:
        return 0. if name in COLLAPSED else prior(name, params, distargs)
    if name == 'categorical':
        k, al = distargs['k'], hypers['alpha']
        cs = np.bincount(np.asarray(data, dtype=int), minlength=k)
        return float(sum(special.gammaln(c + al) - special.gammaln(al)
                         for c in cs) + special.gammaln(k * al)
                     - special.gammaln(k * al + n))
    if name in COLLAPSED:
        return math.fsum(predictive(name, data[i], data[:i], hypers, distargs)
                         for i in range(n))
    return math.fsum(predictive(name, x, [], hypers, distargs, params)
                     for x in data) + prior(name, params, distargs)


def prior(name, params, distargs=None):
    """log prior density of the parameters of an uncollapsed model."""
    if name == 'beta':
        return float(stats.expon.logpdf(params['strength'], scale=5.)
                     + stats.beta.logpdf(params['balance'], 1., 1.))
    if name == 'normal_trunc':
        return float(stats.gamma.logpdf(params['sigma'], 2., scale=2.)
                     - math.log(distargs['h'] - distargs['l']))
    raise KeyError(name)


def cdf_fn(name, data, hypers, distargs=None, params=None):
    """Continuous models: distribution function of the predictive."""
    n = len(data)
    if name == 'exponential':
        return lambda x: stats.lomax.cdf(
            x, hypers['a'] + n, scale=hypers['b'] + math.fsum(data))
    if name in ('normal', 'lognormal'):
        log = name == 'lognormal'
        d = [math.log(v) for v in data] if log else data
        m, r, s, nu = _nig(d, hypers['m'], hypers['r'], hypers['s'],
                           hypers['nu'])
        t = stats.t(nu, loc=m, scale=math.sqrt(s * (r + 1) / (r * nu)))
        return lambda x: t.cdf(np.log(x) if log else x)
    if name == 'vonmises':
        grid = np.linspace(0, PI2, 4001)
        lp = np.asarray([predictive(name, g, data, hypers) for g in grid])
        p = np.exp(lp)
        c = np.concatenate([[0], np.cumsum((p[1:] + p[:-1]) / 2
                                           * np.diff(grid))])
        return lambda x: np.interp(x, grid, c / c[-1])
    if name == 'beta':
        s, b = params['strength'], params['balance']
        return stats.beta(s * b, s * (1 - b)).cdf
    if name == 'normal_trunc':
        mu, sd = params['mu'], params['sigma']
        l, h = distargs['l'], distargs['h']
        return stats.truncnorm((l - mu) / sd, (h - mu) / sd,
                               loc=mu, scale=sd).cdf
    raise KeyError(name)


def outside(name, distargs=None):
    """Finite values outside the support."""
    if name == 'bernoulli':
        return [-1, 2, .5, 1.0001, -.0001, 3, -1e9]
    if name == 'categorical':
        k = distargs['k']
        return [-1, k, k + 1, .5, -.5, k - .5, 1e9, -1e-3]
    if name == 'crp':
        return [.5, 1.25, -.5]
    if name == 'exponential':
        return [-1e-6, -1, -1e9]
    if name in ('geometric', 'poisson'):
        return [-1, -2, .5, 1.5, -.5, 2 + 1e-6, -1e9]
    if name == 'lognormal':
        return [0, 0., -1e-9, -1, -1e9]
    if name == 'vonmises':
        return [-1e-6, PI2 + 1e-6, -1, 7, 100.]
    if name == 'beta':
        return [-.1, 1.1, -1, 2, 1e9, -1e-3, 1.001]
    if name == 'normal_trunc':
        l, h = distargs['l'], distargs['h']
        return [l - 1e-6, h + 1e-6, l - 10, h + 10]
    return []


def boundary(name, distargs=None):
    """Extreme values inside the support."""
    if name == 'bernoulli':
        return [0, 1, 0., 1., True, False]
    if name == 'categorical':
        return [0, distargs['k'] - 1, 0., float(distargs['k'] - 1)]
    if name == 'crp':
        return [0, 5, 17.0]
    if name == 'exponential':
        return [0, 0., 1e-12, 1e4]
    if name in ('geometric', 'poisson'):
        return [0, 0., 1, 3.0, 200]
    if name == 'lognormal':
        return [1e-6, 1e5, 1]
    if name == 'vonmises':
        return [0, 0., PI2, math.pi]
    if name == 'beta':
        return [.001, .999, .5]
    if name == 'normal_trunc':
        return [distargs['l'], distargs['h']]
    if name == 'normal':
        return [0, -1e4, 1e4]
    return []


def make(name, rng_seed, hypers=None, distargs=None, params=None, output=0):
    return cls(name)([output], None, hypers=hypers, params=params,
                     distargs=distargs,
                     rng=np.random.RandomState(rng_seed))
