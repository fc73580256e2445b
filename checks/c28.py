"""C28: the sampling helpers leave their target distribution invariant."""
import math

import numpy as np
from scipy import stats

from vlib import scenario, ks_pvalue

RULE = ('a case is one target on one domain under one sampler setting: chains '
        'are started from exact draws of the target and the returned values '
        'are compared with its distribution function (Kolmogorov-Smirnov, '
        'escalating), with every point at which the target was evaluated and '
        'every returned value checked against the domain; or one comparison '
        'of a chain with the thinned chain of the same seed; non-trivial when '
        'the chain moved')

INF = float('inf')


class Target(object):

    def __init__(self, name, D, parts, weights=None, shift=0.):
        """Mixture of frozen scipy distributions, truncated to D."""
        self.name, self.D, self.parts = name, D, parts
        self.w = np.asarray(weights or [1. / len(parts)] * len(parts))
        self.lo, self.hi = self._cdf(D[0]), self._cdf(D[1])
        self.shift = shift          # an unnormalised target
        self.evals = []

    def _cdf(self, x):
        return float(sum(w * p.cdf(x) for w, p in zip(self.w, self.parts)))

    def cdf(self, x):
        return (self._cdf(x) - self.lo) / (self.hi - self.lo)

    def logpdf(self, x):
        self.evals.append(float(x))
        with np.errstate(all='ignore'):
            v = float(np.log(sum(w * p.pdf(x) for w, p in
                                 zip(self.w, self.parts))))
        return v + self.shift if not math.isnan(v) else -INF

    def draw(self, rng):
        while True:
            p = self.parts[int(rng.choice(len(self.parts), p=self.w))]
            x = float(p.rvs(random_state=rng))
            if self.D[0] < x < self.D[1]:
                return x


def targets(rng):
    s = float(np.exp(rng.uniform(-1.5, 1.5)))
    m = float(rng.normal(0, 3))
    w = float(rng.uniform(.2, .8))
    sh = float(rng.choice([0., 3.7, -250.]))
    N, E, G, B, U = (stats.norm, stats.expon, stats.gamma, stats.beta,
                     stats.uniform)
    return [
        Target('normal', (-INF, INF), [N(m, s)], shift=sh),
        Target('student', (-INF, INF), [stats.t(3, m, s)], shift=sh),
        Target('bimodal', (-INF, INF), [N(m, s), N(m + 4 * s, .7 * s)],
               [w, 1 - w], shift=sh),
        Target('exponential', (0., INF), [E(scale=s)], shift=sh),
        Target('gamma', (0., INF), [G(1. + w * 4, scale=s)], shift=sh),
        Target('shifted half line', (m, INF), [E(loc=m, scale=s)], shift=sh),
        Target('half normal', (m, INF), [N(m - .5 * s, s)], shift=sh),
        Target('lower half line', (-INF, m), [N(m + .5 * s, s)], shift=sh),
        Target('beta', (0., 1.), [B(1 + 3 * w, 2.)], shift=sh),
        Target('uniform', (m, m + s), [U(m, s)], shift=sh),
        Target('narrow uniform', (m, m + .05), [U(m, .05)], shift=sh),
        Target('truncated normal', (m, m + 2 * s), [N(m + .3 * s, s)],
               shift=sh),
        Target('bounded bimodal', (m, m + 6 * s),
               [N(m + s, .5 * s), N(m + 5 * s, .5 * s)], [w, 1 - w],
               shift=sh),
        Target('tilted', (m, m + s), [E(loc=m, scale=.3 * s)], shift=sh),
        Target('tilted up', (m, m + s),
               [stats.triang(.9, loc=m, scale=s)], shift=sh),
    ]


def in_domain(ctx, t, xs, who):
    bad = [x for x in xs if not (t.D[0] <= x <= t.D[1])]
    ctx.true(not bad, who + ':domain', '%s on %s: %r outside %r' % (
        who, t.name, bad[:5], t.D))


def scale(t):
    return (t.D[1] - t.D[0]) if math.isfinite(t.D[0]) and math.isfinite(
        t.D[1]) else float(t.parts[0].std())


@scenario(quick=60, thorough=300, timeout=240)
def metropolis(ctx):
    from cgpm.utils import sampling
    rng = ctx.rng
    ts = targets(rng)
    t = ts[(ctx.index + ctx.seed) % len(ts)]
    jump = scale(t) * float(np.exp(rng.uniform(-2., 3.)))
    moves = int(rng.randint(1, 12))
    srng = ctx.newrng()
    moved = [0]

    def test(n):
        us = []
        for _ in range(n):
            x0 = t.draw(rng)
            t.evals = []
            x = sampling.mh_sample(x0, t.logpdf, jump, t.D,
                                   burn=moves, rng=srng)
            in_domain(ctx, t, t.evals + [x], 'mh')
            moved[0] += x != x0
            us.append(t.cdf(x))
        return ks_pvalue(us)
    ctx.stat('mh:invariance', '%s on %r, jump %g, %d moves' % (
        t.name, t.D, jump, moves), test, n=250)
    ctx.case(dict(t=t.name, D=t.D, jump=jump, moves=moves), moved[0] > 5)


@scenario(quick=60, thorough=300, timeout=240)
def slices(ctx):
    from cgpm.utils import sampling
    rng = ctx.rng
    ts = targets(rng)
    t = ts[(ctx.index + ctx.seed) % len(ts)]
    w = scale(t) * float(np.exp(rng.uniform(-1.5, 2.)))
    moves = int(rng.randint(1, 6))
    srng = ctx.newrng()
    moved = [0]

    def test(n):
        us = []
        for _ in range(n):
            x0 = t.draw(rng)
            t.evals = []
            x = sampling.slice_sample(lambda: x0, t.logpdf, t.D, burn=moves,
                                      w=w, rng=srng)
            in_domain(ctx, t, t.evals + [x], 'slice')
            moved[0] += x != x0
            us.append(t.cdf(x))
        return ks_pvalue(us)
    ctx.stat('slice:invariance', '%s on %r, width %g, %d moves' % (
        t.name, t.D, w, moves), test, n=200)
    ctx.case(dict(t=t.name, D=t.D, w=w, moves=moves), moved[0] > 5)


@scenario(quick=24, thorough=100, timeout=240)
def joint(ctx):
    """The start and the value after one move are exchangeable (both moves
    are reversible), which a kernel that merely resamples elsewhere, or one
    that never crosses a region, fails."""
    from cgpm.utils import sampling
    rng = ctx.rng
    ts = targets(rng)
    t = ts[(ctx.index * 7 + ctx.seed) % len(ts)]
    srng = ctx.newrng()
    kind = ctx.index % 2
    s = scale(t) * float(np.exp(rng.uniform(-1., 1.)))

    def test(n):
        lower = upper = 0
        for _ in range(n):
            x0 = t.draw(rng)
            if kind:
                x1 = sampling.slice_sample(lambda: x0, t.logpdf, t.D, burn=0,
                                           w=s, rng=srng)
            else:
                x1 = sampling.mh_sample(x0, t.logpdf, s, t.D, burn=0,
                                        rng=srng)
            u0, u1 = t.cdf(x0), t.cdf(x1)
            # crossings between the lower third and the rest, each way
            lower += u0 < 1 / 3. <= u1
            upper += u1 < 1 / 3. <= u0
        if lower + upper < 10:
            return None
        return float(stats.binomtest(lower, lower + upper).pvalue)
    ctx.stat(('slice' if kind else 'mh') + ':reversible', '%s on %r' % (
        t.name, t.D), test, n=400)
    ctx.case(dict(t=t.name, D=t.D, kind=kind, s=s))


@scenario(quick=48, thorough=200, timeout=240)
def counts(ctx):
    """num_samples, burn and lag select from one and the same chain."""
    from cgpm.utils import sampling
    rng = ctx.rng
    ts = targets(rng)
    for _ in range(3):
        t = ts[rng.randint(len(ts))]
        burn, lag, num = (int(rng.choice([0, 1, 1, 2, 5, 13])),
                          int(rng.choice([1, 1, 2, 3, 7])),
                          int(rng.choice([1, 1, 2, 5])))
        x0, seed = t.draw(rng), int(rng.randint(2**31 - 1))
        s = scale(t)
        M = burn + (num + 1) * lag + 2

        def run(kind, **kw):
            r = np.random.RandomState(seed)
            t.evals = []
            if kind == 'mh':
                return sampling.mh_sample(x0, t.logpdf, s, t.D, rng=r, **kw)
            return sampling.slice_sample(lambda: x0, t.logpdf, t.D, w=s,
                                         rng=r, **kw)
        for kind in ('mh', 'slice'):
            chain = run(kind, num_samples=M, burn=0, lag=1)
            ctx.true(isinstance(chain, list) and len(chain) == M,
                     kind + ':count', 'asked %d: %r' % (M, chain))
            got = run(kind, num_samples=num, burn=burn, lag=lag)
            if num == 1:
                ctx.true(np.isscalar(got), kind + ':shape', repr(got))
                got = [got]
            ctx.true(len(got) == num, kind + ':count', 'asked %d: %r' % (
                num, got))
            # the first kept value comes after burn discarded ones and within
            # one lag of them; the others follow at intervals of lag
            starts = [i for i in range(burn, burn + lag + 1) if all(
                i + j * lag < M and chain[i + j * lag] == got[j]
                for j in range(num))]
            ctx.true(bool(starts), kind + ':thinning',
                     '%s burn=%d lag=%d num=%d: %r is not taken from %r' % (
                         kind, burn, lag, num, got, chain))
            # defaults: one sample, one discarded
            one = run(kind)
            ctx.true(np.isscalar(one) and one == chain[1],
                     kind + ':defaults', '%s: %r of %r' % (
                         kind, one, chain[:4]))
            ctx.case(dict(kind=kind, t=t.name, burn=burn, lag=lag, num=num),
                     len(set(chain)) > 1)


@scenario(quick=16, thorough=80, timeout=240)
def reach(ctx):
    """From a poor start, every part of the target is reached."""
    from cgpm.utils import sampling
    rng = ctx.rng
    ts = targets(rng)
    t = ts[(ctx.index * 2 + ctx.seed) % len(ts)]
    D = t.D
    if math.isfinite(D[0]):
        x0 = D[0] + 1e-3 * scale(t)
    elif math.isfinite(D[1]):
        x0 = D[1] - 1e-3 * scale(t)
    else:
        x0 = float(t.parts[0].mean()) + 6 * scale(t)
    for kind in ('mh', 'slice'):
        if kind == 'mh':
            xs = sampling.mh_sample(x0, t.logpdf, scale(t), D,
                                    num_samples=1500, burn=200, lag=3,
                                    rng=ctx.newrng())
        else:
            xs = sampling.slice_sample(lambda: x0, t.logpdf, D, w=scale(t),
                                       num_samples=800, burn=50, lag=1,
                                       rng=ctx.newrng())
        us = np.asarray([t.cdf(x) for x in xs])
        d = float(stats.kstest(us, 'uniform').statistic)
        ctx.true(d < .25, kind + ':reach', '%s on %s: distance %g after a '
                 'long run from %r' % (kind, t.name, d, x0))
        ctx.case(dict(kind=kind, t=t.name, x0=x0))


@scenario(quick=24, thorough=100, timeout=240)
def rejection(ctx):
    from cgpm.utils import sampling
    rng = ctx.rng
    ts = [t for t in targets(rng) if math.isfinite(t.D[0])
          and math.isfinite(t.D[1])]
    t = ts[(ctx.index + ctx.seed) % len(ts)]
    lo, hi = t.D
    xs = np.linspace(lo, hi, 400)
    top = 1.3 * max(math.exp(t.logpdf(x) - t.shift) for x in xs)
    srng = ctx.newrng()

    def target(x):
        return math.exp(t.logpdf(x) - t.shift)

    def test(n):
        r = sampling.rejection_sample(
            target, lambda x: top, lambda: rng.uniform(lo, hi), N=n,
            rng=srng)
        ctx.true(len(r) == n, 'rejection:count', '%d of %d' % (len(r), n))
        in_domain(ctx, t, r, 'rejection')
        return ks_pvalue([t.cdf(x) for x in r])
    ctx.stat('rejection:distribution', '%s on %r' % (t.name, t.D), test,
             n=300)
    one = sampling.rejection_sample(
        target, lambda x: top, lambda: rng.uniform(lo, hi), rng=srng)
    ctx.true(np.isscalar(one), 'rejection:shape', repr(one))
    # a proposal that depends on x
    p = t.parts[0]
    if len(t.parts) == 1 and t.name in ('tilted', 'truncated normal'):
        tri = stats.triang(.5, loc=lo - .2 * (hi - lo),
                           scale=1.4 * (hi - lo))
        c = 1.2 * max(target(x) / tri.pdf(x) for x in xs)

        def test2(n):
            r = sampling.rejection_sample(
                lambda x: target(x) if lo <= x <= hi else 0.,
                lambda x: c * tri.pdf(x),
                lambda: float(tri.rvs(random_state=rng)), N=n, rng=srng)
            in_domain(ctx, t, r, 'rejection')
            return ks_pvalue([t.cdf(x) for x in r])
        ctx.stat('rejection:proposal', t.name, test2, n=300)
    # an envelope below the target is noticed
    ctx.raises((AssertionError, ValueError), lambda: sampling.rejection_sample(
        lambda x: 2., lambda x: 1., lambda: .5, rng=srng),
        'rejection:envelope', 'target above its envelope')
    ctx.case(dict(t=t.name, D=t.D))


class Boxes(object):
    """Flat pieces separated by stretches of low density: whether a piece is
    reached depends on the whole geometry of the interval finding, which a
    target with one mode does not show."""

    def __init__(self, rng):
        k = int(rng.randint(2, 5))
        self.edges, self.heights, self.low = [], [], -3.
        x = float(rng.normal(0, 3))
        for i in range(k):
            a = x + float(rng.uniform(.3, 2.) if i else 0.)
            x = a + float(rng.uniform(.1, .9))
            self.edges.append((a, x))
            self.heights.append(float(rng.uniform(-1., 1.)))
        self.D = (self.edges[0][0] - .4, x + .7)
        cuts = [self.D[0]] + [e for p in self.edges for e in p] + [self.D[1]]
        self.pieces = list(zip(cuts, cuts[1:]))
        m = np.asarray([(b - a) * math.exp(self.logpdf((a + b) / 2.))
                        for a, b in self.pieces])
        self.mass = m / m.sum()
        if rng.rand() < .4:
            self.D = (-INF, INF)

    def logpdf(self, x):
        if not self.pieces[0][0] <= x <= self.pieces[-1][1]:
            return -INF
        for (a, b), h in zip(self.edges, self.heights):
            if a <= x < b:
                return h
        return self.low

    def piece(self, x):
        return next((i for i, (a, b) in enumerate(self.pieces)
                     if a <= x <= b), -1)

    def draw(self, rng):
        a, b = self.pieces[int(rng.choice(len(self.pieces), p=self.mass))]
        return float(rng.uniform(a, b))


@scenario(quick=96, thorough=400, timeout=240)
def humps(ctx):
    from cgpm.utils import sampling
    from vlib import chi2_pvalue
    rng = ctx.rng
    t = Boxes(rng)
    kind = 'mh' if ctx.index % 4 == 0 else 'slice'
    w = float(np.exp(rng.uniform(-1.2, 1.)))
    srng = ctx.newrng()
    probs = {i: float(p) for i, p in enumerate(t.mass)}

    def step(x0):
        if kind == 'mh':
            return sampling.mh_sample(x0, t.logpdf, w, t.D, burn=1, rng=srng)
        return sampling.slice_sample(lambda: x0, t.logpdf, t.D, burn=0, w=w,
                                     rng=srng)

    def moves(n):
        out = {}
        for _ in range(n):
            x0 = t.draw(rng)
            x1 = step(x0)
            k = t.piece(x0), t.piece(x1)
            out[k] = out.get(k, 0) + 1
        return out

    def invariant(n):
        end = {}
        for (_, j), c in moves(n).items():
            end[j] = end.get(j, 0) + c
        ctx.count('box transitions', n)
        return chi2_pvalue(end, probs)

    def reversible(n):
        m = moves(n)
        chi, df = 0., 0
        for i in probs:
            for j in probs:
                a, b = m.get((i, j), 0), m.get((j, i), 0)
                if i < j and a + b >= 10:
                    chi += (a - b) ** 2 / float(a + b)
                    df += 1
        ctx.count('box transitions', n)
        return float(stats.chi2.sf(chi, df)) if df else None
    desc = dict(kind=kind, pieces=t.pieces, heights=t.heights, w=w, D=t.D)
    ctx.stat(kind + ':invariance', '%s on boxes %r, width %g' % (
        kind, t.pieces, w), invariant, n=2500, **desc)
    if kind == 'slice':
        ctx.stat('slice:reversible', 'slice on boxes %r, width %g' % (
            t.pieces, w), reversible, n=2500, **desc)
    ctx.case(desc)
