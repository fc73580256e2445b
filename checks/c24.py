"""C24: KDE, nearest neighbours, factor analysis and the scripted models."""
import itertools
import math

import numpy as np

import mix
import models
from vlib import scenario, uniform_test, chi2_pvalue, ks2_pvalue

RULE = ('a case is one query (targets, constraints, row) of one model, whose '
        'density is compared with the closed form, or whose samples are '
        'mapped to uniforms by it; non-trivial when the model holds data or '
        'is scripted; distinct by model, data and query')
INF = float('inf')


# ------------------------------------------------------------- generators ---

def build(ctx, cls, n=None):
    rng = ctx.rng
    for _ in range(60):
        ad = cls(rng)
        rows = {}
        k = int(rng.choice([8, 15, 30] * 3 + [90])) if n is None else n
        for r in [int(i) for i in rng.permutation(90)[:k]]:
            rows[r] = ad.fresh_row()
        if cls is models.Kde and not ad.usable(rows):
            continue
        break
    m = ad.build(int(rng.randint(2**31 - 1)))
    for r in list(rows):
        ad.record(m, r, rows[r])
    # some rows come and go
    for r in list(rows)[:2]:
        if rng.rand() < .3:
            left = {q: rows[q] for q in rows if q != r}
            if cls is models.Kde and not ad.usable(left):
                continue
            m.unincorporate(r)
            rows = left
    return ad, m, rows


def recorded(ad, rows, q, rng):
    """The same query asked of a recorded row: its own cells that the query
    does not mention become constraints. Returns (rowid, effective query)."""
    r = sorted(rows)[int(rng.randint(len(rows)))]
    own = {c: v for c, v in rows[r][0].items() if not mix.isnan(v)
           and c not in q[0] and c not in (q[1] or {})}
    return r, (q[0], dict(q[1] or {}, **{}) | own, None)


# ------------------------------------------------- mixtures of products -----

def norm_cdf(x, mu, s):
    return .5 * math.erfc(-(x - mu) / s / math.sqrt(2))


class Component(object):
    """Independent univariate factors: {var: ('n', mu, s) or ('d', probs)}."""

    def __init__(self, factors):
        self.f = factors

    def cdf(self, c, x):
        f = self.f[c]
        if f[0] == 'n':
            v = norm_cdf(x, f[1], f[2])
            return v, v
        lo = math.fsum(f[1][:int(x)])
        return lo, lo + f[1][int(x)]

    def lp(self, c, x):
        f = self.f[c]
        if f[0] == 'n':
            return models.lgauss(x, f[1], f[2])
        p = f[1][int(x)]
        return math.log(p) if p > 0 else -INF


def rosenblatt(comps, lw, targets, sample, rng):
    w, us = list(lw), []
    for c in targets:
        n = mix.lse(w)
        lo = hi = 0.
        for comp, l in zip(comps, w):
            if l == -INF:
                continue
            a, b = comp.cdf(c, sample[c])
            p = math.exp(l - n)
            lo += p * a
            hi += p * b
        us.append(lo + rng.rand() * (hi - lo))
        w = [l + comp.lp(c, sample[c]) for comp, l in zip(comps, w)]
        if mix.lse(w) == -INF:
            return us + [0.] * (len(targets) - len(us))
    return us


def shape(ctx, s, targets, n, what):
    return ctx.true(
        isinstance(s, list) and len(s) == n and all(
            set(x) == set(targets) for x in s), what + ':shape',
        '%s: %d samples of %r returned %r' % (what, n, targets, s[:1]))


def kde_comps(ad, m, rows, t, c, cv):
    bw = [float(b) for b in m.get_params()['bw']]
    D = ad.complete(rows, list(t) + list(c))
    comps, lw = [], []
    for d in D:
        f = {}
        for j, v in enumerate(t):
            h = bw[ad.outputs.index(v)]
            if ad.kind[v]:
                k = ad.kind[v]
                f[v] = ('d', [1 - h if x == int(d[j]) else h / (k - 1)
                              for x in range(k)])
            else:
                f[v] = ('n', d[j], h)
        comps.append(Component(f))
        lw.append(math.fsum(ad.lkernel(bw, v, x, d[len(t) + i])
                            for i, (v, x) in enumerate(zip(c, cv))))
    return comps, lw


def knn_comps(ad, rows, t, c, cv):
    locs = ad.components(rows, t, c, cv)
    if locs is None:
        return None, None
    comps = []
    for loc in locs:
        f = {}
        for j, v in enumerate(t):
            col = [r[j] for r in loc]
            if ad.kind[v]:
                f[v] = ('d', [sum(1 for y in col if int(y) == x) /
                              float(len(col)) for x in range(ad.kind[v])])
            else:
                f[v] = ('n', float(np.mean(col)),
                        max(float(np.std(col)), .01))
        comps.append(Component(f))
    return comps, [0.] * len(comps)


def mixture_case(ctx, ad, m, rows, q, comps_of, n):
    """Samples of m given q follow the mixture."""
    t, c = list(q[0]), dict(q[1] or {})
    call, eff = None, c
    if rows and ctx.rng.rand() < .3:
        call, e = recorded(ad, rows, q, ctx.rng)
        if len(ad.complete(rows, t + list(e[1]))) >= getattr(
                ad, 'K', 2) and comps_of(
                t, list(e[1]), list(e[1].values()))[0] and (
                ad.name != 'multivariate_kde' or ad.levels_ok(
                    rows, t + list(e[1]))):
            eff = e[1]
        else:
            call = None
    comps, lw = comps_of(t, list(eff), list(eff.values()))
    if not comps or mix.lse(lw) == -INF:
        return
    what = ad.name

    def test(k):
        s = m.simulate(call, list(t), dict(c) or None, None, k)
        ctx.count('samples drawn', k)
        if not shape(ctx, s, t, k, what):
            return None
        return uniform_test([rosenblatt(comps, lw, t, x, ctx.rng)
                             for x in s])
    ctx.stat(what + ':simulate', '%s simulate(%r, %r, %r)' % (
        what, call, t, c), test, n, rows=rows, **ad.desc())
    one = m.simulate(call, list(t), dict(c) or None)
    ctx.true(isinstance(one, dict) and set(one) == set(t), what + ':shape',
             '%s: single sample %r of %r' % (what, one, t))


# -------------------------------------------------------------------- KDE ---

@scenario(quick=72, thorough=700, timeout=300)
def kde_density(ctx):
    ad, m, rows = build(ctx, models.Kde)
    rng = ctx.rng
    for rnd in range(2):
        w = dict(ad.desc(), rows=rows, bw=list(m.get_params()['bw']))
        for q in ad.queries(rows, 6):
            ctx.close(ad.ask(m, q), ad.ref(m, rows, q), 'kde:density',
                      'kde logpdf(%r | %r)' % (q[0], q[1]), 1e-6, 1e-7,
                      query=q, **w)
            r, e = recorded(ad, rows, q, rng)
            if ad.levels_ok(rows, list(e[0]) + list(e[1])):
                ctx.close(ad.ask(m, q, r), ad.ref(m, rows, e),
                          'kde:recorded-row', 'kde logpdf of %r given %r for '
                          'recorded row %r' % (q[0], q[1], rows[r]), 1e-6,
                          1e-7, query=q, **w)
            # nothing but the listing order changed
            ks = list(q[0])
            sh = ({k: q[0][k] for k in ks[::-1]},
                  {k: q[1][k] for k in list(q[1])[::-1]}, None)
            ctx.close(ad.ask(m, sh), ad.ask(m, q), 'kde:order',
                      'kde logpdf with variables listed in another order',
                      1e-7, 1e-8, query=q, **w)
            # chain rule on rows complete in everything
            if not any(mix.isnan(o.get(c)) for o, _ in rows.values()
                       for c in ad.outputs) and len(ks) > 1:
                a = ks[:1]
                jt = ad.ask(m, q)
                pa = ad.ask(m, ({k: q[0][k] for k in a}, q[1], None))
                pb = ad.ask(m, ({k: q[0][k] for k in ks[1:]}, dict(
                    q[1], **{}) | {k: q[0][k] for k in a}, None))
                ctx.close(jt, pa + pb, 'kde:chain', 'kde chain rule',
                          1e-6, 1e-6, query=q, **w)
            cats = [c for c in q[0] if ad.kind[c]]
            if len(cats) == len(q[0]):
                tot = math.fsum(math.exp(ad.ask(m, (
                    dict(zip(cats, v)), q[1], None))) for v in
                    itertools.product(*[range(ad.kind[c]) for c in cats]))
                ctx.close(tot, 1., 'kde:mass', 'kde mass of %r' % cats,
                          1e-7, 1e-7, query=q, **w)
            ctx.case(dict(w, q=q, rnd=rnd), True)
        if ad.score_ok(rows):
            ctx.close(m.logpdf_score(), kde_score(ad, m, rows), 'kde:score',
                      'kde logpdf_score', 1e-6, 1e-6, **w)
        if rnd == 0 and len(rows) <= 15 and ad.usable(rows):
            m.transition()
            ctx.true(all(float(b) >= 0 for b in m.get_params()['bw']) and
                     len(m.get_params()['bw']) == len(ad.outputs),
                     'kde:bandwidths', '%r' % m.get_params()['bw'])
            if any(float(b) < 1e-6 for b in m.get_params()['bw']):
                break


def kde_score(ad, m, rows):
    return ad.ref_score(m, rows)


@scenario(quick=45, thorough=400, timeout=300)
def kde_simulate(ctx):
    ad, m, rows = build(ctx, models.Kde)
    for q in ad.queries(rows, 2):
        mixture_case(ctx, ad, m, rows, q, lambda t, c, cv: kde_comps(
            ad, m, rows, t, c, cv), 250)
        ctx.case(dict(ad.desc(), q=q, rows=rows), True)


@scenario(quick=1, thorough=1, timeout=120)
def kde_unobserved_category(ctx):
    """Fixed data in which category 2 of 3 never occurs."""
    from cgpm.kde.mvkde import MultivariateKde
    m = MultivariateKde([0], [], distargs={'outputs': {
        'stattypes': ['categorical'], 'statargs': [{'k': 3}]}},
        params={'bw': [.3]}, rng=np.random.RandomState(1))
    for r, x in enumerate([0, 0, 1, 1, 0, 1]):
        m.incorporate(r, {0: x})
    tot = math.fsum(math.exp(m.logpdf(None, {0: x})) for x in range(3))
    ctx.case('kde unobserved category')
    if abs(tot - 1.) > 1e-6:
        ctx.fail('kde:unobserved-category', 'probabilities of 3 categories, '
                 'one never observed, sum to %r' % tot)


# -------------------------------------------------------------------- KNN ---

@scenario(quick=72, thorough=700, timeout=300)
def knn_density(ctx):
    ad, m, rows = build(ctx, models.Knn)
    rng = ctx.rng
    w = dict(ad.desc(), rows=rows, K=ad.K, M=ad.M)
    for q in ad.queries(rows, 8):
        want = ad.ref(m, rows, q)
        if want is None:
            ctx.count('ties skipped')
            continue
        ctx.close(ad.ask(m, q), want, 'knn:density', 'knn logpdf(%r | %r)' % (
            q[0], q[1]), 1e-6, 1e-6, query=q, **w)
        sh = ({k: q[0][k] for k in list(q[0])[::-1]},
              {k: q[1][k] for k in list(q[1])[::-1]}, None)
        ctx.close(ad.ask(m, sh), want, 'knn:order', 'knn logpdf with '
                  'variables listed in another order', 1e-6, 1e-6, query=q,
                  **w)
        r, e = recorded(ad, rows, q, rng)
        if len(ad.complete(rows, list(e[0]) + list(e[1]))) >= ad.K:
            want = ad.ref(m, rows, e)
            if want is not None:
                ctx.close(ad.ask(m, q, r), want, 'knn:recorded-row',
                          'knn logpdf of %r given %r for recorded row %r' % (
                              q[0], q[1], rows[r]), 1e-6, 1e-6, query=q, **w)
        cats = [c for c in q[0] if ad.kind[c]]
        if len(cats) == len(q[0]):
            tot = math.fsum(math.exp(ad.ask(m, (
                dict(zip(cats, v)), q[1], None))) for v in
                itertools.product(*[range(ad.kind[c]) for c in cats]))
            ctx.close(tot, 1., 'knn:mass', 'knn mass of %r' % cats, 1e-7,
                      1e-7, query=q, **w)
            ctx.true(ad.ask(m, ({c: ad.kind[c] for c in cats}, q[1], None))
                     == -INF, 'knn:outside', 'a category that does not exist '
                     'has positive density', query=q, **w)
        ctx.case(dict(w, q=q), True)


@scenario(quick=45, thorough=400, timeout=300)
def knn_simulate(ctx):
    ad, m, rows = build(ctx, models.Knn)
    for q in ad.queries(rows, 2):
        mixture_case(ctx, ad, m, rows, q, lambda t, c, cv: knn_comps(
            ad, rows, t, c, cv), 300)
        ctx.case(dict(ad.desc(), q=q, rows=rows), True)


@scenario(quick=18, thorough=120, timeout=300)
def knn_ties(ctx):
    """Equidistant neighbours: those closer than the tie always take part,
    those tied are picked at random, none farther ever is."""
    rng = ctx.rng
    from cgpm.knn.mvknn import MultivariateKnn
    K = int(rng.randint(2, 6))
    closer = int(rng.randint(0, K))
    tied = K - closer + int(rng.randint(1, 4))
    m = MultivariateKnn([0, 1], [], K=K, M=1, distargs={'outputs': {
        'stattypes': ['numerical'] * 2, 'statargs': [{}] * 2}},
        rng=ctx.newrng())
    d = [.1 + .01 * i for i in range(closer)] + [1.] * tied + [3.] * 4
    ys = [100. * (i + 1) for i in range(len(d))]
    order = rng.permutation(len(d))
    for i in order:
        x = d[i] * (1 if d[i] != 1. or rng.rand() < .5 else -1)
        m.incorporate(int(i), {0: x, 1: ys[i]})
    n, hits = 400, {}
    s = m.simulate(None, [1], {0: 0.}, None, n) if rng.rand() < .3 else [
        m.simulate(None, [1], {0: 0.}) for _ in range(n)]
    for x in s:
        j = int(round(x[1] / 100.)) - 1
        hits[j] = hits.get(j, 0) + 1
    ctx.count('neighbours picked', n)
    ctx.true(all(j < closer + tied for j in hits), 'knn:farther-neighbour',
             'picked %r with %d closer, %d tied' % (hits, closer, tied))
    near = sum(v for j, v in hits.items() if j < closer)
    p = closer / float(K)
    ctx.true(abs(near / float(n) - p) < 5 * math.sqrt(p * (1 - p) / n) + .01,
             'knn:closer-neighbours', '%d of %d samples come from the %d of '
             '%d neighbours closer than the tie' % (near, n, closer, K))
    ctx.case(dict(K=K, closer=closer, tied=tied), True)


@scenario(quick=9, thorough=60, timeout=300)
def knn_unconstrained(ctx):
    """Without constraints, one variable is resampled from the data: exactly
    N samples with exactly the targets, inside the range of the data."""
    ad, m, rows = build(ctx, models.Knn, n=25)
    rng = ctx.rng
    cs = [int(c) for c in rng.permutation(ad.outputs)]
    t = cs[:int(rng.randint(1, len(cs) + 1))]
    if not len(ad.complete(rows, cs)) >= max(ad.K, 2):
        return
    for n in (1, 4):
        try:
            s = m.simulate(None, list(t), None, None, n)
        except ValueError as e:
            ctx.true('neighbors' in str(e), 'knn:unconstrained',
                     'simulate without constraints: %s' % e)
            return
        shape(ctx, s, t, n, 'knn')
        for x in s:
            for c in t:
                col = [o[c] for o, _ in rows.values()
                       if not mix.isnan(o.get(c))]
                if ad.kind[c]:
                    ctx.true(int(x[c]) in {int(v) for v in col},
                             'knn:unconstrained', 'category %r never '
                             'recorded' % x[c])
                else:
                    sp = max(col) - min(col) + 1
                    ctx.true(min(col) - 5 * sp < x[c] < max(col) + 5 * sp,
                             'knn:unconstrained', 'value %r far from the '
                             'data' % x[c])
    ctx.case(dict(ad.desc(), t=t), True)


# ----------------------------------------------------------------- factor ---

@scenario(quick=90, thorough=800, timeout=300)
def factor_density(ctx):
    ad, m, rows = build(ctx, models.Factor)
    rng = ctx.rng
    for rnd in range(2):
        P = ad.params_of(m)
        w = dict(ad.desc(), L=ad.L, params=P)
        for q in ad.queries(rows, 6):
            want = ad.ref(m, rows, q)
            ctx.close(ad.ask(m, q), want, 'factor:density',
                      'factor logpdf(%r | %r)' % (q[0], q[1]), 1e-6, 1e-6,
                      query=q, **w)
            sh = ({k: q[0][k] for k in list(q[0])[::-1]},
                  {k: q[1][k] for k in list(q[1])[::-1]}, None)
            ctx.close(ad.ask(m, sh), want, 'factor:order', 'factor logpdf '
                      'with variables listed in another order', 1e-6, 1e-6,
                      query=q, **w)
            r, e = recorded(ad, rows, q, rng)
            ctx.close(ad.ask(m, q, r), ad.ref(m, rows, e),
                      'factor:recorded-row', 'factor logpdf of %r given %r '
                      'for recorded row %r' % (q[0], q[1], rows[r]), 1e-6,
                      1e-6, query=q, **w)
            ks = list(q[0])
            if len(ks) > 1:
                a = {k: q[0][k] for k in ks[:1]}
                b = {k: q[0][k] for k in ks[1:]}
                ctx.close(ad.ask(m, (a, q[1], None)) + ad.ask(
                    m, (b, dict(q[1], **{}) | a, None)), want,
                    'factor:chain', 'factor chain rule', 1e-6, 1e-6,
                    query=q, **w)
            ctx.case(dict(w, q=q, rnd=rnd), True)
        ctx.close(m.logpdf_score(), ad.ref_score(m, rows), 'factor:score',
                  'factor logpdf_score', 1e-6, 1e-6, rows=rows, **w)
        if rnd == 0:
            if not ad.usable(rows):
                break
            before = ad.params_of(m)
            m.transition()
            after = ad.params_of(m)
            D = np.array(ad.complete(rows, ad.observables))
            ctx.close(float(np.abs(np.asarray(after['mux']) -
                                   D.mean(0)).max()), 0., 'factor:mean',
                      'fitted mean vs mean of the complete rows', 1e-7, 1e-7,
                      rows=rows, **w)
            # EM does not make the complete rows less likely than a diagonal
            # Gaussian would
            ll = sum(models.lmvn(d, *[x for x in ad.condition(
                after, ad.observables, [], [])]) for d in D)
            v = D.var(0) + 1e-12
            base = sum(models.lmvn(d, D.mean(0), np.diag(v)) for d in D)
            ctx.true(ll > base - .5 - .01 * len(D), 'factor:fit',
                     'fitted model has log likelihood %r, independent '
                     'Gaussians %r' % (ll, base), rows=rows, **w)


@scenario(quick=45, thorough=400, timeout=300)
def factor_simulate(ctx):
    ad, m, rows = build(ctx, models.Factor)
    rng = ctx.rng
    if ad.usable(rows) and rng.rand() < .4:
        m.transition()
    P = ad.params_of(m)
    for q in ad.queries(rows, 2):
        t, c = list(q[0]), q[1]
        call, eff = None, c
        if rng.rand() < .3:
            call, e = recorded(ad, rows, q, rng)
            eff = e[1]
        mu, S = ad.condition(P, t, list(eff), list(eff.values()))
        if np.linalg.eigvalsh(S)[0] < 1e-8:
            continue
        L = np.linalg.cholesky(S)

        def test(n):
            s = m.simulate(call, list(t), dict(c) or None, None, n)
            ctx.count('samples drawn', n)
            if not shape(ctx, s, t, n, 'factor'):
                return None
            x = np.array([[y[v] for v in t] for y in s], dtype=float)
            z = np.linalg.solve(L, (x - mu).T).T
            from scipy import stats
            return uniform_test(stats.norm.cdf(z))
        ctx.stat('factor:simulate', 'factor simulate(%r, %r, %r)' % (
            call, t, c), test, 300, params=P, **ad.desc())
        one = m.simulate(call, list(t), dict(c) or None)
        ctx.true(isinstance(one, dict) and set(one) == set(t),
                 'factor:shape', 'single sample %r of %r' % (one, t))
        ctx.case(dict(ad.desc(), q=q, P=P), True)


# --------------------------------------------------------------- scripted ---

def counts(samples, c):
    out = {}
    for s in samples:
        out[int(s[c])] = out.get(int(s[c]), 0) + 1
    return out


@scenario(quick=24, thorough=200, timeout=240)
def piecewise(ctx):
    from cgpm.dummy.piecewise import PieceWise
    rng = ctx.rng
    x, z, y = models.varids(rng, 3)
    sigma = float(rng.choice([None, .4, 1, 2.5]) or 1)
    flip = float(rng.choice([.5, .2, .85]))
    m = PieceWise([x, z], [y], sigma=sigma, flip=flip, rng=ctx.newrng())
    yv = float(rng.normal(0, 3))
    pz = [flip, 1 - flip]
    comp = [Component({x: ('n', yv + 2 * k - 1, sigma), z: ('d', [
        1. if j == k else 0. for j in range(2)])}) for k in range(2)]
    I = {y: yv}
    for _ in range(4):
        xv, zv = float(rng.normal(yv, 2)), int(rng.randint(2))
        lx = [models.lgauss(xv, yv + 2 * k - 1, sigma) for k in range(2)]
        lz = [math.log(p) for p in pz]
        mx = mix.lse([lx[0] + lz[0], lx[1] + lz[1]])
        for t, c, want in [
                ({x: xv, z: zv}, None, lx[zv] + lz[zv]),
                ({z: zv, x: xv}, {}, lx[zv] + lz[zv]),
                ({z: zv}, None, lz[zv]), ({x: xv}, None, mx),
                ({x: xv}, {z: zv}, lx[zv]),
                ({z: zv}, {x: xv}, lx[zv] + lz[zv] - mx)]:
            ctx.close(m.logpdf(None, t, c, dict(I)), want,
                      'piecewise:density', 'PieceWise logpdf(%r | %r)' % (
                          t, c), 1e-9, 1e-9, sigma=sigma, flip=flip, y=yv)
            ctx.case(dict(s=sigma, f=flip, y=yv, t=t, c=c), True)
    xv = float(rng.normal(yv, 1))
    post = [math.log(pz[k]) + models.lgauss(xv, yv + 2 * k - 1, sigma)
            for k in range(2)]
    for t, c, lw in [([x, z], None, np.log(pz)), ([z, x], None, np.log(pz)),
                     ([x], None, np.log(pz)), ([z], None, np.log(pz)),
                     ([x], {z: 1}, [-INF, 0.]), ([z], {x: xv}, post)]:
        def test(n):
            s = m.simulate(None, list(t), c, dict(I), n)
            if not shape(ctx, s, t, n, 'piecewise'):
                return None
            ctx.count('samples drawn', n)
            return uniform_test([rosenblatt(comp, list(lw), t, u, rng)
                                 for u in s])
        ctx.stat('piecewise:simulate', 'PieceWise simulate(%r | %r)' % (
            t, c), test, 200, sigma=sigma, flip=flip, y=yv)


@scenario(quick=12, thorough=60, timeout=240)
def ways(ctx):
    """TwoWay and FourWay: tables, for every input."""
    from cgpm.dummy.twoway import TwoWay
    from cgpm.dummy.fourway import FourWay
    rng = ctx.rng
    a, b, c = models.varids(rng, 3)
    table2 = [[.9, .1], [.3, .7]]
    m = TwoWay([a], [b], rng=ctx.newrng())
    for y in (0, 1, 0., 1.):
        for x in range(2):
            ctx.close(m.logpdf(None, {a: float(x) if rng.rand() < .5 else x},
                               None, {b: y}), math.log(table2[int(y)][x]),
                      'twoway:density', 'TwoWay logpdf(%r | %r)' % (x, y))
        for x in (-1, 2, .5):
            ctx.true(m.logpdf(None, {a: x}, None, {b: y}) == -INF,
                     'twoway:outside', 'TwoWay logpdf(%r)' % x)

        def test(n):
            s = m.simulate(None, [a], None, {b: y}, n)
            return chi2_pvalue(counts(s, a), dict(enumerate(
                table2[int(y)]))) if shape(ctx, s, [a], n, 'twoway') else None
        ctx.stat('twoway:simulate', 'TwoWay given %r' % y, test, 300)
        ctx.case(dict(m='twoway', y=y))
    m = FourWay([a], [b, c], rng=ctx.newrng())
    for _ in range(12):
        y = [float(v) for v in rng.normal(0, 1, 2)]
        if rng.rand() < .3:
            y[rng.randint(2)] = 0.
        want = None
        ps = [math.exp(m.logpdf(None, {a: x if rng.rand() < .5 else float(
            x)}, None, {b: y[0], c: y[1]})) for x in range(4)]
        ctx.close(math.fsum(ps), 1., 'fourway:mass', 'FourWay mass at %r' % y)
        quad = [0, 2][y[1] < 0] + (y[0] < 0)
        if 0. not in y:
            ctx.true(max(range(4), key=lambda i: ps[i]) == quad,
                     'fourway:quadrant', 'FourWay favours %r at %r' % (ps, y))
            ctx.true([round(p, 9) for p in ps] == [
                [.8, .1, .05, .05], [.1, .7, .1, .1], [.1, .15, .65, .1],
                [.1, .05, .1, .75]][quad], 'fourway:density',
                'FourWay has %r at %r' % (ps, y))
        for x in (-1, 4, 1.5):
            ctx.true(m.logpdf(None, {a: x}, None, {b: y[0], c: y[1]}) ==
                     -INF, 'fourway:outside', 'FourWay logpdf(%r)' % x)

        def test(n):
            s = m.simulate(None, [a], None, {b: y[0], c: y[1]}, n)
            return chi2_pvalue(counts(s, a), dict(enumerate(ps))) \
                if shape(ctx, s, [a], n, 'fourway') else None
        ctx.stat('fourway:simulate', 'FourWay given %r' % y, test, 300)
        ctx.case(dict(m='fourway', y=y))
    for x in range(4):
        y = FourWay.retrieve_y_for_x(x)
        ps = [m.logpdf(None, {a: j}, None, {b: y[0], c: y[1]})
              for j in range(4)]
        ctx.true(int(np.argmax(ps)) == x, 'fourway:retrieve',
                 'retrieve_y_for_x(%d) = %r gives %r' % (x, y, ps))
    for x in range(2):
        ctx.true(TwoWay.retrieve_y_for_x(x) == x, 'twoway:retrieve', '')


@scenario(quick=12, thorough=60, timeout=240)
def troll_and_bare(ctx):
    from cgpm.dummy.trollnormal import TrollNormal
    from cgpm.dummy.barebones import BareBonesCGpm
    from scipy import stats
    rng = ctx.rng
    a, b, c = models.varids(rng, 3)
    m = TrollNormal([a], [b, c], rng=ctx.newrng())
    for _ in range(3):
        mu, s = float(rng.normal(0, 4)), float(rng.normal(0, 2))
        I = {b: mu, c: s}
        for _ in range(4):
            x = float(rng.normal(mu, 3))
            ctx.close(m.logpdf(None, {a: x}, None, dict(I)), models.lgauss(
                x, mu, abs(s) + 1), 'troll:density',
                'TrollNormal logpdf(%r | %r)' % (x, I), 1e-9, 1e-9)

        def test(n):
            y = m.simulate(None, [a], None, dict(I), n)
            if not shape(ctx, y, [a], n, 'troll'):
                return None
            return uniform_test([[stats.norm.cdf(u[a], mu, abs(s) + 1)]
                                 for u in y])
        ctx.stat('troll:simulate', 'TrollNormal given %r' % I, test, 300)
        ctx.case(dict(m='troll', I=I))
    outs = models.varids(rng, int(rng.randint(1, 4)))
    bb = BareBonesCGpm(list(outs), [30])
    ctx.true(bb.logpdf(None, {outs[0]: 1}) == 0, 'bare:density', '')
    s = bb.simulate(None, list(outs))
    ctx.true(s == {o: 1 for o in outs}, 'bare:simulate', '%r' % s)
    s = bb.simulate(None, list(outs), N=3)
    ctx.true(s == [{o: 1 for o in outs}] * 3, 'bare:simulate', '%r' % s)


def grid2(f, lo, hi, n=160):
    xs = np.linspace(lo, hi, n)
    h = xs[1] - xs[0]
    return math.fsum(math.exp(f(float(x), float(y))) for x in xs
                     for y in xs) * h * h


@scenario(quick=18, thorough=120, timeout=300)
def undirected(ctx):
    """Linear, Dots, XCross."""
    from cgpm.uncorrelated.linear import Linear
    from cgpm.uncorrelated.dots import Dots
    from cgpm.uncorrelated.xcross import XCross
    rng = ctx.rng
    a, b = models.varids(rng, 2)
    noise = float(rng.choice([.1, .3, .6, .9]))
    r = 1 - noise

    def lin(x, y, rho):
        return models.lmvn([x, y], [0, 0], [[1, rho], [rho, 1]])

    def dots(x, y):
        return mix.lse([math.log(.25) + models.lgauss(x, i, noise) +
                        models.lgauss(y, j, noise) for i in (-1, 1)
                        for j in (-1, 1)])

    def dot1(x):
        return mix.lse([math.log(.5) + models.lgauss(x, i, noise)
                        for i in (-1, 1)])
    s = math.sqrt(1 - r * r)
    table = {
        'Linear': (Linear, lambda x, y: lin(x, y, r),
                   lambda x: models.lgauss(x, 0, 1),
                   lambda w, z: models.lgauss(w, r * z, s)),
        'Dots': (Dots, dots, dot1, lambda w, z: dot1(w)),
        'XCross': (XCross, lambda x, y: mix.lse([
            math.log(.5) + lin(x, y, r), math.log(.5) + lin(x, y, -r)]),
            None, None)}
    name = ['Linear', 'Dots', 'XCross'][ctx.index % 3]
    cls, joint, marg, cond = table[name]
    m = cls(outputs=[a, b], noise=noise, rng=ctx.newrng())
    for _ in range(6):
        x, y = [float(v) for v in rng.normal(0, 1.2, 2)]
        for t, want in [({a: x, b: y}, joint(x, y)),
                        ({b: y, a: x}, joint(x, y))]:
            ctx.close(m.logpdf(None, t), want, name + ':joint',
                      '%s logpdf(%r)' % (name, t), 1e-9, 1e-9, noise=noise)
        if marg:
            for v, u in ((a, x), (b, y)):
                ctx.close(m.logpdf(None, {v: u}), marg(u), name + ':marginal',
                          '%s logpdf(%r)' % (name, {v: u}), 1e-9, 1e-9,
                          noise=noise)
            for v, u, c, z in ((a, x, b, y), (b, y, a, x)):
                ctx.close(m.logpdf(None, {v: u}, {c: z}), cond(u, z),
                          name + ':conditional', '%s logpdf(%r | %r)' % (
                              name, u, z), 1e-9, 1e-9, noise=noise)
        ctx.case(dict(m=name, noise=noise, x=x, y=y))

    def test(n):
        t = [[a, b], [b, a]][rng.randint(2)]
        ss = m.simulate(None, list(t), None, None, n)
        if not shape(ctx, ss, t, n, name):
            return None
        us = []
        from scipy import stats
        for q in ss:
            x, y = q[a], q[b]
            if name == 'Linear':
                us.append([stats.norm.cdf(x), stats.norm.cdf((y - r * x) /
                                                             s)])
            elif name == 'Dots':
                comps = [Component({a: ('n', i, noise), b: ('n', j, noise)})
                         for i in (-1, 1) for j in (-1, 1)]
                us.append(rosenblatt(comps, [math.log(.25)] * 4, [a, b], q,
                                     rng))
            else:
                us.append([stats.norm.cdf(x), .5 * stats.norm.cdf(
                    (y - r * x) / s) + .5 * stats.norm.cdf((y + r * x) / s)])
        return uniform_test(us)
    ctx.stat(name + ':simulate', '%s samples (noise %r)' % (name, noise),
             test, 300)
    for v, c in ((a, b), (b, a)):
        if not cond:
            break
        z = float(rng.normal())

        def test1(n):
            from scipy import stats
            y = m.simulate(None, [v], {c: z}, None, n)
            if not shape(ctx, y, [v], n, name):
                return None
            if name == 'Linear':
                return uniform_test([[stats.norm.cdf((u[v] - r * z) / s)]
                                     for u in y])
            comps = [Component({v: ('n', i, noise)}) for i in (-1, 1)]
            return uniform_test([rosenblatt(comps, [0., 0.], [v], u, rng)
                                 for u in y])
        ctx.stat(name + ':simulate', '%s samples given %r' % (name, z),
                 test1, 300)
    if name == 'Linear':
        ctx.close(m.mutual_information(), -.5 * math.log(1 - r * r),
                  'Linear:mutual-information', '')


@scenario(quick=9, thorough=60, timeout=300)
def directed(ctx):
    """UniformX, SinY, ParabolaY, Ring, Diamond: densities, samples, and the
    joint as a network."""
    from cgpm.uncorrelated.uniformx import UniformX
    from cgpm.uncorrelated import sin, parabola, ring, diamond
    from scipy import stats
    rng = ctx.rng
    a, b = models.varids(rng, 2)
    noise = float(rng.choice([.05, .2, .5]))
    lo, w = float(rng.normal(0, 2)), float(rng.uniform(.5, 4))
    ux = UniformX([a], low=lo, high=lo + w, rng=ctx.newrng())
    ctx.close(ux.logpdf(None, {a: lo + .4 * w}), -math.log(w),
              'uniformx:density', 'UniformX logpdf')
    for x in (lo - .1, lo + w + .1):
        ctx.true(ux.logpdf(None, {a: x}) == -INF, 'uniformx:outside', '')
    ctx.stat('uniformx:simulate', 'UniformX', lambda n: uniform_test(
        [[(s[a] - lo) / w] for s in ux.simulate(None, [a], N=n)]), 300)
    sy = sin.SinY([b], [a], noise=noise, rng=ctx.newrng())
    py = parabola.ParabolaY([b], [a], noise=noise, rng=ctx.newrng())
    for _ in range(5):
        x = float(rng.uniform(-4.5, 4.5))
        c = math.cos(x)
        for u, inside in ((.5, True), (1.2, False), (-.2, False)):
            y = c + u * noise * (1 if c < 0 else -1)
            ctx.close(sy.logpdf(None, {b: y}, None, {a: x}),
                      -math.log(noise) if inside else -INF, 'sin:density',
                      'SinY logpdf(%r | %r)' % (y, x), 1e-9, 1e-9)

        def test(n):
            s = sy.simulate(None, [b], None, {a: x}, n)
            return uniform_test([[(v[b] - c) / noise * (
                1 if c < 0 else -1)] for v in s])
        ctx.stat('sin:simulate', 'SinY given %r' % x, test, 200)
        x = float(rng.uniform(-1, 1))

        def dens(y):
            return .25 / noise * ((abs(y - x * x) <= noise) +
                                  (abs(-y - x * x) <= noise))
        for y in (x * x + .3 * noise, -x * x - .6 * noise, x * x + 1.3 *
                  noise, -x * x - 1.2 * noise):
            d = dens(y)
            ctx.close(py.logpdf(None, {b: y}, None, {a: x}),
                      math.log(d) if d else -INF, 'parabola:density',
                      'ParabolaY logpdf(%r | %r)' % (y, x), 1e-9, 1e-9)

        def test(n):
            s = py.simulate(None, [b], None, {a: x}, n)
            us = []
            for v in s:
                y = v[b]
                F = lambda t: min(max((t + noise) / (2 * noise), 0.), 1.)
                us.append([.5 * F(y - x * x) + .5 * (1 - F(-y - x * x))])
            return uniform_test(us)
        ctx.stat('parabola:simulate', 'ParabolaY given %r' % x, test, 200)
        ctx.case(dict(m='directed', noise=noise, x=x))
    for mod, cls, low, hi in ((sin, 'Sin', -1.5 * math.pi, 1.5 * math.pi),
                              (parabola, 'Parabola', -1., 1.)):
        m = getattr(mod, cls)(outputs=[a, b], noise=noise, rng=ctx.newrng())
        x = float(rng.uniform(low, hi))
        y = (x * x + .2 * noise) if cls == 'Parabola' else (
            math.cos(x) + .3 * noise * (1 if math.cos(x) < 0 else -1))
        ly = -math.log(noise) if cls == 'Sin' else math.log(
            .25 / noise * ((abs(y - x * x) <= noise) +
                           (abs(-y - x * x) <= noise)))
        ctx.close(m.logpdf(None, {a: x, b: y}), ly - math.log(hi - low),
                  cls + ':joint', '%s joint density' % cls, 1e-9, 1e-9)
        ctx.close(m.logpdf(None, {b: y}, {a: x}), ly, cls + ':conditional',
                  '%s conditional density' % cls, 1e-9, 1e-9)
        s = m.simulate(None, [a, b], None, None, 50)
        shape(ctx, s, [a, b], 50, cls)
        ctx.true(all(m.logpdf(None, v) > -INF for v in s), cls + ':support',
                 '%s samples have no density' % cls)
        s = m.simulate(None, [b], {a: x}, None, 20)
        shape(ctx, s, [b], 20, cls)
        ctx.true(all(m.logpdf(None, v, {a: x}) > -INF for v in s),
                 cls + ':support', '%s samples given %r have no density' % (
                     cls, x))
    m = ring.Ring(outputs=[a, b], noise=noise, rng=ctx.newrng())
    us = []
    for v in m.simulate(None, [a, b], None, None, 400):
        d = math.hypot(v[a], v[b])
        us.append([(math.atan2(v[b], v[a]) % (2 * math.pi)) / 2 / math.pi,
                   (d - 1 + noise) / noise])
    from vlib import uniform_test as ut
    ctx.true(all(-1e-9 <= u[1] <= 1 + 1e-9 for u in us), 'ring:support', '')
    ctx.true(not ut(us) < 1e-7, 'ring:simulate', 'Ring samples are not '
             'uniform in angle and distance')
    m = diamond.Diamond(outputs=[a, b], noise=noise, rng=ctx.newrng())
    for v in m.simulate(None, [a, b], None, None, 100):
        g = abs(v[a]) + abs(v[b])
        ctx.true(1 - noise - 1e-9 <= g <= 1 + 1e-9, 'diamond:support',
                 'Diamond sample %r' % v)
