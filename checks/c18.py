"""C18: mutual information estimates are correct."""
import itertools
import math

import numpy as np
from scipy import stats
from scipy.special import digamma

import mix
import prims
import queries as Q
from vlib import scenario

RULE = ('a case is one mutual information query (groups, fixed and '
        'marginalised conditions) of a state, its estimates held against the '
        'exact value and exact sampling variance from enumeration or '
        'quadrature, or one call of an estimator on given data held against '
        'its definition evaluated by brute force; distinct by query and state')

TECHNIQUE = ('statistical monitor (z test with the exact variance of the '
             'estimator, escalating sample sizes) against exact enumeration '
             'of the state\'s distribution; brute force recomputation for the '
             'standalone estimators')


def card(spec):
    return 2 if spec['cctype'] == 'bernoulli' else int(spec['distargs']['k'])


class Joint(object):
    """The state's distribution over its (finite discrete) columns."""

    def __init__(self, st, X, specs):
        self.ref = mix.RefState(st, X)
        self.dom = {c: range(card(specs[c])) for c in X}
        self.Zv = self.ref.Zv

    def table(self, cols, given):
        """{values of cols: probability} given {col: value}"""
        out = {}
        for vals in itertools.product(*[self.dom[c] for c in cols]):
            out[vals] = math.exp(self.ref.logpdf(dict(zip(cols, vals)),
                                                 given)) if cols else 1.
        s = sum(out.values())
        return {v: p / s for v, p in out.items()}

    def inner(self, a, b, given, entropy):
        """mean and variance of one term of the estimator"""
        cols = list(a) if entropy else list(a) + list(b)
        t = self.table(cols, given)
        ta = {}
        tb = {}
        for v, p in t.items():
            ta[v[:len(a)]] = ta.get(v[:len(a)], 0) + p
            tb[v[len(a):]] = tb.get(v[len(a):], 0) + p
        m = m2 = 0.
        for v, p in t.items():
            if p <= 0:
                continue
            x = -math.log(p) if entropy else math.log(p) - math.log(
                ta[v[:len(a)]]) - math.log(tb[v[len(a):]])
            m += p * x
            m2 += p * x * x
        return m, max(0., m2 - m * m)

    def query(self, a, b, cond, T, N):
        """(exact value, variance of the estimate). Independent views
        contribute separately."""
        entropy = set(a) == set(b)
        total = var = 0.
        for v in sorted(set(self.Zv.values())):
            av = [c for c in a if self.Zv[c] == v]
            bv = [c for c in b if self.Zv[c] == v]
            if not av or not bv:
                continue
            fixed = {c: x for c, x in cond.items()
                     if x is not None and self.Zv[c] == v}
            marg = [c for c, x in cond.items()
                    if x is None and self.Zv[c] == v]
            if not marg:
                m, s = self.inner(av, bv, fixed, entropy)
                total, var = total + m, var + s / N
                continue
            e = e2 = es = 0.
            for vals, p in self.table(marg, fixed).items():
                m, s = self.inner(av, bv, dict(fixed, **{}) | dict(
                    zip(marg, vals)), entropy)
                e, e2, es = e + p * m, e2 + p * m * m, es + p * s
            total += e
            var += max(0., e2 - e * e) / T + es / (T * N)
        return total, var


def gen_state(ctx, n_cols):
    rng = ctx.rng
    st, X, specs = mix.random_state(
        rng, n_rows=int(rng.randint(3, 14)), n_cols=n_cols,
        types=['bernoulli', 'categorical'], missing=.1)
    for c in X:
        if card(specs[c]) > 4:
            return gen_state(ctx, n_cols)
    return st, X, specs


def judge(ctx, st, joint, a, b, cond, desc):
    marg = any(x is None for x in cond.values())

    def test(n):
        N = n if not marg else max(5, int(n ** .5))
        T = 1 if not marg else max(5, int(n ** .5))
        want, var = joint.query(a, b, cond, T, N)
        got = st.mutual_information(list(a), list(b), dict(cond) or None,
                                    **(dict(N=N) if not marg else
                                       dict(T=T, N=N)))
        ctx.count('samples', N * T)
        if var < 1e-16:
            return 1. if abs(got - want) < 1e-7 else 0.
        z = (got - want) / math.sqrt(var)
        # the estimate is a mean of N*T bounded but skewed terms
        return float(2 * stats.t.sf(abs(z), 8)) if n < 200 else \
            float(2 * stats.norm.sf(abs(z)))
    want, var = joint.query(a, b, cond, 30, 30)
    ctx.case('%s %r' % (desc, want), want > 1e-9)
    ctx.stat('estimate', '%s: exact value %r' % (desc, want), test, n=300,
             stages=((1, 1e-3), (5, 1e-4), (16, 1e-8)))


@scenario(quick=72, thorough=480)
def discrete(ctx):
    rng = ctx.rng
    st, X, specs = gen_state(ctx, int(rng.randint(2, 6)))
    if rng.rand() < .7:           # columns do share a view, rows do cluster
        v = gen_one_view(ctx, X, specs)
        st = v or st
    joint = Joint(st, X, specs)
    cols = sorted(X)
    for _ in range(3):
        p = [cols[i] for i in rng.permutation(len(cols))]
        na = 1 + int(rng.rand() < .3)
        a, p = p[:na], p[na:]
        if not p or rng.rand() < .25:
            b = list(a)
            rng.shuffle(b)
        else:
            nb = 1 + int(rng.rand() < .3)
            b, p = p[:nb], p[nb:]
        cond = {c: (None if rng.rand() < .5 else
                    int(rng.randint(card(specs[c]))))
                for c in p if rng.rand() < .7}
        judge(ctx, st, joint, a, b, cond, 'MI(%r : %r | %r), partition %r' % (
            a, b, cond, dict(st.Zv())))
        if ctx.violations:
            return


@scenario(quick=24, thorough=240)
def conditioned(ctx):
    """Fixed and marginalised conditions together, chosen so that leaving
    either out of either part of the estimate gives another value."""
    rng = ctx.rng
    best = None
    for _ in range(12):
        k, n = 4, int(rng.randint(12, 24))
        z = [int(x) for x in rng.randint(0, 3, n)]
        cols = [int(c) for c in rng.permutation(12)[:k]]
        specs = {c: dict(cctype='bernoulli', distargs=None,
                         hypers={'alpha': .05, 'beta': .05}) for c in cols}
        m = rng.randint(0, 2, (k, 3))
        X = {c: [float(m[i][r]) for r in z] for i, c in enumerate(cols)}
        flip = cols[rng.randint(k)]
        X[flip] = [float(rng.randint(2)) if rng.rand() < .3 else x
                   for x in X[flip]]
        st = mix.make_state(rng, X, specs, Zv={c: 0 for c in cols},
                            Zrv={0: z}, alpha=1., view_alphas={0: .2})
        joint = Joint(st, X, specs)
        p = [cols[i] for i in rng.permutation(k)]
        a, b, f, g = [p[0]], [p[1]], p[2], p[3]
        if rng.rand() < .25:
            b = list(a)
        entropy = a == b
        fixed = {f: int(rng.randint(2))}
        want, var = joint.query(a, b, {f: fixed[f], g: None}, 30, 30)

        def mixed(outer, inner):
            return sum(q * joint.inner(a, b, dict(inner, **{}) | {g: v[0]},
                                       entropy)[0]
                       for v, q in joint.table([g], outer).items())
        wrong = [mixed({}, fixed), mixed(fixed, {}),
                 joint.inner(a, b, fixed, entropy)[0]]
        apart = min(abs(w - want) for w in wrong) + .1 * max(
            abs(w - want) for w in wrong)
        if best is None or apart > best[0]:
            best = apart, st, joint, a, b, {f: fixed[f], g: None}
    apart, st, joint, a, b, cond = best
    judge(ctx, st, joint, a, b, cond, 'MI(%r : %r | %r)' % (a, b, cond))


def gen_one_view(ctx, X, specs):
    """columns that tell the clusters apart"""
    rng = ctx.rng
    n = len(next(iter(X.values())))
    z = [int(rng.randint(3)) for _ in range(n)]
    for c in X:
        if rng.rand() < .8:
            m = [int(rng.randint(card(specs[c]))) for _ in range(3)]
            for r in range(n):
                if rng.rand() < .85:
                    X[c][r] = float(m[z[r]])
        specs[c]['hypers'] = {'alpha': .3, 'beta': .4} \
            if specs[c]['cctype'] == 'bernoulli' else {'alpha': .2}
    cut = len(X) if rng.rand() < .6 else max(1, len(X) - 1)
    Zv = {c: (0 if i < cut else 1) for i, c in enumerate(X)}
    return mix.make_state(rng, X, specs, Zv=Zv, Zrv={v: list(z) for v in set(
        Zv.values())}, alpha=1., view_alphas={v: .3 for v in set(
            Zv.values())})


@scenario(quick=18, thorough=120)
def independent(ctx):
    """columns of different views: exactly zero, of any type, whatever is
    fixed or marginalised; a refused query says so"""
    rng = ctx.rng
    X, specs = mix.gen_table(rng, int(rng.randint(2, 8)), 5, None, .2)
    cols = list(X)
    rng.shuffle(cols)
    Zv = {c: int(i >= 2) + int(i >= 4) for i, c in enumerate(cols)}
    st = mix.make_state(rng, X, specs, Zv=Zv)
    for _ in range(6):
        p = [cols[i] for i in rng.permutation(5)]
        a = [p[0]]
        b = [c for c in p[1:] if Zv[c] != Zv[a[0]]][:1 + rng.randint(2)]
        cond = {c: (None if rng.rand() < .5 else
                    mix.gen_new_value(rng, specs[c]))
                for c in p if c not in a + b and rng.rand() < .5}
        got = st.mutual_information(a, b, cond, T=3, N=4)
        ctx.true(got == 0, 'independent', 'MI(%r : %r | %r) = %r, '
                 'partition %r' % (a, b, cond, got, Zv))
        ctx.case('%r %r %r %r' % (a, b, cond, Zv))
    a, b, c = cols[:3]
    for q in (([a], [b], {a: 1.}), ([a], [b], {b: None}),
              ([a, b], [b, c], {}), ([a, b], [a], {})):
        ctx.raises(ValueError, lambda: st.mutual_information(*q, N=3),
                   'overlap-accepted', 'overlapping %r' % (q,))


@scenario(quick=18, thorough=120)
def foreign(ctx):
    """with composed models, what no path connects has none"""
    rng = ctx.rng
    st, X, specs = mix.random_state(
        rng, n_rows=5, n_cols=4, types=['bernoulli', 'categorical'],
        missing=0.)
    foreign = Q.hook_models(rng, st, X, specs, n=2)
    Zv = dict(st.Zv())
    comp = {c: {('v', v)} for c, v in Zv.items()}
    label = {('v', v): ('v', v) for v in Zv.values()}
    for t, m in st.hooked_cgpms.items():
        label['h', t] = ('h', t)
    node = dict({c: ('v', v) for c, v in Zv.items()}, **{})
    for t, m in st.hooked_cgpms.items():
        for o in m.outputs:
            node[o] = ('h', t)

    def find(x):
        while label[x] != x:
            x = label[x]
        return x
    for t, m in st.hooked_cgpms.items():
        for i in m.inputs:
            label[find(('h', t))] = find(node[i])
    everything = list(X) + list(foreign)
    for a, b in itertools.combinations(everything, 2):
        if find(node[a]) != find(node[b]):
            got = st.mutual_information([a], [b], N=3)
            ctx.true(got == 0, 'independent', 'composed: MI(%r : %r) = %r'
                     % (a, b, got))
            ctx.case('%r %r %r' % (a, b, node))
    ctx.case('%r' % node, False)


@scenario(quick=18, thorough=120)
def numerical(ctx):
    """two normal columns of one view, against quadrature"""
    rng = ctx.rng
    n = int(rng.randint(4, 12))
    z = [int(rng.randint(2)) for _ in range(n)]
    mu = rng.normal(0, 3, (2, 2))
    X = {c: [float(mu[c][k] + rng.normal()) for k in z] for c in (0, 1)}
    specs = {c: dict(cctype='normal', distargs=None,
                     hypers=dict(m=0., r=.5, s=2., nu=4.)) for c in (0, 1)}
    st = mix.make_state(rng, X, specs, Zv={0: 0, 1: 0}, Zrv={0: z},
                        alpha=1., view_alphas={0: .5})
    ref = mix.ref_view(st.views[0], X)
    u = np.linspace(-1, 1, 802)[1:-1] * math.pi / 2
    g = 3. * np.tan(u)
    w = np.log(3. / np.cos(u) ** 2 * (u[1] - u[0]))
    ks = ref.tables()
    f = {c: np.array([[ref.cell(c, k, float(x)) for x in g] for k in ks])
         for c in (0, 1)}
    lw = np.array([ref.crp(k) for k in ks])
    from scipy.special import logsumexp
    lxy = logsumexp(lw[:, None, None] + f[0][:, :, None] + f[1][:, None, :],
                    axis=0)
    lx = logsumexp(lw[:, None] + f[0], axis=0)
    ly = logsumexp(lw[:, None] + f[1], axis=0)
    P = np.exp(lxy + w[:, None] + w[None, :])
    pmi = lxy - lx[:, None] - ly[None, :]
    if abs(P.sum() - 1) > 1e-3:
        return
    exact = float((P * pmi).sum())
    var = float((P * pmi ** 2).sum() - exact ** 2)
    px = np.exp(lx + w)
    H = float(-(px * lx).sum())
    varh = float((px * lx ** 2).sum() - H ** 2)
    ctx.case('normal %r %r' % (X, z), exact > 1e-3)
    for a, b, want, v in (([0], [1], exact, var), ([1], [0], exact, var),
                          ([0], [0], H, varh)):
        def test(n):
            got = st.mutual_information(a, b, N=n)
            ctx.count('samples', n)
            zz = abs(got - want) / math.sqrt(v / n)
            return float(2 * stats.norm.sf(max(0., zz - .02)))
        ctx.stat('estimate-normal', 'MI(%r : %r): exact value %r' % (
            a, b, want), test, n=400, stages=((1, 1e-3), (4, 1e-4),
                                              (16, 1e-8)))
    # more samples, by default, than none
    ctx.true(math.isfinite(st.mutual_information([0], [1])), 'default',
             'default sample sizes')


# ------------------------------------------------- standalone estimators ---

def ref_H(p):
    return -math.fsum(x * math.log(x) for x in p if 0 < x)


def freq(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return [n / float(len(xs)) for n in d.values()]


@scenario(quick=9, thorough=60)
def estimators_discrete(ctx):
    import cgpm.utils.entropy_estimators as ee
    rng = ctx.rng
    for _ in range(40):
        n = int(rng.randint(1, 60))
        kx, ky, kz = [int(k) for k in rng.randint(1, 5, 3)]
        x = [int(v) for v in rng.randint(0, kx, n)]
        y = [(v + int(rng.rand() < .3)) % ky for v in x]
        z = [int(v) for v in rng.randint(0, kz, n)]
        base = [2, math.e, 10][rng.randint(3)]
        lb = math.log(base)
        H = lambda *s: ref_H(freq(list(zip(*s)))) / lb
        for name, got, want in (
                ('entropyd', ee.entropyd(x, base=base), H(x)),
                ('midd', ee.midd(x, y, base=base), H(x) + H(y) - H(x, y)),
                ('cmidd', ee.cmidd(x, y, z, base=base),
                 H(y, z) + H(x, z) - H(x, y, z) - H(z)),
                ('entropyfromprobs', ee.entropyfromprobs(
                    freq(x) + [0.], base=base), H(x))):
            ctx.close(got, want, 'estimator:' + name, '%s of %r %r %r base %r'
                      % (name, x, y, z, base), 1e-9, 1e-9)
        ctx.case('%r %r %r %r' % (x, y, z, base), n > 3)
    ctx.close(ee.entropyd(list(range(8))), 3., 'estimator:entropyd',
              'default base is 2')


def kth(points, i, k, others=None, skip=True):
    d = sorted(max(abs(a - b) for a, b in zip(points[i], q))
               for j, q in enumerate(points if others is None else others)
               if others is not None or j != i)
    return d[k - 1]


def within(points, i, eps):
    """points strictly closer than eps, the point itself included"""
    return sum(1 for q in points if max(
        abs(a - b) for a, b in zip(points[i], q)) < eps - 1e-9)


@scenario(quick=12, thorough=80)
def estimators_continuous(ctx):
    import cgpm.utils.entropy_estimators as ee
    rng = ctx.rng
    for _ in range(6):
        n = int(rng.randint(12, 40))
        k = int(rng.randint(1, 5))
        base = [2, math.e][rng.randint(2)]
        lb = math.log(base)
        dx, dy, dz = [int(d) for d in rng.randint(1, 3, 3)]
        pts = lambda d: [[float(v) for v in r] for r in rng.normal(
            0, 1, (n, d))]
        x, z = pts(dx), pts(dz)
        y = [[r[0] + .3 * float(rng.normal())] + [float(rng.normal())] * (
            dy - 1) for r in x]
        xy = [a + b for a, b in zip(x, y)]
        xyz = [a + b + c for a, b, c in zip(x, y, z)]
        rn = range(n)
        want = (digamma(n) - digamma(k) + dx * math.log(2) + dx * sum(
            math.log(kth(x, i, k)) for i in rn) / n) / lb
        ctx.close(ee.entropy(x, k, base), want, 'estimator:entropy',
                  'entropy of %d points, k=%d' % (n, k), 1e-6, 1e-6)
        av = lambda p, eps: sum(digamma(within(p, i, eps[i]))
                                for i in rn) / n
        eps = [kth(xy, i, k) for i in rn]
        want = (digamma(k) + digamma(n) - av(x, eps) - av(y, eps)) / lb
        ctx.close(ee.mi(x, y, k, base), want, 'estimator:mi',
                  'mi of %d points, k=%d' % (n, k), 1e-6, 1e-6)
        eps = [kth(xyz, i, k) for i in rn]
        xz = [a + b for a, b in zip(x, z)]
        yz = [a + b for a, b in zip(y, z)]
        want = (digamma(k) + av(z, eps) - av(xz, eps) - av(yz, eps)) / lb
        ctx.close(ee.cmi(x, y, z, k, base), want, 'estimator:cmi',
                  'cmi of %d points, k=%d' % (n, k), 1e-6, 1e-6)
        m = int(rng.randint(8, 30))
        q = [[float(v) + .5 for v in r] for r in rng.normal(0, 1, (m, dx))]
        want = (math.log(m) - math.log(n - 1) + dx * sum(
            math.log(kth(x, i, k, q)) for i in rn) / n - dx * sum(
            math.log(kth(x, i, k)) for i in rn) / n) / lb
        ctx.close(ee.kldiv(x, q, k, base), want, 'estimator:kldiv',
                  'kldiv of %d, %d points, k=%d' % (n, m, k), 1e-6, 1e-6)
        lab = [int(v) for v in rng.randint(0, 2, n)]
        parts = [[x[i] for i in rn if lab[i] == v] for v in (0, 1)]
        if min(len(p) for p in parts) > k:
            hh = lambda p: (digamma(len(p)) - digamma(k) + dx * math.log(2)
                            + dx * sum(math.log(kth(p, i, k)) for i in range(
                                len(p))) / len(p)) / lb
            want = hh(x) - sum(len(p) / float(n) * hh(p) for p in parts)
            ctx.close(ee.micd(x, lab, k, base), want, 'estimator:micd',
                      'micd of %d points, k=%d' % (n, k), 1e-6, 1e-6)
        ctx.case('%d %d %r' % (n, k, x[:3]))


@scenario(quick=4, thorough=12)
def estimators_consistent(ctx):
    """on large Gaussian samples the estimates approach the exact values"""
    import cgpm.utils.entropy_estimators as ee
    rng = ctx.rng
    n = 3000
    rho = float(rng.uniform(-.95, .95))
    a = rng.normal(0, 1, n)
    b = rho * a + math.sqrt(1 - rho * rho) * rng.normal(0, 1, n)
    x, y = [[float(v)] for v in a], [[float(v)] for v in b]
    mi = -.5 * math.log(1 - rho * rho)
    h = .5 * math.log(2 * math.pi * math.e)
    ctx.close(ee.entropy(x, 3, math.e), h, 'estimator:entropy-gauss',
              'standard normal', 0, .12)
    ctx.close(ee.mi(x, y, 3, math.e), mi, 'estimator:mi-gauss',
              'correlation %r' % rho, 0, .12)
    z = [[float(v)] for v in rng.normal(0, 1, n)]
    ctx.close(ee.cmi(x, y, z, 3, math.e), mi, 'estimator:cmi-gauss',
              'correlation %r given noise' % rho, 0, .2)
    ctx.case('gauss %r' % rho)
