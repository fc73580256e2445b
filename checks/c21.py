"""C21: numerical and combinatorial utilities match their definitions."""
import copy
import io
import itertools
import math
import os
import sys
import time

import numpy as np
import pandas as pd

from cgpm.utils import config as cu
from cgpm.utils import data as du
from cgpm.utils import general as gu
from cgpm.utils import timer as tu
from cgpm.utils import validation as vu

from vlib import Inconclusive, scenario, same, chi2_pvalue, serial_pvalue

RULE = ('a case is one call of one utility on one generated input, whose '
        'result is compared with a direct evaluation of its definition '
        '(extended precision sums, enumeration, or frequencies of repeated '
        'draws) and whose arguments are compared before and after; '
        'non-trivial when the input is not empty')
INF = float('inf')
NAN = float('nan')


def frozen(ctx, mech, f, *args, **kw):
    """Call f; its arguments must come out as they went in."""
    before = repr((args, sorted(kw.items(), key=lambda t: t[0])))
    r = f(*args, **kw)
    after = repr((args, sorted(kw.items(), key=lambda t: t[0])))
    ctx.true(before == after, mech + ':mutates',
             '%s changed its arguments: %s -> %s' % (mech, before, after))
    return r


def logs(rng, n=None, special=True):
    if n is None:
        n = int(rng.randint(1, 8) if rng.rand() < .9 else
                rng.randint(8, 400))
    kind = rng.randint(5)
    xs = [float(x) for x in rng.normal(0, [1, 30, 1000, 1e-3, 1][kind], n)]
    if kind == 4:
        xs = [x - 1e4 for x in xs]
    if special:
        for i in range(n):
            if rng.rand() < .15:
                xs[i] = -INF
    return xs


def ref_lse(xs):
    if any(math.isnan(x) for x in xs):
        return NAN
    if INF in xs:
        return INF
    m = max(xs) if xs else -INF
    if m == -INF:
        return -INF
    return m + math.log(math.fsum(math.exp(x - m) for x in xs))


@scenario(quick=150, thorough=300)
def log_sums(ctx):
    rng = ctx.rng
    for _ in range(30):
        xs = logs(rng)
        as_ = [xs, tuple(xs), np.asarray(xs)][rng.randint(3)]
        ctx.close(frozen(ctx, 'logsumexp', gu.logsumexp, as_), ref_lse(xs),
                  'logsumexp', 'of %r' % xs, 1e-12, 1e-10)
        ctx.close(frozen(ctx, 'logmeanexp', gu.logmeanexp, as_),
                  ref_lse(xs) - math.log(len(xs)), 'logmeanexp',
                  'of %r' % xs, 1e-12, 1e-10)
        ws = logs(rng, len(xs))
        if max(ws) > -INF:
            want = ref_lse([a + w for a, w in zip(xs, ws)]) - ref_lse(ws)
            ctx.close(frozen(ctx, 'logmeanexp_weighted',
                             gu.logmeanexp_weighted, xs, ws), want,
                      'logmeanexp_weighted', 'of %r by %r' % (xs, ws),
                      1e-12, 1e-9)
        if max(xs) > -INF:
            got = frozen(ctx, 'log_normalize', gu.log_normalize,
                         np.asarray(xs))
            n = ref_lse(xs)
            for g, x in zip(got, xs):
                ctx.close(g, x - n, 'log_normalize', 'of %r' % xs,
                          1e-10, 1e-9)
            ctx.true(len(got) == len(xs), 'log_normalize', 'length')
        ctx.case(dict(xs=xs))
    # NaN propagates; the degenerate inputs
    for xs, want in [([], -INF), ([-INF], -INF), ([-INF, -INF], -INF),
                     ([INF], INF), ([INF, 0.], INF), ([INF, INF], INF),
                     ([0.], 0.), ([NAN], NAN), ([0., NAN], NAN),
                     ([NAN, 0.], NAN), ([-1e308, -1e308], -1e308),
                     ([1e308, 1e308], 1e308), ([5, 5], 5 + math.log(2)),
                     ([700., 800.], 800.), ([-800, -801],
                     -800 + math.log1p(math.exp(-1)))]:
        ctx.close(gu.logsumexp(xs), want, 'logsumexp', 'of %r' % xs, 1e-12,
                  1e-10)
        ctx.close(gu.logmeanexp(xs), want - math.log(len(xs)) if xs
                  else want, 'logmeanexp', 'of %r' % xs, 1e-12, 1e-10)
        ctx.case(dict(xs=repr(xs)))
    ctx.close(gu.logmeanexp([INF, -INF]), INF, 'logmeanexp',
              'infinite mean')
    ctx.close(gu.logmeanexp([0, -INF, -INF, -INF]), -math.log(4),
              'logmeanexp', 'zero addends count')
    ctx.true(math.isnan(gu.logsumexp([NAN, -INF])) and
             math.isnan(gu.logmeanexp([NAN, -INF])), 'logsumexp',
             'NaN with -inf')


@scenario(quick=100, thorough=200)
def arrays(ctx):
    rng = ctx.rng
    for _ in range(20):
        p = rng.exponential(1, rng.randint(1, 7)) * 10**rng.uniform(-8, 8)
        if rng.rand() < .3 and len(p) > 1:
            p[rng.randint(len(p))] = 0
        if rng.rand() < .3:
            p = np.ceil(p).astype(int)
        arg = [p, list(p)][rng.randint(2)]
        got = frozen(ctx, 'normalize', gu.normalize, arg)
        tot = math.fsum(float(x) for x in p)
        for g, x in zip(got, p):
            ctx.close(g, float(x) / tot, 'normalize', 'of %r' % arg, 1e-10,
                      1e-300)
        a, b = np.exp(rng.uniform(-10, 10, 2))
        n = int(rng.randint(1, 50))
        got = gu.log_linspace(a, b, n)
        ctx.true(len(got) == n, 'log_linspace', 'length %d' % len(got))
        for i, g in enumerate(got):
            want = a if n == 1 else a * (b / a)**(i / (n - 1))
            ctx.close(g, want, 'log_linspace', '%r..%r %d' % (a, b, n),
                      1e-9, 0)
        n = int(rng.randint(0, 60))
        k = int(rng.randint(0, n + 1))
        ctx.close(gu.log_nCk(n, k), math.log(math.comb(n, k)), 'log_nCk',
                  '%d choose %d' % (n, k), 1e-10, 1e-10)
        ctx.case(dict(p=list(map(float, p)), n=n, k=k))
    for n, k in [(10**6, 3), (5000, 2500), (1, 0), (1, 1), (0, 0), (2, 1)]:
        want = math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(
            n - k + 1)
        ctx.close(gu.log_nCk(n, k), want, 'log_nCk', '%d %d' % (n, k),
                  1e-9, 1e-9)


def rgs(n):
    """All restricted growth strings of length n (all partitions)."""
    def go(z, m):
        if len(z) == n:
            yield list(z)
            return
        for k in range(m + 1):
            for r in go(z + [k], max(m, k + 1)):
                yield r
    return go([], 0)


def seq_crp(z, alpha):
    lp, counts = 0., {}
    for i, k in enumerate(z):
        lp += math.log(counts.get(k, alpha) / (i + alpha))
        counts[k] = counts.get(k, 0) + 1
    return lp


@scenario(quick=100, thorough=200)
def crp_density(ctx):
    rng = ctx.rng
    for _ in range(3):
        alpha = float(np.exp(rng.uniform(-5, 5)))
        if rng.rand() < .3:
            alpha = int(rng.randint(1, 5))
        n = int(rng.randint(1, 7))
        total = []
        for z in rgs(n):
            c = {}
            for k in z:
                c[k] = c.get(k, 0) + 1
            Nk = [c[k] for k in sorted(c)]
            rng.shuffle(Nk)
            want = seq_crp(z, alpha)
            got = frozen(ctx, 'logp_crp', gu.logp_crp, n, Nk, alpha)
            ctx.close(got, want, 'logp_crp', '%r alpha %r' % (z, alpha),
                      1e-9, 1e-9)
            total.append(got)
            # equal up to a term free of alpha
            u = gu.logp_crp_unorm(n, len(Nk), alpha) - got
            w = -sum(math.lgamma(c) for c in Nk)
            ctx.close(u, w, 'logp_crp_unorm', '%r alpha %r' % (z, alpha),
                      1e-9, 1e-8)
        ctx.close(ref_lse(total), 0., 'logp_crp', 'sum over partitions of '
                  '%d at alpha %r' % (n, alpha), 1e-9, 1e-9)
        ctx.case(dict(alpha=alpha, n=n))
    # far more customers and tables
    n = int(rng.randint(30, 400))
    z = [int(k) for k in rng.randint(rng.randint(1, 60), size=n)]
    Nk = [z.count(k) for k in sorted(set(z))]
    ctx.close(gu.logp_crp(n, Nk, alpha), seq_crp(z, alpha), 'logp_crp',
              'counts %r alpha %r' % (Nk, alpha), 1e-8, 1e-8)
    for _ in range(20):
        # weights of one customer given the others
        alpha = float(np.exp(rng.uniform(-4, 4)))
        n = int(rng.randint(1, 12) if rng.rand() < .9 else
                rng.randint(12, 40))
        labels = rng.permutation(40)[:n]
        Z = {int(i): int(labels[rng.randint(rng.randint(1, n + 1))])
             for i in rng.permutation(50)[:n]}
        Nk = {}
        for k in Z.values():
            Nk[k] = Nk.get(k, 0) + 1
        i = list(Z)[rng.randint(n)]
        m = int(rng.randint(1, 4))
        got = frozen(ctx, 'logp_crp_gibbs', gu.logp_crp_gibbs, Nk, Z, i,
                     alpha, m)
        single = Nk[Z[i]] == 1
        want = [math.log(alpha / m if single else Nk[k] - 1) if k == Z[i]
                else math.log(Nk[k]) for k in sorted(Nk)]
        want += [math.log(alpha / m)] * (m - 1 if single else m)
        ctx.true(len(got) == len(want) and all(
            same(a, b, 1e-9, 1e-9) for a, b in zip(got, want)),
            'logp_crp_gibbs', 'Nk %r Z %r i %r alpha %r m %r: %r not %r' % (
                Nk, Z, i, alpha, m, got, want))
        a2 = int(rng.randint(1, 6)) if rng.rand() < .5 else alpha
        counts = [int(c) for c in rng.randint(
            1, 9, rng.randint(1, 6 if rng.rand() < .9 else 40))]
        N = sum(counts)
        got = frozen(ctx, 'logp_crp_fresh', gu.logp_crp_fresh, N, counts, a2,
                     m=m)
        want = [math.log(c / (N + a2)) for c in counts] + [
            math.log(a2 / m / (N + a2))] * m
        ctx.true(len(got) == len(want) and all(
            same(a, b, 1e-9, 1e-9) for a, b in zip(got, want)),
            'logp_crp_fresh', '%r alpha %r m %r: %r not %r' % (
                counts, a2, m, list(got), want))
        ctx.case(dict(Z=Z, i=i, alpha=alpha, m=m))


@scenario(quick=50, thorough=100)
def crp_draws(ctx):
    rng = ctx.rng
    alpha = float(np.exp(rng.uniform(-1.5, 1.5)))
    n = int(rng.randint(1, 6))
    probs = {tuple(z): math.exp(seq_crp(z, alpha)) for z in rgs(n)}
    draw = np.random.RandomState(rng.randint(2**31 - 1))

    def test(m):
        seen = {}
        for _ in range(m):
            z = gu.simulate_crp(n, alpha, rng=draw)
            ctx.true(len(z) == n, 'simulate_crp', 'length of %r' % z)
            z = tuple(int(k) for k in z)
            seen[z] = seen.get(z, 0) + 1
        return chi2_pvalue(seen, probs)
    ctx.stat('simulate_crp', 'frequencies of partitions of %d at %r' % (
        n, alpha), test, 500)
    ctx.case(dict(n=n, alpha=alpha), n > 1)
    # a hundred customers: number of tables, and the share of the first two
    N = 100

    def large(m):
        us = []
        for _ in range(m):
            z = gu.simulate_crp(N, alpha, rng=draw)
            ctx.true(len(z) == N and set(z) == set(range(max(z) + 1)),
                     'simulate_crp', 'of %d customers: %r' % (N, z))
            i, j = draw.permutation(N)[:2]
            us.append((int(z[i] == z[j]), int(len(set(z[-3:])))))
        same_, last = {}, {}
        for a, b in us:
            same_[a] = same_.get(a, 0) + 1
            last[b] = last.get(b, 0) + 1
        p = {}
        for z in rgs(3):            # any three customers, by exchangeability
            k = len(set(z))
            p[k] = p.get(k, 0) + math.exp(seq_crp(z, alpha))
        return min(1., 2 * min(
            chi2_pvalue(same_, {1: 1 / (1 + alpha), 0: alpha / (1 + alpha)})
            or 1., chi2_pvalue(last, p) or 1.))
    ctx.stat('simulate_crp', 'pairs and triples of %d at %r' % (N, alpha),
             large, 150)


@scenario(quick=60, thorough=100)
def draws(ctx):
    rng = ctx.rng
    draw = np.random.RandomState(rng.randint(2**31 - 1))
    k = int(rng.randint(1, 7) if rng.rand() < .85 else rng.randint(7, 20))
    p = rng.exponential(1, k)
    if k > 1 and rng.rand() < .5:
        p[rng.randint(k)] = 0
    p /= p.max()
    p *= 10**rng.uniform(-5, 5)
    labels = [int(x) * 3 - 5 for x in rng.permutation(20)[:k]]
    probs = {i: float(x) / float(p.sum()) for i, x in enumerate(p)}
    lp = np.where(p > 0, np.log(np.where(p > 0, p, 1)), -INF)
    lp = lp + rng.uniform(-900, 900)

    def sampler(kind):
        if kind == 0:
            return lambda n: [gu.pflip(p, rng=draw) for _ in range(n)]
        if kind == 1:
            return lambda n: list(gu.pflip(p, size=n, rng=draw))
        if kind == 2:
            return lambda n: [labels.index(x) for x in gu.pflip(
                list(p), array=labels, size=n, rng=draw)]
        if kind == 3:
            return lambda n: [labels.index(gu.log_pflip(
                lp, array=labels, rng=draw)) for _ in range(n)]
        if kind == 4:
            return lambda n: list(gu.log_pflip(list(lp), size=n, rng=draw))
        return lambda n: [gu.log_pflip(lp, rng=draw) for _ in range(n)]
    for kind in range(6):
        f = sampler(kind)

        def test(n):
            seen = {}
            xs = f(n)
            ctx.true(len(xs) == n, 'pflip:size', '%d of %d' % (len(xs), n))
            for x in xs:
                seen[int(x)] = seen.get(int(x), 0) + 1
            p = chi2_pvalue(seen, probs)
            if p is None:
                return None
            # one draw tells nothing about the next
            lo = np.cumsum([0.] + [probs[i] for i in range(k)])
            q = serial_pvalue([lo[int(x)] + rng.rand() * probs[int(x)]
                               for x in xs])
            return min(1., 2 * min(p, q))
        ctx.stat('pflip', 'frequencies under %r (way %d)' % (p, kind),
                 test, 300)
        ctx.case(dict(p=list(p), kind=kind), k > 1)
    before = p.copy(), lp.copy(), list(labels)
    gu.pflip(p, array=labels, rng=draw)
    gu.log_pflip(lp, array=labels, rng=draw)
    ctx.true((before[0] == p).all() and (before[1] == lp).all()
             and before[2] == labels, 'pflip:mutates', 'arguments changed')
    # a stream of its own, the same for the same seed
    a, b = gu.gen_rng(5), gu.gen_rng(5)
    ctx.true(list(a.rand(4)) == list(b.rand(4)), 'gen_rng', 'same seed')
    st = np.random.get_state()[1].tolist()
    gu.gen_rng(3), gu.get_prng(4)
    gu.pflip([.3, .7], rng=a)
    ctx.true(st == np.random.get_state()[1].tolist(), 'gen_rng',
             'global generator advanced')
    a, b = gu.get_prng(11), np.random.RandomState(11)
    ctx.true(list(a.rand(3)) == list(b.rand(3)), 'gen_rng', 'get_prng')


@scenario(quick=75, thorough=120)
def containers(ctx):
    rng = ctx.rng

    def rand_dict(n=5):
        return {int(k): int(rng.randint(9)) for k in
                rng.permutation(8)[:rng.randint(0, n)]}
    for _ in range(25):
        ds = [rand_dict() for _ in range(rng.randint(0, 4))]
        want = {}
        for d in ds:
            for k, v in d.items():
                want[k] = v
        ctx.true(frozen(ctx, 'merged', gu.merged, *ds) == want, 'merged',
                 'of %r' % ds)
        got = frozen(ctx, 'mergedl', gu.mergedl, ds)
        ctx.true(got == want and all(got is not d for d in ds), 'merged',
                 'mergedl of %r: %r' % (ds, got))
        ls = [list(map(int, rng.randint(0, 9, rng.randint(0, 4))))
              for _ in range(rng.randint(0, 4))]
        ctx.true(frozen(ctx, 'lchain', gu.lchain, *ls) ==
                 [x for l in ls for x in l], 'lchain', 'of %r' % ls)
        a, b = rand_dict(), rand_dict()
        ctx.true(gu.is_disjoint(a, b) == (not (set(a) & set(b))),
                 'is_disjoint', '%r %r' % (a, b))
        ctx.true(gu.is_disjoint(list(a), list(b)) ==
                 (not (set(a) & set(b))), 'is_disjoint',
                 '%r %r' % (list(a), list(b)))
        left = [a, list(a)][rng.randint(2)]
        got = frozen(ctx, 'get_intersection', gu.get_intersection, left, b)
        ctx.true(got == {k: v for k, v in b.items() if k in a},
                 'get_intersection', '%r %r: %r' % (left, b, got))
        bl = list(b) + list(b)[:1]
        got = frozen(ctx, 'get_intersection', gu.get_intersection, left, bl)
        ctx.true(got == [k for k in bl if k in a], 'get_intersection',
                 '%r %r: %r' % (left, bl, got))
        ctx.true(gu.get_intersection(a, None) == {} and
                 gu.get_intersection(list(a), None) == [],
                 'get_intersection', 'None')
        # partitions of queries
        n = int(rng.randint(1, 8))
        Z = {i: int(rng.randint(3)) * 4 for i in range(n)}
        q = [int(i) for i in rng.permutation(n)[:rng.randint(0, n + 1)]]
        e = {int(i): float(i) / 2 for i in
             rng.permutation(n)[:rng.randint(0, n + 1)]}
        want = {k: [i for i in q if Z[i] == k] for k in set(
            Z[i] for i in q)}
        wante = {k: {i: e[i] for i in e if Z[i] == k} for k in set(
            Z[i] for i in e)}
        ctx.true(frozen(ctx, 'partition_list', vu.partition_list, Z, q)
                 == want, 'partition_list', '%r %r' % (Z, q))
        ctx.true(frozen(ctx, 'partition_dict', vu.partition_dict, Z, e)
                 == wante, 'partition_dict', '%r %r' % (Z, e))
        ctx.true(vu.partition_query_evidence(Z, q, e) == (want, wante),
                 'partition_query_evidence', '%r %r %r' % (Z, q, e))
        qd = {i: 1. for i in q}
        ctx.true(vu.partition_query_evidence(Z, qd, None) == (
            {k: {i: 1. for i in v} for k, v in want.items()}, {}),
            'partition_query_evidence', '%r %r None' % (Z, qd))
        # rows with equal tuples of assignments
        nv, nr = int(rng.randint(1, 4)), int(rng.randint(1, 9))
        Zvr = [[int(k) for k in rng.randint(0, 3, nr)] for _ in range(nv)]
        got = gu.build_rowid_blocks(Zvr)
        want = {}
        for r in range(nr):
            want.setdefault(tuple(z[r] for z in Zvr), []).append(r)
        ctx.true({k: list(v) for k, v in got.items()} == want,
                 'build_rowid_blocks', '%r: %r' % (Zvr, got))
        ctx.case(dict(a=a, b=b, Z=Z, q=q, e=e))

    class Holder(object):
        def __init__(self, cgpms):
            self.cgpms = cgpms
    items = [Holder([1, 2]), 3, Holder([]), Holder([4])]
    ctx.true(gu.flatten_cgpms(items, Holder) == [1, 2, 3, 4],
             'flatten_cgpms', repr(gu.flatten_cgpms(items, Holder)))


@scenario(quick=30, thorough=40)
def simulate_many(ctx):
    from cgpm.cgpm import CGpm

    class Model(CGpm):
        def __init__(self):
            self.calls = []

        @gu.simulate_many
        def simulate(self, rowid, targets, constraints=None, inputs=None,
                     N=None):
            self.calls.append((rowid, list(targets), constraints, inputs))
            return {t: (len(self.calls), t) for t in targets}
    rng = ctx.rng
    for _ in range(20):
        m = Model()
        r = [None, 3][rng.randint(2)]
        t = list(range(rng.randint(1, 4)))
        c = [None, {9: 1}][rng.randint(2)]
        i = [None, {8: 2}][rng.randint(2)]
        N = [None, 0, 1, 2, 5][rng.randint(5)]
        way = rng.randint(3)
        if way == 0:
            out = m.simulate(r, t, c, i, N)
        elif way == 1:
            out = m.simulate(r, t, c, i, N=N)
        else:
            out = m.simulate(r, t, constraints=c, inputs=i, N=N)
        n = 1 if N is None else N
        ctx.true(m.calls == [(r, t, c, i)] * n, 'simulate_many:calls',
                 'N=%r: %r' % (N, m.calls))
        want = [{x: (j + 1, x) for x in t} for j in range(n)]
        ctx.true(out == (want[0] if N is None else want),
                 'simulate_many:result', 'N=%r way %d: %r' % (N, way, out))
        ctx.case(dict(N=N, way=way, t=t))


@scenario(quick=75, thorough=120)
def dummy_coding(ctx):
    rng = ctx.rng
    for _ in range(40):
        n = int(rng.randint(1, 6))
        disc = {int(i): int(rng.randint(1, 6)) for i in
                rng.permutation(n)[:rng.randint(0, n + 1)]}
        x = [float(rng.normal()) for _ in range(n)]
        for i, k in disc.items():
            v = int(rng.randint(k))
            x[i] = [v, float(v), np.int64(v), np.float64(v)][rng.randint(4)]
        arg = [x, tuple(x), np.asarray(x, dtype=float)][rng.randint(3)]
        got = frozen(ctx, 'dummy_code', du.dummy_code, arg, disc)
        want = []
        for i, v in enumerate(x):
            if i in disc:
                want += [1 if j == v else 0 for j in range(disc[i] - 1)]
            else:
                want.append(v)
        ctx.true(list(got) == want, 'dummy_code', '%r %r: %r not %r' % (
            x, disc, got, want))
        ctx.true(isinstance(got, list) and got is not arg, 'dummy_code',
                 'fresh list')
        ctx.case(dict(x=list(map(float, x)), disc=disc))
        if disc:
            i = list(disc)[rng.randint(len(disc))]
            for bad, exc in [(disc[i], ValueError), (-1, ValueError),
                             (disc[i] + 3, ValueError),
                             (.5, (TypeError, ValueError))]:
                y = list(x)
                y[i] = bad
                ctx.raises(exc, lambda: du.dummy_code(y, disc),
                           'dummy_code:bad', '%r %r' % (y, disc))
    # injective: different inputs, different codes
    disc = {0: int(rng.randint(2, 5)), 2: int(rng.randint(2, 5))}
    codes = {}
    for a in range(disc[0]):
        for b in range(disc[2]):
            codes[tuple(du.dummy_code([a, 1.5, b], disc))] = (a, b)
    ctx.true(len(codes) == disc[0] * disc[2], 'dummy_code',
             'codes collide %r' % codes)


@scenario(quick=75, thorough=120)
def types_and_schemas(ctx):
    rng = ctx.rng
    names = sorted(cu.cctype_class_lookup)
    want = ['bernoulli', 'beta', 'categorical', 'crp', 'exponential',
            'geometric', 'linear_regression', 'lognormal', 'normal',
            'normal_trunc', 'poisson', 'random_forest', 'vonmises']
    ctx.true(sorted(cu.all_cctypes()) == want, 'cctypes', repr(names))
    for c in want:
        cls = cu.cctype_class(c)
        ctx.true(cls.name() == c, 'cctypes', '%r is %r' % (c, cls))
        ctx.true(bool(cu.valid_cctype(c)), 'cctypes', c)
    for bad in ['', None]:
        ctx.raises(ValueError, lambda: cu.cctype_class(bad), 'cctypes',
                   'class of %r' % bad)
    ctx.true(not cu.valid_cctype('gaussian'), 'cctypes', 'gaussian')
    for c, s in [('bernoulli', 'boolean'), ('categorical', 'categorical'),
                 ('crp', 'unbounded_categorical'), ('poisson', 'count'),
                 ('normal', 'real'), ('beta', 'real'), ('geometric', 'real'),
                 ('exponential', 'real'), ('lognormal', 'real'),
                 ('normal_trunc', 'real'), ('vonmises', 'real')]:
        ctx.true(cu.loom_stattype(c, {'k': 256}) == s, 'loom_stattype', c)
    ctx.true(cu.loom_stattype('categorical', {'k': 257}) ==
             'unbounded_categorical', 'loom_stattype', 'k=257')
    ctx.true(cu.loom_stattype('categorical', {'k': 2}) == 'categorical',
             'loom_stattype', 'k=2')
    ctx.raises(ValueError, lambda: cu.loom_stattype('linear_regression', {}),
               'loom_stattype', 'linear_regression')
    for _ in range(20):
        dists, ct, da = [], [], []
        for _ in range(rng.randint(0, 5)):
            c = want[rng.randint(len(want))]
            args = {'klh'[j]: float(rng.randint(1, 9)) if rng.rand() < .5
                    else float(np.round(rng.normal(), 3))
                    for j in range(rng.randint(0, 4))}
            dists.append(c + ('(%s)' % ','.join(
                '%s=%r' % t for t in args.items()) if args else ''))
            ct.append(c)
            da.append(args or None)
        got = frozen(ctx, 'parse_distargs', cu.parse_distargs, dists)
        ctx.true(list(got[0]) == ct and list(got[1]) == da,
                 'parse_distargs', '%r: %r' % (dists, got))
        ctx.case(dict(dists=dists))
    old = os.environ.get('GPMCCDEBUG')
    try:
        for v, w in [(None, False), ('0', 0), ('1', 1)]:
            os.environ.pop('GPMCCDEBUG', None)
            if v is not None:
                os.environ['GPMCCDEBUG'] = v
            ctx.true(bool(cu.check_env_debug()) == bool(w), 'env_debug',
                     repr(v))
    finally:
        os.environ.pop('GPMCCDEBUG', None)
        if old is not None:
            os.environ['GPMCCDEBUG'] = old


@scenario(quick=100, thorough=150)
def schema(ctx):
    rng = ctx.rng
    n = int(rng.randint(4, 15))
    pool = ['ann', 'bob', 'cat', 'dan', 'eve']
    cols, sch, truth = {}, [], []
    index = [int(i) for i in rng.permutation(50)]
    for j in range(rng.randint(1, 6)):
        name = 'c%d' % j + ['', ' (kg)', ' (k=1)'][rng.randint(3)]
        kind = ['normal', 'bernoulli', 'categorical', 'categorical(k=7)',
                'ignore', 'poisson'][rng.randint(6)]
        if kind in ('normal', 'poisson'):
            x = [float(v) for v in rng.poisson(4, n)]
        elif kind == 'bernoulli':
            vs = [pool[:2], [0, 1], [3., 8.], ['no', 'yes']][rng.randint(4)]
            x = [vs[int(b)] for b in rng.permutation(
                [0, 1] + list(rng.randint(0, 2, n - 2)))]
        else:
            vs = [pool, [4, 1, 9], [0, 1, 2, 3]][rng.randint(3)]
            x = [vs[rng.randint(len(vs))] for _ in range(n)]
        if rng.rand() < .4 and kind != 'bernoulli':
            # integers next to a missing value become floats in pandas
            x = [float(v) if isinstance(v, int) else v for v in x]
            for _ in range(rng.randint(1, 3)):
                x[rng.randint(n)] = [NAN, 'NA'][rng.randint(2)]
        cols[name] = x
        sch.append((name, kind, index[j]))
    df = pd.DataFrame(cols)
    rng.shuffle(sch)
    keep = df.copy(deep=True)
    used = [s for s in sch if s[1] != 'ignore']
    if not used:
        raise Inconclusive('every column ignored')
    D, outputs, cctypes, distargs, valmap, columns = du.parse_schema(sch, df)
    ctx.true(df.equals(keep), 'parse_schema:mutates', 'the dataframe changed')
    ctx.true(list(columns) == [s[0] for s in used], 'parse_schema',
             'columns %r of %r' % (columns, sch))
    ctx.true(list(outputs) == [s[2] for s in used], 'parse_schema',
             'outputs %r of %r' % (outputs, sch))
    ctx.true(list(cctypes) == [s[1].split('(')[0] for s in used],
             'parse_schema', 'cctypes %r of %r' % (cctypes, sch))
    D = np.asarray(D)
    if not ctx.true(D.shape == (n, len(used)), 'parse_schema',
                    'shape %r' % (D.shape,)):
        return
    for j, (name, kind, _) in enumerate(used):
        x = cols[name]
        base = kind.split('(')[0]
        present = [v for v in x if v != 'NA' and v == v]
        vm = valmap.get(name)
        if base in ('bernoulli', 'categorical'):
            u = sorted(set(present))
            if not ctx.true(vm is not None and sorted(vm, key=str) == sorted(
                    u, key=str) and sorted(vm.values()) == list(
                    range(len(u))), 'parse_schema:valmap',
                    '%r of %r' % (vm, x)):
                continue
            if base == 'categorical':
                k = 7 if '(' in kind else len(u)
                ctx.true(distargs[j] == {'k': k}, 'parse_schema:k',
                         '%s: %r' % (kind, distargs[j]))
        else:
            ctx.true(vm is None and distargs[j] is None, 'parse_schema',
                     '%s: %r %r' % (kind, vm, distargs[j]))
        for r in range(n):
            got = D[r, j]
            if x[r] == 'NA' or x[r] != x[r]:
                ok = got != got
            elif vm is not None:
                ok = got == vm[x[r]]
            else:
                ok = got == x[r]
            ctx.true(bool(ok), 'parse_schema:data', 'row %d of %r (%s): %r' % (
                r, x, kind, got))
    if any(s[1].startswith('categorical') for s in used):
        name = [s for s in used if s[1].startswith('categorical')][0]
        u = len(valmap[name[0]])
        if u > 1:
            ctx.raises(Exception, lambda: du.parse_schema(
                [(name[0], 'categorical(k=%d)' % (u - 1), 0)], df.copy()),
                'parse_schema:k', 'fewer categories declared than seen')
    ctx.case(dict(sch=sch, cols={str(k): repr(v) for k, v in cols.items()}))


@scenario(quick=10, thorough=10)
def clock(ctx):
    for d in (0., .02, .05):
        t0 = time.time()
        with tu.Timer() as t:
            time.sleep(d)
        t1 = time.time()
        ctx.true(d * .9 <= t.interval <= t1 - t0 + .01, 'timer',
                 'slept %r measured %r' % (d, t.interval))
        ctx.true(abs(t.end - t.start - t.interval) < 1e-6, 'timer', 'ends')

        class Stream(object):
            def __init__(self):
                self.s = ''

            def write(self, x):
                self.s += x

            def flush(self):
                pass
        ctx.case(dict(d=d))
    for p in (0., .25, .5, 1.):
        s = Stream()
        tu.progress(p, s)
        ctx.true('%1.2f%%' % (100 * p) in s.s and s.s.count('=') == int(
            30 * p), 'progress', repr(s.s))
