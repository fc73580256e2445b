"""C19: dependence, similarity and relevance match their definitions."""
import itertools
import math

import numpy as np
from scipy import stats

import hist
import mix
import nets
import prims
import queries as Q
from vlib import scenario

RULE = ('a case is one answer to dependence_probability, row_similarity, '
        'relevance_probability or one of their pairwise forms, compared with '
        'the definition evaluated on the partition (by exact enumeration of '
        'table assignments for relevance); non-trivial when the partition has '
        'two or more blocks; distinct by partition and query')

TECHNIQUE = ('online comparison of every answer with the definition evaluated '
             'on the live partition; exact enumeration of the Dirichlet '
             'process mixture from the caller\'s data; statistical monitor '
             'for hypothetical rows, whose cluster is sampled')


def walk(ctx, n, large=False, **kw):
    st, X, specs = (mix.large_state if large else mix.random_state)(
        ctx.rng, **kw)
    h = hist.StateHistory(ctx, st, X, specs)
    for _ in range(n):
        h.step()
    return h


def subset(rng, xs, lo=1):
    xs = list(xs)
    rng.shuffle(xs)
    return xs[:lo + rng.randint(len(xs) - lo + 1)]


@scenario(quick=120, thorough=700)
def pairs(ctx):
    """dependence and similarity, scalar and pairwise, in any history"""
    rng = ctx.rng
    large = ctx.index % 12 == 11
    h = walk(ctx, 0, large)
    for _ in range(2 if large else 6):
        h.step()
        st = h.state
        Zv = dict(st.Zv())
        Zr = {v: dict(st.views[v].Zr()) for v in st.views}
        cols, n = list(h.X), h.n_rows()
        dep = lambda a, b: 1. if Zv[a] == Zv[b] else 0.
        for a in cols:
            for b in cols:
                ctx.true(st.dependence_probability(a, b) == dep(a, b),
                         'dependence', 'columns %r, %r of partition %r' % (
                             a, b, Zv), log=h.log)
        sub = subset(rng, cols)
        for cs in (None, cols, sub, sub[::-1]):
            order = list(st.outputs) if cs is None else cs
            D = np.asarray(st.dependence_probability_pairwise(cs))
            want = [[dep(a, b) for b in order] for a in order]
            ctx.true(D.shape == (len(order),) * 2 and D.tolist() == want,
                     'dependence-pairwise', '%r over %r gives %r' % (
                         Zv, cs, D.tolist()), log=h.log)

        def sim(r, s, cs):
            vs = {Zv[c] for c in cs}
            return sum(Zr[v][r] == Zr[v][s] for v in vs) / float(len(vs))
        rows = subset(rng, range(n))[:4]
        for cs in (None, sub, sub + sub[:1], sub[:1]):
            order = cols if cs is None else cs
            for r in rows:
                for s in rows:
                    got = st.row_similarity(r, s, cs) if cs is not None \
                        else st.row_similarity(r, s)
                    ctx.close(got, sim(r, s, order), 'similarity',
                              'rows %s, %s over %r' % (r, s, cs), log=h.log)
            S = np.asarray(st.row_similarity_pairwise(cs))
            want = np.asarray([[sim(r, s, order) for s in range(n)]
                               for r in range(n)])
            ctx.true(S.shape == want.shape and np.allclose(S, want),
                     'similarity-pairwise', 'over %r: %r, expected %r' % (
                         cs, S.tolist(), want.tolist()), log=h.log)
        ctx.case('%r %r %r' % (Zv, Zr, sub), len(Zr) > 1)
        if ctx.violations:
            return


@scenario(quick=32, thorough=160)
def composed(ctx):
    """with composed models: dependent when some cause is shared"""
    rng = ctx.rng
    st, X, specs = mix.random_state(
        rng, n_rows=4, n_cols=int(rng.randint(2, 6)),
        types=['bernoulli', 'categorical'], missing=0.)
    foreign = Q.hook_models(rng, st, X, specs, n=int(rng.randint(1, 4)))
    Zv = dict(st.Zv())
    node = {c: ('view', v) for c, v in Zv.items()}
    parents = {}
    for t, m in st.hooked_cgpms.items():
        for o in m.outputs:
            node[o] = ('hook', t)
        parents['hook', t] = list(m.inputs)

    def causes(n):
        out, todo = set(), [n]
        while todo:
            k = todo.pop()
            if k not in out:
                out.add(k)
                todo += [node[p] for p in parents.get(k, [])]
        return out
    everything = list(X) + list(foreign)
    for a in everything:
        for b in everything:
            want = 1. if causes(node[a]) & causes(node[b]) else 0.
            got = st.dependence_probability(a, b)
            ctx.true(got == want, 'dependence-composed',
                     'columns %r (%r) and %r (%r): %r, expected %r; inputs %r'
                     % (a, node[a], b, node[b], got, want, parents))
            ctx.case('%r %r %r %r' % (Zv, parents, a, b), a != b)
    sub = subset(rng, everything)
    D = np.asarray(st.dependence_probability_pairwise(sub))
    ctx.true(np.allclose(D, [[
        1. if causes(node[a]) & causes(node[b]) else 0. for b in sub]
        for a in sub]), 'dependence-composed-pairwise', '%r over %r: %r' % (
            parents, sub, D.tolist()))


# --------------------------------------------------------------- relevance ---

def exact(view, X, target, query):
    """P(target joins the query rows' cluster | query rows share one)"""
    base = mix.ref_view(view, X)
    Zr = {r: k for r, k in base.Zr.items()
          if r != target and r not in query}
    tables = sorted(set(Zr.values()))
    new = (max(tables) + 1) if tables else 0

    def score(kt, kq):
        Z = dict(Zr)
        Z[target] = kt
        for q in query:
            Z[q] = kq
        return mix.RefMix(Z, X, base.specs, base.alpha).score()
    same, other = [], []
    for kq in tables + [new]:
        for kt in sorted(set(tables + [kq, new if kq != new else new + 1])):
            (same if kt == kq else other).append(score(kt, kq))
    return math.exp(mix.lse(same) - mix.lse(same + other))


@scenario(quick=120, thorough=700)
def relevance_exact(ctx):
    """a view's relevance probability against enumeration"""
    rng = ctx.rng
    v, X, specs = mix.random_view(rng, n_rows=int(rng.randint(2, 9)),
                                  n_cols=int(rng.randint(1, 4)))
    if ctx.index % 2:
        h = hist.ViewHistory(ctx, v, X, specs)
        for _ in range(4):
            h.step()
        while h.out:
            r = sorted(h.out)[0]
            v.incorporate(r, {c: h.X[c][r] for c in h.X})
            h.out.discard(r)
        X = h.X
    n = len(v.Zr())
    vm = sum(d.cctype == 'vonmises' for d in v.dims.values())
    if n < 2:
        return
    for _ in range(4):
        rows = [int(r) for r in rng.permutation(n)]
        m = int(rng.randint(1, n)) if rng.rand() < .7 else 1
        q = rows[1:1 + m]
        col = sorted(v.dims)[rng.randint(len(v.dims))]
        got = v.relevance_probability(rows[0], q, col)
        want = exact(v, X, rows[0], q)
        ctx.close(got, want, 'relevance', 'target %s, query %s, partition %r'
                  % (rows[0], q, dict(v.Zr())), 1e-6, 1e-7 + 1e-3 * vm)
        again = v.relevance_probability(rows[0], q[::-1], col)
        ctx.close(again, got, 'relevance-order', 'query %s reversed' % q,
                  1e-6)
        ctx.close(v.relevance_probability(rows[0], q + [rows[0]], col), 1.,
                  'relevance-itself', 'target among the query rows')
        ctx.case('%r %s %s %r' % (sorted(v.Zr().items()), rows[0], q, got),
                 1e-9 < want < 1 - 1e-9)
        if ctx.violations:
            return


@scenario(quick=80, thorough=400)
def relevance_state(ctx):
    """a state answers 1 when target, query and hypothetical rows share the
    cluster of the column's view, else 0"""
    rng = ctx.rng
    h = walk(ctx, int(rng.randint(0, 4)))
    for _ in range(4):
        h.step()
        st, n = h.state, h.n_rows()
        for _ in range(6):
            c = h.pick_col()
            z = dict(st.view_for(c).Zr())
            rows = [int(r) for r in rng.permutation(n)]
            t = rows[0]
            if rng.rand() < .6:         # rows that may well share a cluster
                q = [r for r in rows if z[r] == z[t]][:rng.randint(1, 4)]
                if rng.rand() < .3:
                    q.append(rows[-1])
            else:
                q = rows[1:1 + rng.randint(0, n)]
            kw = {} if rng.rand() < .5 else dict(
                hypotheticals=[None, [], [{}], [
                    {o: 0. for o in h.X if st.Zv(o) != st.Zv(c)}]][
                        rng.randint(4)])
            got = st.relevance_probability(t, list(q), c, **kw)
            want = int(bool(q) and all(z[r] == z[t] for r in q))
            ctx.true(got == want, 'relevance-state', 'target %s, query %s, '
                     'partition %r, %r: %r' % (t, q, z, kw, got), log=h.log)
            ctx.case('%r %s %s %r' % (z, t, q, kw), len(q) > 0)
        if ctx.violations:
            return


@scenario(quick=48, thorough=240)
def relevance_hypothetical(ctx):
    """hypothetical rows: the answer is 1 with the probability that each joins
    the target's cluster, one after the other"""
    rng = ctx.rng
    st, X, specs = mix.random_state(rng, n_rows=int(rng.randint(2, 7)),
                                    n_cols=int(rng.randint(1, 4)))
    c = sorted(X)[rng.randint(len(X))]
    view = st.view_for(c)
    z = dict(view.Zr())
    t = int(rng.randint(len(z)))
    q = [r for r in sorted(z) if z[r] == z[t]][:rng.randint(0, 3)]
    cols = sorted(view.dims)
    hyp = []
    for _ in range(1 if rng.rand() < .6 else 2):
        k = {d: float(prims.gen_value(
            specs[d]['cctype'], rng, specs[d]['distargs'], 0))
            for d in X if rng.rand() < .8}
        near = [r for r in z if z[r] == z[t]]
        for d in cols:
            if rng.rand() < .5 or not any(e in k for e in cols):
                k[d] = X[d][near[rng.randint(len(near))]]
        hyp.append({d: x for d, x in k.items() if not mix.isnan(x)})
    used = [{d: h[d] for d in cols if d in h} for h in hyp]
    used = [h for h in used if h]
    ref = mix.ref_view(view, X)
    p, Z, D = 1., dict(z), {d: list(X[d]) for d in cols}
    for i, h in enumerate(used):
        r = mix.RefMix(Z, D, ref.specs, ref.alpha)
        p *= r.cluster_posterior(h)[z[t]]
        row = len(X[c]) + i
        Z[row] = z[t]
        for d in cols:
            D[d].append(h.get(d, mix.NAN))
    if not used:
        want = 1. if q else 0.
        ctx.true(st.relevance_probability(t, q, c, hyp) == want,
                 'relevance-state', 'no usable hypothetical row')
        return
    ctx.case('%r %s %s %r' % (z, t, q, hyp), .01 < p < .99)

    def test(n):
        k = sum(st.relevance_probability(t, list(q), c, hypotheticals=hyp)
                for _ in range(n))
        ctx.count('hypothetical rows sampled', n * len(used))
        return float(stats.binomtest(int(k), n, min(1., p)).pvalue)
    ctx.stat('relevance-hypothetical', 'target %s, query %s, hypothetical %r: '
             'probability of 1 should be %r' % (t, q, used, p), test, n=60)
    other = [r for r in sorted(z) if z[r] != z[t]]
    if other:
        ctx.true(st.relevance_probability(t, q + other[:1], c, hyp) == 0,
                 'relevance-state', 'a query row is in another cluster')
