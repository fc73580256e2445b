"""Digests of everything a caller can observe of a model, and generators of
queries (valid and invalid) of states, views and engines."""

import copy
import math

import numpy as np

import hist
import mix
import nets
import prims
from mix import isnan


# ----------------------------------------------------------------- digests ---

def norm(x):
    """A plain, comparable, independent copy of metadata."""
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((norm(v) for v in x), key=str)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if x is None or isinstance(x, (str, bytes)):
        return x
    return repr(type(x))


UNORDERED = ('Zv', 'Zrv', 'view_alphas', 'suffstats', 'counts', 'table')


def norm_meta(meta):
    """Metadata, disregarding the order of lists of key/value pairs."""
    def canon(x, key=None):
        if isinstance(x, dict):
            return {k: canon(v, k) for k, v in x.items()}
        if isinstance(x, list):
            if key in UNORDERED and x and all(
                    isinstance(e, list) and len(e) == 2
                    and not isinstance(e[0], list) for e in x):
                return {'pairs': {str(e[0]): canon(e[1], key) for e in x}}
            return [canon(e, key) for e in x]
        return x
    return canon(norm(meta))


def digest_view(view, X=None, seed=11):
    X = view.X if X is None else X
    d = mix.fingerprint_view(view, X, seed, queries=4)
    d['aux'] = {c: sorted((k, float(v)) for k, v in
                          dm.aux_model.get_hypers().items())
                if not dm.is_conditional() else None
                for c, dm in view.dims.items()}
    d['cluster_hypers'] = {
        c: {k: sorted((h, norm(v)) for h, v in m.get_hypers().items())
            for k, m in dm.clusters.items()}
        for c, dm in view.dims.items()}
    d['suff'] = {c: {k: norm_meta({'suffstats': m.get_suffstats()})
                     for k, m in dm.clusters.items()}
                 for c, dm in view.dims.items()}
    d['params'] = {c: {k: norm(m.get_params())
                       for k, m in dm.clusters.items()}
                   for c, dm in view.dims.items()
                   if not dm.is_conditional()}
    d['grids'] = {c: norm(dm.hyper_grids) for c, dm in view.dims.items()}
    d['members'] = {c: {k: norm(getattr(m, 'data', None))
                        for k, m in dm.clusters.items()
                        if isinstance(getattr(m, 'data', None), dict)}
                    for c, dm in view.dims.items()}
    d['Zi'] = {c: sorted((int(r), int(k)) for r, k in dm.Zi.items())
               for c, dm in view.dims.items()}
    d['outputs'] = [view.outputs[0]] + sorted(view.outputs[1:])
    return d


def digest_state(st, seed=11):
    d = mix.fingerprint_state(st, seed, queries=5)
    d['metadata'] = norm_meta(st.to_metadata())
    d['deep'] = {v: digest_view(st.views[v], st.X, seed)
                 for v in sorted(st.views)}
    d['counts'] = sorted(st.Nv().items())
    d['composite'] = st.is_composite()
    d['hooked'] = {str(t): norm_meta(c.to_metadata())
                   for t, c in st.hooked_cgpms.items()}
    d['outputs_list'] = list(st.outputs)
    d['shape'] = [st.n_rows(), st.n_cols()]
    return d


def digest_engine(e, seed=11):
    return [digest_state(s, seed) for s in e.states]


# --------------------------------------------------------------------- zoo ---

def hook_models(rng, st, X, specs, n=None, real=False):
    """Compose random discrete models (and, if `real`, a regression) with the
    state's discrete columns. Returns {foreign column: cardinality or None}."""
    disc = [c for c in X if specs[c]['cctype'] in mix.DISCRETE_FINITE]
    card = {c: int((specs[c]['distargs'] or {}).get('k', 2)) for c in disc}
    known, foreign = list(disc), {}
    for j in range(n or int(rng.randint(1, 3))):
        outs = [60 + 2 * j] + ([61 + 2 * j] if rng.rand() < .4 else [])
        ins = [known[i] for i in rng.permutation(len(known))[
            :int(rng.randint(0, 3))]]
        for o in outs:
            card[o] = int(rng.randint(2, 4))
            foreign[o] = card[o]
        m = nets.Cpt(outs, ins, card, nets.random_table(rng, outs, ins, card),
                     rng=np.random.RandomState(rng.randint(2**31 - 1)))
        st.compose_cgpm(m)
        known += outs
    num = [c for c in X if specs[c]['cctype'] in
           ('normal', 'exponential', 'lognormal')]
    if real and num:
        from cgpm.regressions.linreg import LinearRegression
        ins = num[:2] + disc[:1]
        st_types = ['numerical'] * len(num[:2]) + \
            ['categorical'] * len(disc[:1])
        st_args = [{}] * len(num[:2]) + [{'k': card[c]} for c in disc[:1]]
        lr = LinearRegression(
            [80], ins, distargs={'inputs': {'stattypes': st_types,
                                            'statargs': st_args}},
            rng=np.random.RandomState(rng.randint(2**31 - 1)))
        n_rows = len(next(iter(X.values())))
        for r in range(n_rows):
            if all(not isnan(X[c][r]) for c in ins):
                lr.incorporate(r, {80: float(rng.normal())},
                               {c: X[c][r] for c in ins})
        st.compose_cgpm(lr)
        foreign[80] = None
    return foreign


def conditional_column(rng, st, X, specs, missing=False):
    """Turn one column, in a view with others, into a regression on them; one
    with missing cells too, if `missing`."""
    cands = []
    for v, view in st.views.items():
        plain = [c for c in view.dims]
        if len(plain) < 2:
            continue
        for c in plain:
            if missing or all(not isnan(x) for x in X[c]):
                cands.append(c)
    if not cands:
        return None
    c = cands[rng.randint(len(cands))]
    st.update_cctype(c, 'linear_regression')
    return c


# ----------------------------------------------------------------- queries ---

class StateQueries(object):
    """Random queries (method, args, kwargs) of a state. `bad` ones should be
    refused or harmless; nothing is assumed about which."""

    def __init__(self, rng, st, specs, foreign=None):
        self.rng, self.specs, self.foreign = rng, specs, foreign or {}
        self.refresh(st)

    def refresh(self, st):
        self.st = st
        self.cols = list(st.outputs)
        self.n = st.n_rows()

    def value(self, c):
        if c in self.foreign:
            k = self.foreign[c]
            return float(self.rng.normal()) if k is None else \
                int(self.rng.randint(k))
        return mix.gen_new_value(self.rng, self.specs[c])

    def wrong(self, c):
        """A value outside the support of column c, if there is one."""
        if c in self.foreign:
            return 99
        xs = prims.outside(self.specs[c]['cctype'],
                           self.specs[c]['distargs'])
        return float(xs[self.rng.randint(len(xs))]) if xs else float('nan')

    def row(self):
        r = self.rng
        return [None, -1, self.n, self.n + 3, int(r.randint(self.n)),
                int(r.randint(self.n))][r.randint(6)]

    def pick(self, k, pool=None):
        pool = list(self.cols if pool is None else pool)
        self.rng.shuffle(pool)
        return pool[:k]

    def parts(self, foreign=True):
        """disjoint targets and constraints, valid for the row chosen"""
        rng = self.rng
        row = self.row()
        pool = list(self.cols) + (
            list(self.foreign) if foreign and rng.rand() < .7 else [])
        if row is not None and 0 <= row < self.n:
            pool = [c for c in pool if c in self.foreign
                    or isnan(self.st.X[c][row])] or pool
        pool = self.pick(len(pool), pool)
        nt = 1 + int(rng.randint(min(3, len(pool))))
        t = pool[:nt]
        e = {c: self.value(c) for c in pool[nt:] if rng.rand() < .5}
        return row, t, e

    def good(self):
        rng = self.rng
        k = rng.randint(13)
        if k <= 1:
            row, t, e = self.parts()
            return ('logpdf', (row, {c: self.value(c) for c in t}, e), {})
        if k <= 3:
            row, t, e = self.parts()
            return ('simulate', (row, t, e, None,
                                 [None, 1, 3][rng.randint(3)]), {})
        if k == 4:
            qs = [self.parts() for _ in range(int(rng.randint(1, 4)))]
            return ('logpdf_bulk', (
                [q[0] for q in qs],
                [{c: self.value(c) for c in q[1]} for q in qs],
                [q[2] for q in qs]), {})
        if k == 5:
            qs = [self.parts() for _ in range(int(rng.randint(1, 4)))]
            return ('simulate_bulk', (
                [q[0] for q in qs], [q[1] for q in qs], [q[2] for q in qs],
                None, [int(rng.randint(1, 3)) for _ in qs]), {})
        if k == 6:
            return (['logpdf_score', 'logpdf_likelihood'][rng.randint(2)],
                    (), {})
        if k == 7:
            p = self.pick(3)
            if len(p) == 1 or rng.rand() < .3:
                return ('mutual_information', ([p[0]], [p[0]]), dict(N=4))
            c = {}
            if len(p) > 2 and rng.rand() < .6:
                c = {p[2]: None if rng.rand() < .5 else self.value(p[2])}
            return ('mutual_information', ([p[0]], [p[1]], c),
                    dict(T=2, N=4))
        if k == 8:
            a, b = self.pick(1)[0], self.pick(1)[0]
            if self.foreign and rng.rand() < .5:
                a = self.pick(1, self.foreign)[0]
            return ('dependence_probability', (a, b), {})
        if k == 9:
            return ('dependence_probability_pairwise',
                    ((None if rng.rand() < .4 else
                      self.pick(1 + rng.randint(len(self.cols)))),), {})
        if k == 10:
            return ('row_similarity', (
                int(rng.randint(self.n)), int(rng.randint(self.n)),
                None if rng.rand() < .4 else
                self.pick(1 + rng.randint(len(self.cols)))), {})
        if k == 11:
            return ('row_similarity_pairwise', (
                None if rng.rand() < .4 else
                self.pick(1 + rng.randint(len(self.cols))),), {})
        return self.relevance()

    def relevance(self, bad=False):
        rng = self.rng
        rows = [int(r) for r in rng.permutation(self.n)]
        hyp = None
        if bad or rng.rand() < .6:
            hyp = []
            for _ in range(int(rng.randint(1, 4))):
                hyp.append({c: self.value(c) for c in self.cols
                            if rng.rand() < .7})
        col = self.pick(1)[0]
        if bad:
            h = hyp[rng.randint(len(hyp))]
            for c in self.st.view_for(col).dims:
                if rng.rand() < .7 or c == col:
                    h[c] = self.wrong(c)
        return ('relevance_probability', (
            rows[0], rows[1:1 + rng.randint(0, self.n)], col), dict(
                hypotheticals=hyp))

    def bad(self):
        rng = self.rng
        k = rng.randint(15)
        c = self.pick(1)[0]
        if k == 0:
            return ('logpdf', (None, {997: 1.}), {})
        if k == 1:
            return ('simulate', (None, [997]), {})
        if k == 2:
            return ('logpdf', (None, {c: self.value(c)},
                               {c: self.value(c)}), {})
        if k == 3:
            return ('simulate', (None, [c, c]), {})
        if k == 4:
            r = int(rng.randint(self.n))
            return ('logpdf', (r, {c: self.value(c)},
                               {o: self.value(o) for o in self.cols
                                if o != c}), {})
        if k == 5:
            return ('logpdf', (None, {c: self.wrong(c)}, {
                o: self.wrong(o) for o in self.cols if o != c}), {})
        if k == 6:
            return ('simulate', (None, [c], {
                o: self.wrong(o) for o in self.cols if o != c}), {})
        if k == 7:
            return ('logpdf', (None, {c: self.value(c)}, {}, {998: 1.}), {})
        if k == 8:
            p = self.pick(2)
            return ('mutual_information', (p, p[:1]), dict(N=3))
        if k == 9:
            return ('mutual_information', ([c], [c], {c: 1.}), dict(N=3))
        if k == 10:
            return ('relevance_probability', (0, [0], 997), {})
        if k == 11:
            return ('row_similarity', (0, self.n + 7), {})
        if k == 12:
            return ('relevance_probability', (
                self.n + 5, [0], c), dict(hypotheticals=[
                    {o: self.value(o) for o in self.cols}]))
        return self.relevance(bad=True)


def copied(args):
    return copy.deepcopy(args)


def same_args(a, b):
    return mix.diff(norm(a), norm(b), 'args', 0.)


class ViewQueries(object):

    def __init__(self, rng, view, specs):
        self.rng, self.view, self.specs = rng, view, specs
        self.cols = list(view.dims)

    def value(self, c):
        return mix.gen_new_value(self.rng, self.specs[c])

    wrong = StateQueries.wrong
    foreign = {}

    def pick(self, k):
        p = list(self.cols)
        self.rng.shuffle(p)
        return p[:k]

    def good(self):
        rng = self.rng
        n = self.view.n_rows()
        z = self.view.outputs[0]
        row = [None, -1, n, int(rng.randint(n))][rng.randint(4)]
        pool = self.pick(len(self.cols))
        if row is not None and 0 <= row < n:
            pool = [c for c in pool if isnan(self.view.X[c][row])] or pool
        nt = 1 + int(rng.randint(len(pool)))
        t = pool[:nt]
        e = {c: self.value(c) for c in pool[nt:] if rng.rand() < .5}
        hyp = row is None or not 0 <= row < n
        K = sorted(self.view.Nk()) + [max(self.view.Nk()) + 1]
        kk = int(K[rng.randint(len(K))])
        k = rng.randint(8)
        if k <= 2:
            t = {c: self.value(c) for c in t}
            if hyp and rng.rand() < .3:
                (t if rng.rand() < .5 else e)[z] = kk
            return ('logpdf', (row, t, e), {})
        if k <= 5:
            if hyp and rng.rand() < .3:
                if rng.rand() < .5:
                    t = t + [z]
                else:
                    e[z] = kk
            return ('simulate', (row, t, e, None,
                                 [None, 1, 3][rng.randint(3)]), {})
        if k == 6:
            return (['logpdf_score', 'logpdf_likelihood', 'logpdf_prior']
                    [rng.randint(3)], (), {})
        rows = [int(r) for r in rng.permutation(n)]
        if n < 2:
            return ('logpdf_score', (), {})
        m = int(rng.randint(1, n))
        q = rows[1:1 + m]
        if rng.rand() < .1:
            q = q + [rows[0]]
        if rng.rand() < .15:
            q = q + q[:1]
        return ('relevance_probability', (rows[0], q, self.pick(1)[0]), {})

    def bad(self):
        rng = self.rng
        n = self.view.n_rows()
        z = self.view.outputs[0]
        c = self.pick(1)[0]
        k = rng.randint(9)
        if k == 0:
            return ('logpdf', (None, {997: 1.}), {})
        if k == 1:
            return ('simulate', (None, [997]), {})
        if k == 2:
            return ('logpdf', (None, {c: self.value(c)},
                               {c: self.value(c)}), {})
        if k == 3:
            return ('simulate', (None, [c, c]), {})
        if k == 4:
            return ('logpdf', (0, {c: self.value(c)}, {z: 0}), {})
        if k == 5:
            return ('simulate', (0, [z]), {})
        if k == 6:
            return ('relevance_probability', (0, [], c), {})
        if k == 7:
            return ('relevance_probability', (
                int(rng.randint(n)), [int(rng.randint(n)), n + 4], c), {})
        return ('relevance_probability', (0, [0], 997), {})


# ------------------------------------------------------------- digests, 2 ---

def digest_prim(name, m, distargs):
    rng = np.random.RandomState(5)
    out = dict(suff=norm_meta({'suffstats': m.get_suffstats()}),
               hypers=norm(m.get_hypers()), params=norm(m.get_params()),
               N=m.N, data=norm(dict(m.data)), score=float(
                   m.logpdf_score()), distargs=norm(m.get_distargs()))
    o = m.outputs[0]
    out['answers'] = []
    for _ in range(4):
        x = float(prims.gen_value(name, rng, distargs))
        out['answers'].append(float(m.logpdf(-1, {o: x})))
    return out


def strip(meta):
    """drop pickled regressors: they hold a random stream"""
    if isinstance(meta, dict):
        for k in list(meta):
            if isinstance(meta[k], (bytes, str)) and 'binary' in k:
                del meta[k]
            else:
                strip(meta[k])


def digest_model(m, ad, qs, rows):
    out = dict(meta=norm_meta(m.to_metadata()), answers=[])
    strip(out['meta'])
    for q in qs:
        try:
            a = float(ad.ask(m, q))
        except Exception as e:
            a = type(e).__name__
        out['answers'].append(a)
    try:
        out['score'] = float(m.logpdf_score()) if ad.has_score else None
    except Exception as e:
        out['score'] = type(e).__name__
    return out
