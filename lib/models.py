"""Adapters for the models with their own data: regressions, KDE, KNN, factor
analysis.  Each builds the real model, generates rows and queries, and knows the
density the model is documented to report (written here from the definition,
not from the code)."""
import math

import numpy as np

import mix

INF = float('inf')


def _imp(mod, name):
    import importlib
    return getattr(importlib.import_module(mod), name)


def lgauss(x, mu, s):
    return -.5 * math.log(2 * math.pi) - math.log(s) - .5 * ((x - mu) / s) ** 2


def lse(xs):
    return mix.lse(list(xs))


def lmvn(x, mu, cov):
    x, mu, cov = np.asarray(x, float), np.asarray(mu, float), np.asarray(
        cov, float)
    L = np.linalg.cholesky(cov)
    z = np.linalg.solve(L, x - mu)
    return float(-.5 * len(x) * math.log(2 * math.pi)
                 - np.log(np.diag(L)).sum() - .5 * z @ z)


def varids(rng, n):
    """n distinct variable numbers in no particular order, as any user may
    choose them."""
    return [int(i) for i in rng.permutation(12)[:n]]


class Adapter(object):
    name = None
    conditional = False      # takes inputs
    has_score = True
    missing = False          # records partial rows

    def __init__(self, rng):
        self.rng = rng

    def build(self, seed=0):
        raise NotImplementedError

    def fresh_row(self):
        """(observation, inputs)"""
        raise NotImplementedError

    def record(self, m, rowid, row):
        obs, inputs = row
        if self.conditional:
            m.incorporate(rowid, dict(obs), dict(inputs))
        else:
            m.incorporate(rowid, dict(obs))

    def queries(self, rows, n=4):
        """List of (targets, constraints, inputs), for which logpdf is
        defined."""
        raise NotImplementedError

    def ask(self, m, q, rowid=None):
        t, c, i = q
        return m.logpdf(rowid, dict(t), dict(c) if c else None,
                        dict(i) if i else None)

    def ref(self, m, rows, q):
        """Reference log density; None where the definition is silent."""
        return None

    def ref_score(self, m, rows):
        return None

    def usable(self, rows):
        return True

    def desc(self):
        return {}


# ----------------------------------------------------------- regressions ---

class _Regression(Adapter):
    conditional = True

    def __init__(self, rng, ks=(2, 3, 4)):
        self.rng = rng
        n = int(rng.choice([1, 1, 1, 2, 2, 3, 3, 4, 4, 7]))
        ids = varids(rng, n + 1)
        self.outputs, self.inputs = ids[:1], ids[1:]
        self.kinds = []
        for _ in self.inputs:
            if rng.rand() < .45:
                self.kinds.append(int(rng.choice(tuple(ks) * 3 + (11,))))
            else:
                self.kinds.append(None)
        self.distargs = {'inputs': {
            'stattypes': ['categorical' if k else str(rng.choice(
                ['normal', 'numerical', 'poisson', 'exponential']))
                for k in self.kinds],
            'statargs': [{'k': k} if k else {} for k in self.kinds]}}
        self.scale = float(rng.choice([.3, 1., 5.]))

    def fresh_inputs(self):
        r = self.rng
        items = [(c, (int(r.randint(k)) if r.rand() < .5 else
                      float(r.randint(k))) if k else
                  float(r.normal(0, self.scale)))
                 for c, k in zip(self.inputs, self.kinds)]
        r.shuffle(items)
        return dict((int(c), v) for c, v in items)

    def desc(self):
        return dict(outputs=self.outputs, inputs=self.inputs, kinds=self.kinds)


class LinReg(_Regression):
    name = 'linear_regression'

    def __init__(self, rng):
        _Regression.__init__(self, rng)
        p = 1 + sum(k or 1 for k in self.kinds)
        self.p = p
        self.hypers = {}
        if rng.rand() < .7:
            self.hypers['a'] = float(rng.choice([.3, 1, 2.5, 8]))
            self.hypers['b'] = float(rng.choice([.2, 1, 3, 20]))
        if rng.rand() < .4:
            self.hypers['mu'] = [float(x) for x in rng.normal(0, 1, p)]
        if rng.rand() < .4:
            A = rng.normal(0, 1, (p, p))
            self.hypers['V'] = (A @ A.T + .5 * np.eye(p)).tolist()
        self.w = rng.normal(0, 1, p)

    def build(self, seed=0):
        import copy
        return _imp('cgpm.regressions.linreg', 'LinearRegression')(
            list(self.outputs), list(self.inputs),
            hypers=copy.deepcopy(self.hypers),
            distargs=copy.deepcopy(self.distargs),
            rng=np.random.RandomState(seed))

    def phi(self, inputs):
        out = [1.]
        for c, k in zip(self.inputs, self.kinds):
            if k:
                # one entry per category; category k is the wildcard
                e = [0.] * k
                if inputs[c] < k:
                    e[int(inputs[c])] = 1.
                out += e
            else:
                out.append(float(inputs[c]))
        return np.array(out)

    def fresh_row(self):
        i = self.fresh_inputs()
        y = float(self.phi(i) @ self.w + self.rng.normal(0, .7))
        return {self.outputs[0]: y}, i

    def queries(self, rows, n=4):
        out = []
        for _ in range(n):
            i = self.fresh_inputs()
            cs = [c for c, k in zip(self.inputs, self.kinds) if k]
            if cs and self.rng.rand() < .25:
                c = int(self.rng.choice(cs))
                i[c] = self.kinds[self.inputs.index(c)]
            y = float(self.phi(i) @ self.w + self.rng.normal(0, 2.))
            out.append(({self.outputs[0]: y}, None, i))
        return out

    def _post(self, rows):
        mu = np.asarray(self.hypers.get('mu', np.zeros(self.p)))
        V = np.asarray(self.hypers.get('V', np.eye(self.p)))
        return mu, V

    def t_params(self, m, rows, inputs):
        """Student t predictive: df, loc, scale."""
        mu, V = self._post(rows)
        h = m.get_hypers()
        a, b = float(h['a']), float(h['b'])
        Vi = np.linalg.inv(V)
        if rows:
            Phi = np.array([self.phi(i) for _, i in rows.values()])
            y = np.array([o[self.outputs[0]] for o, _ in rows.values()])
            Vni = Vi + Phi.T @ Phi
            Vn = np.linalg.inv(Vni)
            mn = Vn @ (Vi @ mu + Phi.T @ y)
            an = a + len(y) / 2.
            # residual form: no cancellation
            r = y - Phi @ mn
            bn = b + .5 * (r @ r + (mn - mu) @ Vi @ (mn - mu))
        else:
            Vn, mn, an, bn = V, mu, a, b
        f = self.phi(inputs)
        return 2 * an, float(f @ mn), math.sqrt(
            bn / an * (1 + f @ Vn @ f))

    def ref(self, m, rows, q):
        from scipy import stats
        df, loc, sc = self.t_params(m, rows, q[2])
        return float(stats.t.logpdf(q[0][self.outputs[0]], df, loc, sc))

    def ref_score(self, m, rows):
        from scipy import stats
        tot, seen = 0., {}
        for r, (o, i) in rows.items():
            df, loc, sc = self.t_params(m, seen, i)
            tot += float(stats.t.logpdf(o[self.outputs[0]], df, loc, sc))
            seen[r] = (o, i)
        return tot

    def cdf(self, m, rows, inputs):
        from scipy import stats
        df, loc, sc = self.t_params(m, rows, inputs)
        return lambda x: stats.t.cdf(x, df, loc, sc)


class Ols(_Regression):
    name = 'ordinary_least_squares'
    has_score = False

    def __init__(self, rng):
        _Regression.__init__(self, rng)
        self.p = 1 + sum((k - 1) if k else 1 for k in self.kinds)
        self.w = rng.normal(0, 1, self.p)

    def build(self, seed=0):
        import copy
        return _imp('cgpm.regressions.ols', 'OrdinaryLeastSquares')(
            list(self.outputs), list(self.inputs),
            distargs=copy.deepcopy(self.distargs),
            rng=np.random.RandomState(seed))

    def phi(self, inputs):
        out = [1.]
        for c, k in zip(self.inputs, self.kinds):
            if k:
                e = [0.] * (k - 1)
                if inputs[c] < k - 1:
                    e[int(inputs[c])] = 1.
                out += e
            else:
                out.append(float(inputs[c]))
        return np.array(out)

    def fresh_row(self):
        i = self.fresh_inputs()
        y = float(self.phi(i) @ self.w + self.rng.normal(0, .7))
        return {self.outputs[0]: y}, i

    def queries(self, rows, n=4):
        out = []
        for _ in range(n):
            i = self.fresh_inputs()
            y = float(self.phi(i) @ self.w + self.rng.normal(0, 2.))
            out.append(({self.outputs[0]: y}, None, i))
        return out

    def usable(self, rows):
        """The least-squares fit is unique and leaves a residual."""
        if len(rows) <= self.p + 2:
            return False
        Phi = np.array([self.phi(i) for _, i in rows.values()])
        s = np.linalg.svd(Phi, compute_uv=False)
        return s[-1] > 1e-3 * s[0] and len(s) == self.p

    def fit(self, rows):
        Phi = np.array([self.phi(i) for _, i in rows.values()])
        y = np.array([o[self.outputs[0]] for o, _ in rows.values()])
        w = np.linalg.lstsq(Phi, y, rcond=None)[0]
        r = y - Phi @ w
        return w, math.sqrt(r @ r / len(y))

    def ref(self, m, fitted_rows, q):
        """fitted_rows: the rows recorded at the last transition."""
        w, s = self.fit(fitted_rows)
        return lgauss(q[0][self.outputs[0]], float(self.phi(q[2]) @ w), s)


class Forest(_Regression):
    name = 'random_forest'

    def __init__(self, rng):
        _Regression.__init__(self, rng)
        self.k = int(rng.choice([2, 3, 4, 5]))
        self.distargs['k'] = self.k
        # leave a category unused now and then
        self.used = [c for c in range(self.k) if rng.rand() < .8] or [0]

    def build(self, seed=0):
        import copy
        return _imp('cgpm.regressions.forest', 'RandomForest')(
            list(self.outputs), list(self.inputs),
            distargs=copy.deepcopy(self.distargs),
            rng=np.random.RandomState(seed))

    def fresh_row(self):
        i = self.fresh_inputs()
        s = sum(float(v) for v in i.values())
        if self.rng.rand() < .7:
            x = self.used[int(abs(s)) % len(self.used)]
        else:
            x = int(self.rng.choice(self.used))
        return {self.outputs[0]: x if self.rng.rand() < .5 else float(x)}, i

    def queries(self, rows, n=4):
        return [({self.outputs[0]: int(self.rng.randint(self.k))}, None,
                 self.fresh_inputs()) for _ in range(n)]

    def proba(self, m, inputs):
        p = m.get_params()
        alpha, rf = p['alpha'], p['forest']
        if not hasattr(rf, 'classes_'):
            return [1. / self.k] * self.k
        y = [float(inputs[c]) for c in sorted(self.inputs)]
        # average over the trees, from the definition
        acc = np.zeros(self.k)
        for t in rf.estimators_:
            leaf = t.tree_.apply(np.asarray([y], dtype=np.float32))[0]
            v = t.tree_.value[leaf][0]
            acc[[int(c) for c in rf.classes_]] += v / v.sum()
        acc /= len(rf.estimators_)
        return [alpha / self.k + (1 - alpha) * a for a in acc]

    def ref(self, m, rows, q):
        p = self.proba(m, q[2])[int(q[0][self.outputs[0]])]
        return math.log(p) if p > 0 else -INF

    def ref_score(self, m, rows):
        return math.fsum(self.ref(m, rows, (o, None, i))
                         for o, i in rows.values())


# ------------------------------------------------------- joint estimators ---

class _Joint(Adapter):
    missing = True

    def __init__(self, rng, nmin=1, nmax=4):
        self.rng = rng
        n = int(rng.randint(nmin, nmax + 1))
        self.outputs = varids(rng, n)
        self.kinds = [int(rng.choice([2, 3, 4] * 3 + [11])) if rng.rand() < .4 else None
                      for _ in self.outputs]
        self.kind = dict(zip(self.outputs, self.kinds))
        self.distargs = {'outputs': {
            'stattypes': [str(rng.choice(['categorical', 'nominal'])) if k
                          else 'numerical' for k in self.kinds],
            'statargs': [{'k': k} if k else {} for k in self.kinds]}}

    def value(self, c):
        r, k = self.rng, self.kind[c]
        if k:
            return int(r.randint(k)) if r.rand() < .5 else float(r.randint(k))
        return float(r.normal(0, 2.))

    def fresh_row(self):
        items = [(c, self.value(c)) for c in self.outputs]
        keep = [it for it in items if self.rng.rand() < .85] or items[:1]
        self.rng.shuffle(keep)
        o = dict((int(c), v) for c, v in keep)
        if len(keep) < len(items) and self.rng.rand() < .3:
            for c, _ in items:
                o.setdefault(c, float('nan'))
        return o, None

    def split(self, need_constraint=False):
        r = self.rng
        cs = [int(c) for c in r.permutation(self.outputs)]
        nt = int(r.randint(1, len(cs) + (0 if need_constraint else 1)))
        t, rest = cs[:nt], cs[nt:]
        if need_constraint:
            nc = int(r.randint(1, len(rest) + 1))
        else:
            nc = int(r.randint(0, len(rest) + 1))
        return t, rest[:nc]

    def complete(self, rows, cs):
        return [[o[c] for c in cs] for o, _ in rows.values()
                if all(not mix.isnan(o.get(c)) for c in cs)]

    def desc(self):
        return dict(outputs=self.outputs, kinds=self.kinds)


class Kde(_Joint):
    name = 'multivariate_kde'

    def __init__(self, rng):
        _Joint.__init__(self, rng, 1, 4)
        self.bw = None
        if rng.rand() < .5:
            self.bw = [float(rng.choice([.05, .2, .45])) if k else
                       float(rng.choice([.2, .7, 2.])) for k in self.kinds]

    def build(self, seed=0):
        import copy
        return _imp('cgpm.kde.mvkde', 'MultivariateKde')(
            list(self.outputs), [], distargs=copy.deepcopy(self.distargs),
            params={'bw': list(self.bw)} if self.bw else None,
            rng=np.random.RandomState(seed))

    def levels_ok(self, rows, cs):
        """Every category of the nominal variables occurs among the rows
        complete in cs (see the finding kde:unobserved-category)."""
        D = self.complete(rows, cs)
        if len(D) <= len(cs):
            return False        # statsmodels wants more rows than variables
        return all(len({int(r[j]) for r in D}) == self.kind[c]
                   for j, c in enumerate(cs) if self.kind[c])

    def queries(self, rows, n=4):
        out = []
        for _ in range(30 * n):
            t, c = self.split()
            if not self.complete(rows, t + c) or not self.levels_ok(
                    rows, t + c):
                continue
            out.append(({v: self.value(v) for v in t},
                        {v: self.value(v) for v in c}, None))
            if len(out) == n:
                break
        return out

    def usable(self, rows):
        return len(self.complete(rows, self.outputs)) >= 2 \
            and self.levels_ok(rows, self.outputs)

    def lkernel(self, bw, c, x, xi):
        k = self.kind[c]
        h = bw[self.outputs.index(c)]
        if not k:
            return lgauss(x, xi, h)
        if int(x) == int(xi):
            return math.log(1 - h) if h < 1 else -INF
        return math.log(h / (k - 1)) if h > 0 else -INF

    def ljoint(self, bw, D, cs, vals):
        return lse([math.fsum(self.lkernel(bw, c, v, xi[j])
                    for j, (c, v) in enumerate(zip(cs, vals)))
                    for xi in D]) - math.log(len(D))

    def ref(self, m, rows, q):
        bw = [float(b) for b in m.get_params()['bw']]
        t, c = list(q[0]), list(q[1] or {})
        D = self.complete(rows, t + c)
        num = self.ljoint(bw, D, t + c, [q[0][v] for v in t] +
                          [q[1][v] for v in c])
        if not c:
            return num
        return num - self.ljoint(bw, [d[len(t):] for d in D], c,
                                 [q[1][v] for v in c])

    def score_ok(self, rows):
        return bool(rows) and all(self.levels_ok(
            rows, [c for c in self.outputs if not mix.isnan(o.get(c))])
            for o, _ in rows.values())

    def ref_score(self, m, rows):
        tot = 0.
        for o, _ in rows.values():
            t = {c: o[c] for c in self.outputs if not mix.isnan(o.get(c))}
            tot += self.ref(m, rows, (t, {}, None))
        return tot


class Knn(_Joint):
    name = 'multivariate_knn'
    has_score = False

    def __init__(self, rng):
        _Joint.__init__(self, rng, 2, 4)
        # distances are almost surely distinct with a numerical column
        if all(self.kinds):
            j = int(rng.randint(len(self.kinds)))
            self.kinds[j] = self.kind[self.outputs[j]] = None
            self.distargs['outputs']['stattypes'][j] = 'numerical'
            self.distargs['outputs']['statargs'][j] = {}
        self.K = int(rng.randint(1, 6))
        self.M = int(rng.randint(1, self.K + 1)) if rng.rand() < .6 else None

    def build(self, seed=0):
        import copy
        return _imp('cgpm.knn.mvknn', 'MultivariateKnn')(
            list(self.outputs), [], K=self.K, M=self.M,
            distargs=copy.deepcopy(self.distargs),
            rng=np.random.RandomState(seed))

    def queries(self, rows, n=4):
        out = []
        for _ in range(40 * n):
            t, c = self.split(need_constraint=True)
            if not any(self.kind[v] is None for v in c):
                continue
            if len(self.complete(rows, t + c)) < self.K or len(
                    rows) < self.K:
                continue
            q = ({v: self.value(v) for v in t},
                 {v: self.value(v) for v in c}, None)
            out.append(q)
            if len(out) == n:
                break
        return out

    def code(self, cs, row):
        out = []
        for c, v in zip(cs, row):
            k = self.kind[c]
            if k:
                e = [0.] * (k - 1)
                if int(v) < k - 1:
                    e[int(v)] = 1.
                out += e
            else:
                out.append(float(v))
        return np.array(out)

    def components(self, rows, t, c, cv):
        """List of localities (arrays of target rows), or None at a tie."""
        cs = list(t) + list(c)
        D = self.complete(rows, cs)
        E = np.array([self.code(c, d[len(t):]) for d in D])
        F = np.array([self.code(cs, d) for d in D])
        e = self.code(c, cv)
        d1 = np.sqrt(((E - e) ** 2).sum(1))
        order = np.argsort(d1, kind='stable')
        if len(D) > self.K and d1[order[self.K]] - d1[
                order[self.K - 1]] < 1e-9:
            return None
        M = min(self.K if self.M is None else self.M, self.K)
        out = []
        for i in order[:self.K]:
            d2 = np.sqrt(((F - F[i]) ** 2).sum(1))
            o2 = np.argsort(d2, kind='stable')
            if len(D) > M and d2[o2[M]] - d2[o2[M - 1]] < 1e-9:
                return None
            out.append([D[j][:len(t)] for j in o2[:M]])
        return out

    def lcomp(self, t, loc, vals):
        tot = 0.
        for j, (v, x) in enumerate(zip(t, vals)):
            col = [r[j] for r in loc]
            if self.kind[v]:
                p = sum(1 for y in col if int(y) == int(x)) / float(len(col))
                tot += math.log(p) if p > 0 else -INF
            else:
                tot += lgauss(x, float(np.mean(col)),
                              max(float(np.std(col)), .01))
        return tot

    def ref(self, m, rows, q):
        t, c = list(q[0]), list(q[1])
        comps = self.components(rows, t, c, [q[1][v] for v in c])
        if comps is None:
            return None
        return lse([self.lcomp(t, loc, [q[0][v] for v in t])
                    for loc in comps]) - math.log(len(comps))


class Factor(_Joint):
    name = 'low_dimensional_mvn'

    def __init__(self, rng):
        self.rng = rng
        self.D = int(rng.randint(1, 6))
        self.L = int(rng.randint(1, self.D + 1))
        self.outputs = varids(rng, self.D + self.L)
        self.observables = self.outputs[:self.D]
        self.kind = {c: None for c in self.outputs}
        self.kinds = [None] * len(self.outputs)
        self.params = None
        if rng.rand() < .8:
            self.params = dict(
                mux=[float(x) for x in rng.normal(0, 2, self.D)],
                Psi=np.diag(rng.uniform(.1, 3, self.D)).tolist(),
                W=rng.normal(0, 1, (self.D, self.L)).tolist())

    def build(self, seed=0):
        import copy
        return _imp('cgpm.factor.factor', 'FactorAnalysis')(
            list(self.outputs), [], L=self.L,
            params=copy.deepcopy(self.params),
            rng=np.random.RandomState(seed))

    def fresh_row(self):
        items = [(c, self.value(c)) for c in self.observables]
        keep = [it for it in items if self.rng.rand() < .85] or items[:1]
        self.rng.shuffle(keep)
        return dict((int(c), v) for c, v in keep), None

    def queries(self, rows, n=4):
        out = []
        for _ in range(n):
            t, c = self.split()
            out.append(({v: self.value(v) for v in t},
                        {v: self.value(v) for v in c}, None))
        return out

    def gaussian(self, params):
        """mean and covariance of observables + latents, in output order."""
        W = np.asarray(params['W'], float).reshape(self.D, self.L)
        Psi = np.asarray(params['Psi'], float)
        mux = np.asarray(params['mux'], float)
        mean = np.concatenate([mux, np.zeros(self.L)])
        cov = np.block([[W @ W.T + Psi, W], [W.T, np.eye(self.L)]])
        return mean, cov

    def params_of(self, m):
        return m.to_metadata()['params']

    def condition(self, params, t, c, cv):
        mean, cov = self.gaussian(params)
        ti = [self.outputs.index(v) for v in t]
        ci = [self.outputs.index(v) for v in c]
        if not ci:
            return mean[ti], cov[np.ix_(ti, ti)]
        G = np.linalg.solve(cov[np.ix_(ci, ci)], cov[np.ix_(ci, ti)]).T
        mu = mean[ti] + G @ (np.asarray(cv, float) - mean[ci])
        S = cov[np.ix_(ti, ti)] - G @ cov[np.ix_(ci, ti)]
        return mu, (S + S.T) / 2

    def ref(self, m, rows, q):
        t, c = list(q[0]), list(q[1] or {})
        mu, S = self.condition(self.params_of(m), t, c, [q[1][v] for v in c])
        return lmvn([q[0][v] for v in t], mu, S)

    def ref_score(self, m, rows):
        tot = 0.
        for o, _ in rows.values():
            t = {c: o[c] for c in self.observables if not mix.isnan(o.get(c))}
            tot += self.ref(m, rows, (t, {}, None))
        return tot

    def usable(self, rows):
        return len(self.complete(rows, self.observables)) >= self.D + 2


ALL = {'linreg': LinReg, 'ols': Ols, 'forest': Forest, 'kde': Kde, 'knn': Knn,
       'factor': Factor}


def close_tol(name):
    return {'linreg': (1e-6, 1e-5), 'ols': (1e-6, 1e-6),
            'knn': (1e-7, 1e-7)}.get(name, (1e-7, 1e-7))
