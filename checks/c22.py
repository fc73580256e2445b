"""C22: multivariate normal density, gradient and conditionals are exact."""
import math

import numpy as np

from cgpm.utils import mvnormal as mv

from vlib import scenario

RULE = ('a case is one call of logpdf, dlogpdf or conditional for one '
        'generated mean, covariance and point, compared with the closed form '
        'evaluated by eigendecomposition, with finite differences and '
        'univariate chains, and with the same call on permuted dimensions')


def gen_cov(rng, n):
    kind = rng.randint(5)
    scale = 10**rng.uniform(-3, 3)
    if kind == 0:
        return np.diag(np.exp(rng.uniform(-4, 4, n))) * scale, 1e2
    A = rng.normal(size=(n, n))
    S = A.dot(A.T) + .1 * np.eye(n)
    cond = 1e2
    if kind == 1:
        d = 10**rng.uniform(-2, 2, n)
        S = S * np.outer(d, d)
    elif kind == 2 and n > 1:
        # near singular: one direction nearly without variance
        Q, _ = np.linalg.qr(A)
        w = np.exp(rng.uniform(-1, 1, n))
        w[0] = 10**rng.uniform(-9, -5)
        S = (Q * w).dot(Q.T)
        S = (S + S.T) / 2
    elif kind == 3:
        rho = rng.uniform(-1. / n, .99)
        S = (1 - rho) * np.eye(n) + rho
    return S * scale, cond


def ref_logpdf(x, mu, S):
    w, Q = np.linalg.eigh(S)
    z = Q.T.dot(x - mu)
    return -.5 * (math.fsum(z * z / w) + math.fsum(np.log(w))
                  + len(x) * math.log(2 * math.pi))


def setup(ctx, nmax=7):
    rng = ctx.rng
    n = int(rng.randint(1, nmax))
    if nmax == 7 and rng.rand() < .06:
        n = int(rng.randint(8, 26))
    S, _ = gen_cov(rng, n)
    mu = rng.normal(0, 3, n)
    L = np.linalg.cholesky(S)
    x = mu + L.dot(rng.normal(size=n)) * rng.uniform(0, 3)
    return rng, n, S, mu, x


def cond_tol(S):
    return max(1e-9, 1e-14 * np.linalg.cond(S))


def unchanged(ctx, before, after, what):
    ctx.true(all(np.array_equal(a, b) for a, b in zip(before, after)),
             what + ':mutates', 'arguments of %s changed' % what)


@scenario(quick=360, thorough=600)
def density(ctx):
    for _ in range(10):
        rng, n, S, mu, x = setup(ctx)
        keep = x.copy(), mu.copy(), S.copy()
        got = mv.logpdf(x, mu, S)
        unchanged(ctx, keep, (x, mu, S), 'logpdf')
        tol = cond_tol(S) * (10 + abs(got))
        ctx.true(isinstance(got, float), 'logpdf', 'type %r' % type(got))
        ctx.close(got, ref_logpdf(x, mu, S), 'logpdf', 'n=%d' % n, 1e-8,
                  tol, x=x, mu=mu, S=S)
        p = rng.permutation(n)
        ctx.close(mv.logpdf(x[p], mu[p], S[np.ix_(p, p)]), got,
                  'logpdf:permute', 'n=%d' % n, 1e-8, tol, x=x, mu=mu, S=S)
        # units: x -> a x shifts the density by n log a
        a = 10**rng.uniform(-2, 2)
        ctx.close(mv.logpdf(a * x, a * mu, a * a * S), got - n * math.log(a),
                  'logpdf:scale', 'n=%d a=%r' % (n, a), 1e-8, tol)
        ctx.close(mv.logpdf(2 * mu - x, mu, S), got, 'logpdf:symmetric',
                  'n=%d' % n, 1e-8, tol)
        ctx.true(mv.logpdf(mu.copy(), mu, S) >= got - tol, 'logpdf:mode',
                 'density at the mean is lower', x=x, mu=mu, S=S)
        # lists of the code's own making: n = 1
        s2 = float(np.exp(rng.uniform(-5, 5)))
        ctx.close(mv.logpdf(np.array([x[0]]), np.array([mu[0]]),
                            np.array([[s2]])),
                  -.5 * (x[0] - mu[0])**2 / s2 - .5 * math.log(
                      2 * math.pi * s2), 'logpdf', 'n=1', 1e-9, 1e-9)
        ctx.case(dict(x=x, mu=mu, S=S))


@scenario(quick=24, thorough=24)
def integral(ctx):
    """Total mass one on a grid, in one and two dimensions."""
    rng = ctx.rng
    s = float(np.exp(rng.uniform(-2, 2)))
    mu = np.array([rng.normal()])
    g = np.linspace(mu[0] - 9 * s, mu[0] + 9 * s, 2001)
    tot = sum(math.exp(mv.logpdf(np.array([v]), mu, np.array([[s * s]])))
              for v in g) * (g[1] - g[0])
    ctx.close(tot, 1., 'logpdf:mass', 'one dimension', 1e-6, 1e-6)
    rho = rng.uniform(-.8, .8)
    S = np.array([[1., rho], [rho, 1.]])
    g = np.linspace(-7, 7, 141)
    tot = sum(math.exp(mv.logpdf(np.array([a, b]), np.zeros(2), S))
              for a in g for b in g) * (g[1] - g[0])**2
    ctx.close(tot, 1., 'logpdf:mass', 'two dimensions', 1e-5, 1e-5)
    ctx.case(dict(s=s, rho=rho))


@scenario(quick=240, thorough=400)
def gradient(ctx):
    for _ in range(6):
        rng, n, S, mu, x = setup(ctx, 5)
        if np.linalg.cond(S) > 1e5:
            S = S + np.eye(n) * np.trace(S) / n
        i, j, k = (int(v) for v in rng.randint(0, 4, 3))
        dX = [rng.normal(size=n) for _ in range(i)]
        dMu = [rng.normal(size=n) for _ in range(j)]
        dS = []
        for _ in range(k):
            A = rng.normal(size=(n, n))
            dS.append((A + A.T) * np.trace(S) / n)
        keep = [x.copy(), mu.copy(), S.copy()] + [
            d.copy() for d in dX + dMu + dS]
        gx, gm, gs = mv.dlogpdf(x, dX, mu, dMu, S, dS)
        unchanged(ctx, keep, [x, mu, S] + dX + dMu + dS, 'dlogpdf')
        if not ctx.true((len(gx), len(gm), len(gs)) == (i, j, k), 'dlogpdf',
                        'shapes %r' % ((gx, gm, gs),)):
            continue
        alpha = np.linalg.solve(S, x - mu)
        Sinv = np.linalg.inv(S)
        Q = np.outer(alpha, alpha) - Sinv
        for got, want, what in (
                (gx, [-alpha.dot(d) for d in dX], 'x'),
                (gm, [alpha.dot(d) for d in dMu], 'mean'),
                (gs, [.5 * np.sum(Q * d) for d in dS], 'covariance')):
            for g, w in zip(got, want):
                ctx.close(g, w, 'dlogpdf:' + what, 'n=%d' % n, 1e-7, 1e-7,
                          x=x, mu=mu, S=S)
        # central differences of the density itself
        h = 1e-5

        def fd(f, scale):
            e = h * scale
            return (f(e) - f(-e)) / (2 * e)
        sd = math.sqrt(np.linalg.eigvalsh(S)[0])
        for g, d in zip(gx, dX):
            w = fd(lambda e: mv.logpdf(x + e * d, mu, S), sd)
            ctx.close(g, w, 'dlogpdf:x', 'finite difference', 1e-4,
                      1e-5 * (1 + abs(w)))
        for g, d in zip(gm, dMu):
            w = fd(lambda e: mv.logpdf(x, mu + e * d, S), sd)
            ctx.close(g, w, 'dlogpdf:mean', 'finite difference', 1e-4,
                      1e-5 * (1 + abs(w)))
        for g, d in zip(gs, dS):
            sc = np.linalg.eigvalsh(S)[0] / np.linalg.norm(d)
            w = fd(lambda e: mv.logpdf(x, mu, S + e * d), sc)
            ctx.close(g, w, 'dlogpdf:covariance', 'finite difference', 1e-4,
                      1e-4 / (h * 1e5) * (1 + abs(w)))
        ctx.case(dict(x=x, mu=mu, S=S, i=i, j=j, k=k), i + j + k > 0)


@scenario(quick=360, thorough=600)
def conditionals(ctx):
    for _ in range(8):
        rng, n, S, mu, x = setup(ctx)
        if n < 2:
            n = 3
            S, _ = gen_cov(rng, n)
            mu, x = rng.normal(size=n), rng.normal(size=n)
        d1 = int(rng.randint(1, n))
        perm = rng.permutation(n)
        a, b = perm[:d1], perm[d1:]
        args = [x[b], mu[a], mu[b], S[np.ix_(a, a)], S[np.ix_(a, b)],
                S[np.ix_(b, a)], S[np.ix_(b, b)]]
        keep = [v.copy() for v in args]
        m, C = mv.conditional(*args)
        unchanged(ctx, keep, args, 'conditional')
        # the precision matrix gives the same answer another way
        w, V = np.linalg.eigh(S)
        P = (V / w).dot(V.T)
        Paa, Pab = P[np.ix_(a, a)], P[np.ix_(a, b)]
        C2 = np.linalg.inv(Paa)
        m2 = mu[a] - C2.dot(Pab.dot(x[b] - mu[b]))
        tol = cond_tol(S) * 1e3
        sc = np.sqrt(np.diag(S)[a])
        if not ctx.true(m.shape == (d1,) and C.shape == (d1, d1),
                        'conditional', 'shapes %r %r' % (m.shape, C.shape)):
            continue
        reach = 1 + np.max(np.abs(np.linalg.solve(
            np.linalg.cholesky(S[np.ix_(b, b)]), x[b] - mu[b])))
        for i in range(d1):
            ctx.close(m[i] / sc[i], m2[i] / sc[i], 'conditional:mean',
                      'n=%d' % n, 1e-7, tol * reach + 1e-7, S=S, x=x, mu=mu,
                      a=a, b=b)
            for j in range(d1):
                ctx.close(C[i, j] / sc[i] / sc[j], C2[i, j] / sc[i] / sc[j],
                          'conditional:covariance', 'n=%d' % n, 1e-7,
                          tol + 1e-7, S=S, a=a, b=b)
        # the chain rule ties the two functions together
        if np.linalg.cond(S) < 1e6:
            lhs = mv.logpdf(x, mu, S)
            rhs = mv.logpdf(x[b], mu[b], S[np.ix_(b, b)]) + mv.logpdf(
                x[a], m, C)
            ctx.close(lhs, rhs, 'conditional:chain', 'n=%d' % n, 1e-6,
                      1e-6 * (1 + abs(lhs)), S=S, x=x, mu=mu, a=a, b=b)
            ctx.count('chain rules')
        # nothing to learn from independent dimensions
        Z = np.zeros((d1, n - d1))
        m3, C3 = mv.conditional(args[0], args[1], args[2], args[3], Z, Z.T,
                                args[6])
        ctx.true(np.allclose(m3, args[1]) and np.allclose(C3, args[3]),
                 'conditional:independent', 'changed by independent evidence')
        ctx.case(dict(x=x, mu=mu, S=S, d1=d1))


@scenario(quick=120, thorough=120)
def singular(ctx):
    """Not positive definite: the pseudoinverse formula (no blow up)."""
    rng = ctx.rng
    n = int(rng.randint(2, 6))
    r = int(rng.randint(1, n))
    B = rng.normal(size=(n, r))
    S = B.dot(B.T)
    n1 = 1
    S11 = np.array([[1. + n]])
    u = B.dot(rng.normal(size=(r, n1)) * .3)
    x2 = B.dot(rng.normal(size=r))
    m, C = mv.conditional(x2, np.zeros(1), np.zeros(n), S11, u.T, u, S)
    Sp = np.linalg.pinv(S, rcond=1e-10)
    if np.linalg.matrix_rank(S, tol=1e-9) == r and np.linalg.svd(
            S, compute_uv=False)[r - 1] > 1e-3:
        try:
            np.linalg.cholesky(S)
        except np.linalg.LinAlgError:
            ctx.close(m[0], float(u.T.dot(Sp).dot(x2)),
                      'conditional:singular', 'mean', 1e-5, 1e-5)
            ctx.close(C[0, 0], float(S11 - u.T.dot(Sp).dot(u)),
                      'conditional:singular', 'variance', 1e-5, 1e-5)
            ctx.count('pseudoinverse used')
    # an indefinite matrix must not be answered as if it were fine
    ctx.case(dict(n=n, r=r, S=S))


@scenario(quick=24, thorough=24)
def malformed(ctx):
    rng = ctx.rng
    n = int(rng.randint(2, 5))
    S = np.eye(n)
    z = np.zeros(n)
    for f in (lambda: mv.logpdf(np.zeros(n + 1), z, S),
              lambda: mv.logpdf(z, np.zeros(n - 1), S),
              lambda: mv.logpdf(z, z, np.eye(n + 1)),
              lambda: mv.logpdf(z + np.nan, z, S),
              lambda: mv.logpdf(z, z + np.inf, S),
              lambda: mv.logpdf(z, z, S * np.nan),
              lambda: mv.conditional(np.zeros(n + 1), z, z, S, S, S, S),
              lambda: mv.conditional(z * np.nan, z, z, S, S, S, S)):
        ctx.raises(Exception, f, 'malformed', 'malformed argument')
        ctx.case('malformed %d' % n)
