"""C03: unincorporate undoes incorporate; order of observations is irrelevant."""
import math

import numpy as np

import hist
import mix
import models
import prims
from vlib import scenario

RULE = ('a case is a model after a random interleaving of incorporate and '
        'unincorporate calls, compared with a fresh model that recorded just '
        'the surviving rows in another order (and with the closed form); '
        'non-trivial when at least one row was removed and one survives; '
        'distinct by the operation log')


def rowid_pool(rng, large=False):
    return [int(i) for i in rng.permutation(400)[:200]] if large else \
        [int(i) for i in rng.permutation(60)[:25]]


def interleave(ctx, incorporate, unincorporate, fresh, n_ops, probe=None,
               large=False):
    """Random history; returns surviving {rowid: row} in recording order, and
    the log."""
    rng = ctx.rng
    pool = rowid_pool(rng, large)
    rows, log, old = {}, [], {}
    p = rng.choice([.35, .6, .8])
    for i in range(n_ops):
        free = [r for r in pool if r not in rows]
        if rows and (rng.rand() > p or not free):
            # first, last or any
            ks = list(rows)
            r = ks[[0, -1, rng.randint(len(ks))][rng.randint(3)]]
            unincorporate(r)
            old[r] = rows.pop(r)
            log.append(('-', r))
        else:
            gone = [r for r in old if r not in rows]
            if gone and rng.rand() < .4:
                r = gone[rng.randint(len(gone))]
                x = old[r] if rng.rand() < .6 else fresh()
            else:
                r = free[rng.randint(len(free))]
                x = fresh()
            incorporate(r, x)
            rows[r] = x
            log.append(('+', r, x))
        if probe is not None and rng.rand() < (.02 if large else .12):
            probe(rows, log)
    return rows, log


def canon(s):
    """Statistics, disregarding the order of keyed counts."""
    if isinstance(s, dict):
        return {k: canon(v) for k, v in s.items()}
    if isinstance(s, (list, tuple)) and s and all(
            isinstance(x, (list, tuple)) for x in s):
        return sorted(s)
    return s


def shuffled(rng, rows):
    ks = list(rows)
    rng.shuffle(ks)
    return {k: rows[k] for k in ks}


@scenario(quick=198, thorough=660, timeout=240)
def univariate(ctx):
    rng = ctx.rng
    name = prims.ALL[ctx.index % len(prims.ALL)]
    large = ctx.index % 6 == 5
    distargs = (prims.large_distargs if large else prims.gen_distargs)(
        name, rng)
    hypers = prims.gen_hypers(name, rng)
    params = prims.gen_params(name, distargs, rng)
    m = prims.make(name, 3, hypers, distargs, params, 2)
    hypers = dict(m.get_hypers())
    styles = int(rng.randint(0, 3))

    def probe(rows, log):
        other = prims.make(name, 4, hypers, distargs, params, 2)
        sh = shuffled(rng, rows)
        for r, x in sh.items():
            other.incorporate(r, {2: x})
        w = dict(type=name, hypers=hypers, distargs=distargs, params=params,
                 log=log[-40:], rows=rows)
        tol = (1e-5, 1e-5) if name in ('normal', 'lognormal', 'vonmises') \
            else (1e-8, 1e-8)
        for _ in range(4):
            x = prims.gen_value(name, rng, distargs, styles)
            q = m.logpdf(None, {2: x})
            ctx.close(q, other.logpdf(None, {2: x}), name + ':order',
                      '%s logpdf of %r after the history vs the same rows '
                      'afresh' % (name, x), *tol, **w)
            ctx.close(q, prims.predictive(
                name, x, list(rows.values()), hypers, distargs, params),
                name + ':closed-form', '%s logpdf of %r' % (name, x),
                2e-4, 2e-4, **w)
        ctx.close(m.logpdf_score(), other.logpdf_score(), name + ':order-score',
                  '%s logpdf_score' % name, tol[0], tol[1] * (1 + len(rows)),
                  **w)
        d = mix.diff(canon(m.get_suffstats()), canon(other.get_suffstats()),
                     tol=1e-7)
        ctx.true(d is None, name + ':statistics', '%s statistics differ from '
                 'those of the same rows afresh: %s' % (name, d), **w)
        ctx.true(m.N == len(rows), name + ':count', '%s counts %r rows, %d '
                 'recorded' % (name, m.N, len(rows)), **w)
        ctx.count('histories compared')
        ctx.case(dict(type=name, log=log), bool(rows) and any(
            l[0] == '-' for l in log))

    def value():
        if large and name == 'crp':
            return prims.large_crp(rng, 1)[0]
        return prims.gen_value(name, rng, distargs, styles)

    for n in ((int(rng.randint(300, 600)),) if large else
              (int(rng.randint(3, 25)), int(rng.randint(25, 150)))):
        rows, log = interleave(
            ctx, lambda r, x: m.incorporate(r, {2: x}), m.unincorporate,
            value, n, probe, large)
        probe(rows, log)
        # down to nothing and back to the prior
        ks = list(rows)
        rng.shuffle(ks)
        for r in ks:
            m.unincorporate(r)
        probe({}, log + [('-', r) for r in ks])
        ctx.close(m.logpdf_score(), prims.make(
            name, 4, hypers, distargs, params, 2).logpdf_score(),
            name + ':empty', '%s score after removing everything' % name,
            1e-5, 1e-5, type=name, log=log)


@scenario(quick=66, thorough=220, timeout=240)
def column(ctx):
    """Dim: rows in clusters, with missing cells."""
    from cgpm.mixtures.dim import Dim
    rng = ctx.rng
    spec = mix.gen_spec(rng, prims.ALL if ctx.index % 3 == 0 else mix.MIXED)
    name = spec['cctype']
    if name in ('beta', 'normal_trunc'):
        name = 'normal'
        spec = dict(cctype='normal', distargs=None,
                    hypers=prims.gen_hypers('normal', rng))

    def make():
        return Dim([4], [9], cctype=name, hypers=dict(spec['hypers']),
                   distargs=spec['distargs'], rng=np.random.RandomState(1))
    d = make()
    nk = int(rng.randint(1, 5))

    def fresh():
        x = mix.NAN if rng.rand() < .2 else prims.gen_value(
            name, rng, spec['distargs'], 1)
        return (x, int(rng.randint(nk)))

    def probe(rows, log):
        other = make()
        for r, (x, k) in shuffled(rng, rows).items():
            other.incorporate(r, {4: x}, {9: k})
        w = dict(spec=spec, log=log[-40:], rows=rows)
        for k in range(nk + 1):
            x = prims.gen_value(name, rng, spec['distargs'], 1)
            data = [y for y, z in rows.values() if z == k and not
                    mix.isnan(y)]
            q = d.logpdf(None, {4: x}, None, {9: k})
            ctx.close(q, other.logpdf(None, {4: x}, None, {9: k}),
                      'dim:order', 'column %s logpdf of %r in cluster %d' % (
                          name, x, k), 1e-5, 1e-5, **w)
            ctx.close(q, prims.predictive(
                name, x, data, d.hypers, spec['distargs']),
                'dim:closed-form', 'column %s logpdf of %r in cluster %d' % (
                    name, x, k), 2e-4, 2e-4, **w)
        ctx.close(d.logpdf_score(), other.logpdf_score(), 'dim:score',
                  'column %s logpdf_score' % name, 1e-6,
                  1e-5 * (1 + len(rows)), **w)
        ctx.true({**d.Zr, **d.Zi} == {r: k for r, (_, k) in rows.items()},
                 'dim:rows', 'column records rows %r, expected %r' % (
                     {**d.Zr, **d.Zi}, rows), **w)
        ctx.case(dict(spec=spec, log=log), bool(rows) and any(
            l[0] == '-' for l in log))
    rows, log = interleave(
        ctx, lambda r, x: d.incorporate(r, {4: x[0]}, {9: x[1]}),
        d.unincorporate, fresh, int(rng.randint(5, 60)), probe)
    probe(rows, log)


def model_history(ctx, name):
    rng = ctx.rng
    ad = models.ALL[name](rng)
    m = ad.build(int(rng.randint(2**31 - 1)))
    rtol, atol = models.close_tol(name)

    def probe(rows, log):
        other = ad.build(5)
        w = dict(model=ad.desc(), log=log[-25:])
        for r, row in shuffled(rng, rows).items():
            ad.record(other, r, row)
        if name == 'ols':
            if not ad.usable(rows):
                return
            m.transition()
            other.transition()
        if name == 'forest' and rows:
            a, b = m.to_metadata(), other.to_metadata()
            counts = [0] * ad.k
            for o, _ in rows.values():
                counts[int(o[ad.outputs[0]])] += 1
            ctx.true(list(a['counts']) == list(b['counts']) == counts,
                     'forest:counts', 'class counts %r, the same rows afresh '
                     '%r, data %r' % (a['counts'], b['counts'], counts), **w)
        if name == 'kde' and not rows:
            return
        qs = ad.queries(rows, 3)
        for q in qs:
            if name == 'knn' and ad.ref(m, rows, q) is None:
                continue
            a, b = ad.ask(m, q), ad.ask(other, q)
            ctx.close(a, b, name + ':order', '%s logpdf of %r after the '
                      'history vs the same rows afresh' % (name, q),
                      max(rtol, 1e-6), max(atol, 1e-6), query=q, **w)
            want = ad.ref(m, rows, q)
            if want is not None:
                ctx.close(a, want, name + ':closed-form',
                          '%s logpdf of %r' % (name, q), 1e-5, 1e-5,
                          query=q, **w)
        if ad.has_score and not (name == 'kde' and not ad.score_ok(rows)):
            ctx.close(m.logpdf_score(), other.logpdf_score(),
                      name + ':score', '%s logpdf_score' % name, 1e-6,
                      1e-5 * (1 + len(rows)), **w)
        if hasattr(m, 'N'):
            ctx.true(m.N == len(rows), name + ':count', '%s counts %r rows, '
                     '%d recorded' % (name, m.N, len(rows)), **w)
        ctx.count('histories compared')
        ctx.case(dict(model=name, desc=ad.desc(), log=log), len(qs) > 0
                 and any(l[0] == '-' for l in log))
    rows, log = interleave(
        ctx, lambda r, x: ad.record(m, r, x), m.unincorporate, ad.fresh_row,
        int(rng.randint(150, 250) if ctx.index % 6 == 5 else
            rng.randint(10, 60)), probe, ctx.index % 6 == 5)
    probe(rows, log)
    # every row may be recorded again
    gone = [l for l in log if l[0] == '+' and l[1] not in rows]
    for l in gone[:5]:
        if l[1] not in rows:
            ad.record(m, l[1], l[2])
            rows[l[1]] = l[2]
    probe(rows, log + [('again', [l[1] for l in gone[:5]])])


@scenario(quick=36, thorough=150, timeout=300)
def linreg(ctx):
    model_history(ctx, 'linreg')


@scenario(quick=36, thorough=150, timeout=300)
def ols(ctx):
    model_history(ctx, 'ols')


@scenario(quick=24, thorough=80, timeout=300)
def forest(ctx):
    model_history(ctx, 'forest')


@scenario(quick=36, thorough=150, timeout=300)
def kde(ctx):
    model_history(ctx, 'kde')


@scenario(quick=36, thorough=150, timeout=300)
def knn(ctx):
    model_history(ctx, 'knn')


@scenario(quick=36, thorough=150, timeout=300)
def factor(ctx):
    model_history(ctx, 'factor')


def view_probe(ctx, h, where):
    """Take every row out and record it again, in another order: nothing may
    change. Cluster numbers are given, so the partition is the same."""
    v, rng = h.view, ctx.rng
    rows = h.rows()
    seed = int(rng.randint(2**31 - 1))
    queries = 4 if rows == list(range(h.n_all())) else 0
    before = mix.fingerprint_view(v, h.X, seed, queries)
    clusters = dict(v.Zr())
    out = [rows[i] for i in rng.permutation(len(rows))]
    keep = int(rng.randint(0, len(rows)))
    # leave at least one row in
    out = out[:max(0, len(rows) - 1 - keep)] if rng.rand() < .5 else out[:-1]
    for r in out:
        v.unincorporate(r)
    rng.shuffle(out)
    for r in out:
        obs = {c: h.X[c][r] for c in h.X}
        obs[v.outputs[0]] = clusters[r]
        v.incorporate(r, obs)
    after = mix.fingerprint_view(v, h.X, seed, queries)
    d = mix.diff(before, after, tol=1e-6)
    ctx.true(d is None, 'view:remove-record', '%s: removing and recording '
             'rows %r changed the view: %s' % (where, out, d),
             log=h.log[-30:], clusters=clusters)
    ctx.count('rows removed and recorded', len(out))
    ctx.case(repr(h.log[-6:]) + repr(out), len(out) > 0)


@scenario(quick=72, thorough=240, timeout=300)
def view(ctx):
    v, X, specs = mix.random_view(ctx.rng)
    h = hist.ViewHistory(ctx, v, X, specs)
    for _ in range(8):
        for _ in range(3):
            h.step()
        view_probe(ctx, h, 'after ' + (h.log[-1][:100] if h.log else ''))
        if ctx.violations:
            break
    mix.check_view(ctx, h.view, h.X, 'at the end', 'view')


@scenario(quick=72, thorough=240, timeout=300)
def state(ctx):
    """The last rows of a state out, and in again; and the same data recorded
    one row at a time."""
    rng = ctx.rng
    st, X, specs = mix.random_state(rng)
    h = hist.StateHistory(ctx, st, X, specs)
    for rnd in range(5):
        for _ in range(3):
            h.step()
        st, n = h.state, h.n_rows()
        seed = int(rng.randint(2**31 - 1))
        before = mix.fingerprint_state(st, seed, 4)
        tok = {v: st.views[v].outputs[0] for v in st.views}
        zr = {v: dict(st.views[v].Zr()) for v in st.views}
        out = int(rng.randint(1, n)) if n > 1 else 0
        for i in range(out):
            st.unincorporate(n - 1 - i)
            if rng.rand() < .2:
                # a visitor comes and goes
                obs = {c: h.value(c) for c in h.X if rng.rand() < .7} or {
                    h.pick_col(): None}
                obs = {c: h.value(c) if x is None else x
                       for c, x in obs.items()}
                st.incorporate(n - 1 - i, obs)
                st.unincorporate(n - 1 - i)
        for r in range(n - out, n):
            obs = {c: h.X[c][r] for c in h.X if not mix.isnan(h.X[c][r])}
            for v in st.views:
                obs[tok[v]] = zr[v][r]
            st.incorporate(r, obs)
        d = mix.diff(before, mix.fingerprint_state(st, seed, 4), tol=1e-6)
        ctx.true(d is None, 'state:remove-record', 'removing and recording '
                 'the last %d rows changed the state: %s' % (out, d),
                 log=h.log[-30:])
        ctx.count('rows removed and recorded', out)
        ctx.case(repr(h.log[-6:]) + repr(out), out > 0)
        if ctx.violations:
            return
    mix.check_state(ctx, h.state, h.X, 'at the end', 'state')


@scenario(quick=30, thorough=100, timeout=240)
def view_columns(ctx):
    """A column out of a view and in again keeps the answers."""
    rng = ctx.rng
    v, X, specs = mix.random_view(rng, n_cols=int(rng.randint(2, 5)))
    h = hist.ViewHistory(ctx, v, X, specs)
    for _ in range(4):
        for _ in range(2):
            h.step()
        if len(h.X) < 2:
            break
        seed = int(rng.randint(2**31 - 1))
        ok = h.rows() == list(range(h.n_all()))
        before = mix.fingerprint_view(v, h.X, seed, 4 if ok else 0)
        cs = [sorted(h.X)[i] for i in rng.permutation(len(h.X))][
            :int(rng.randint(1, len(h.X)))]
        ds = [v.dims[c] for c in cs]
        for d in ds:
            v.unincorporate_dim(d)
        rng.shuffle(ds)
        for d in ds:
            v.incorporate_dim(d, reassign=bool(rng.rand() < .5))
        d = mix.diff(before, mix.fingerprint_view(
            v, h.X, seed, 4 if ok else 0), tol=1e-6)
        ctx.true(d is None, 'view:column-out-in', 'taking columns %r out and '
                 'in changed the view: %s' % (cs, d), log=h.log[-30:])
        ctx.case(repr(h.log[-6:]) + repr(cs), True)
