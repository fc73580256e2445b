"""C20: a refused request leaves the model unchanged."""
import numpy as np

import hist
import mix
import models
import nets
import prims
import queries as Q
from vlib import Inconclusive, scenario

RULE = ('a case is one invalid request to a live model: it must raise, and '
        'two digests of everything observable, before and after it, must '
        'agree; valid requests follow it; distinct by request and model')

TECHNIQUE = ('fault injection: invalid requests of every kind at random '
             'points of random histories, digests of the live model around '
             'each, and monitored valid requests afterwards')


def refuse(ctx, f, digest, kind, what, before=None, log=None, must=True):
    before = digest() if before is None else before
    err = None
    try:
        r = f()
    except Exception as e:
        err = e
    ctx.count('%s %s' % (kind, 'refused' if err is not None else 'accepted'))
    if err is None:
        if must:
            ctx.fail('accepted:' + kind, '%s was accepted: %r' % (what, r),
                     log=log)
        return None
    try:
        after = digest()
        d = mix.diff(before, after)
    except Exception as e:
        after, d = None, '(no longer answers) %s: %s' % (type(e).__name__, e)
    ctx.true(d is None, 'changed:' + kind, '%s, refused with %s: %s, changed '
             'the model at %s' % (what, type(err).__name__, str(err)[:200],
                                  d), log=log)
    ctx.case('%s %s %s' % (kind, what, hash(repr(before)) % 10**6))
    return after


# ------------------------------------------------------------------ states ---

def wrong(rng, name, distargs):
    """a value outside the support, or None"""
    xs = prims.outside(name, distargs)
    return float(xs[rng.randint(len(xs))]) if xs else None


class StateFaults(object):

    def __init__(self, rng, st, specs):
        self.rng, self.st = rng, st
        self.specs = specs
        self.X = {c: list(st.X[c]) for c in st.X}
        self.n = st.n_rows()
        self.cols = list(st.outputs)

    def value(self, c):
        return mix.gen_new_value(self.rng, self.specs[c])

    def full(self, drop=.2):
        o = {c: self.value(c) for c in self.cols if self.rng.rand() >= drop}
        return o or {self.cols[0]: self.value(self.cols[0])}

    def badcol(self):
        """(column, value outside its support) or None"""
        cs = list(self.cols)
        self.rng.shuffle(cs)
        for c in cs:
            x = wrong(self.rng, self.specs[c]['cctype'],
                      self.specs[c]['distargs'])
            if x is not None:
                return c, x
        return None

    def pick(self):
        return self.cols[self.rng.randint(len(self.cols))]

    def all(self):
        """(kind, description, call, must)"""
        st, rng, n = self.st, self.rng, self.n
        out = []

        def add(kind, desc, f, must=True):
            out.append((kind, '%s %r' % (kind, desc), f, must))
        for r in (0, n - 1, n + 1, -1, n + 7):
            o = self.full()
            add('incorporate row', (r, o), lambda r=r, o=o:
                st.incorporate(r, dict(o)))
        o = dict(self.full(), **{})
        o[991] = 1.
        add('incorporate unknown column', o, lambda o=o:
            st.incorporate(n, dict(o)))
        o = self.full()
        o[self.pick()] = float('nan')
        add('incorporate nan', o, lambda o=o: st.incorporate(n, dict(o)))
        o2 = self.full()
        add('incorporate inputs', o2, lambda o=o2: st.incorporate(
            n, dict(o), {5: 1.}))
        bad = self.badcol()
        if bad:
            o = dict(self.full())
            o[bad[0]] = bad[1]
            add('incorporate outside domain', o, lambda o=o:
                st.incorporate(n, dict(o)))
            # clusters specified, some of them fresh
            oc = dict(o)
            for v, view in st.views.items():
                oc[view.outputs[0]] = int(max(view.Nk()) + rng.randint(2))
            add('incorporate outside domain', oc, lambda o=oc:
                st.incorporate(n, dict(o)))
        for r in (-1, n, 0 if n > 1 else 7, n + 3):
            add('unincorporate row', r, lambda r=r: st.unincorporate(r))
        if n == 1:
            add('unincorporate last row', 0, lambda: st.unincorporate(0))
        # dims
        xs = [float(x) for x in rng.normal(0, 1, n)]
        vs = list(st.views)
        v = vs[rng.randint(len(vs))]
        vv = [v, max(vs) + 1][rng.randint(2)]
        add('incorporate_dim length', len(xs) + 1, lambda:
            st.incorporate_dim(xs + [0.], [990], cctype='normal', v=vv))
        add('incorporate_dim length', len(xs) - 1, lambda:
            st.incorporate_dim(xs[1:], [990], cctype='normal', v=vv))
        c = self.pick()
        add('incorporate_dim existing', c, lambda:
            st.incorporate_dim(xs, [c], cctype='normal', v=vv))
        add('incorporate_dim multivariate', 2, lambda:
            st.incorporate_dim(xs, [990, 989], cctype='normal', v=vv))
        add('incorporate_dim inputs', c, lambda:
            st.incorporate_dim(xs, [990], inputs=[c], cctype='normal', v=vv))
        add('incorporate_dim cctype', 'bogus', lambda:
            st.incorporate_dim(xs, [990], cctype='bogus', v=vv))
        for t, da in (('bernoulli', None), ('categorical', {'k': 2}),
                      ('poisson', None), ('exponential', None),
                      ('lognormal', None)):
            w = wrong(rng, t, da)
            ys = [float(prims.gen_value(t, rng, da)) for _ in xs]
            ys[rng.randint(len(ys))] = w
            add('incorporate_dim outside domain', (t, ys, vv),
                lambda t=t, da=da, ys=ys: st.incorporate_dim(
                    list(ys), [990], cctype=t, distargs=da, v=vv))
        if st.Cd:
            add('incorporate_dim no view', 990, lambda:
                st.incorporate_dim(xs, [990], cctype='normal'))
        add('unincorporate_dim unknown', 990, lambda:
            st.unincorporate_dim(990))
        if len(self.cols) == 1:
            add('unincorporate_dim last', self.cols[0], lambda:
                st.unincorporate_dim(self.cols[0]))
        # cells
        seen = [(r, c) for c in self.cols for r in range(n)
                if not mix.isnan(self.X[c][r])]
        holes = [(r, c) for c in self.cols for r in range(n)
                 if mix.isnan(self.X[c][r])]
        if seen:
            r, c1 = seen[rng.randint(len(seen))]
            o = {c1: self.value(c1)}
            for r2, c2 in holes:
                if r2 == r:
                    o[c2] = self.value(c2)
            add('force_cell observed', (r, o), lambda r=r, o=o:
                st.force_cell(r, dict(o)))
        for r in (-1, n, n + 5):
            o = {self.pick(): 1.}
            add('force_cell row', (r, o), lambda r=r, o=o:
                st.force_cell(r, dict(o)))
        add('force_cell column', 992, lambda: st.force_cell(0, {992: 1.}))
        rng.shuffle(holes)
        for r, c1 in holes[:3]:
            w = wrong(rng, self.specs[c1]['cctype'],
                      self.specs[c1]['distargs'])
            if w is None:
                continue
            items = [(c2, self.value(c2)) for r2, c2 in holes
                     if r2 == r and c2 != c1] + [(c1, w)]
            rng.shuffle(items)
            o = {c: x for c, x in items}
            add('force_cell outside domain', (r, o), lambda r=r, o=o:
                st.force_cell(r, dict(o)))
            items = {c2: self.value(c2) for r2, c2 in holes if r2 == r}
            items[993] = 1.
            add('force_cell column', (r, items), lambda r=r, o=items:
                st.force_cell(r, dict(o)))
        # types
        add('update_cctype unknown column', 990, lambda:
            st.update_cctype(990, 'normal'))
        c = self.pick()
        add('update_cctype cctype', (c, 'bogus'), lambda c=c:
            st.update_cctype(c, 'bogus'))
        for t, da in (('bernoulli', None), ('categorical', {'k': 2}),
                      ('poisson', None), ('exponential', None),
                      ('lognormal', None), ('geometric', None)):
            for c in self.cols:
                ys = [x for x in self.X[c] if not mix.isnan(x)]
                if any(not prims.support(t, x, da) for x in ys):
                    add('update_cctype outside domain', (c, t, da), lambda
                        c=c, t=t, da=da: st.update_cctype(c, t, da))
        add('update_cctype distargs', c, lambda c=c:
            st.update_cctype(c, 'categorical'))
        single = [v for v in st.views.values() if len(v.dims) == 1]
        if single:
            c = sorted(single[0].dims)[0]
            add('update_cctype no inputs', c, lambda c=c:
                st.update_cctype(c, 'linear_regression'))
        # inference
        add('transition columns', 990, lambda: st.transition(
            N=1, cols=[990], progress=False))
        add('transition kernel', 'bogus', lambda: st.transition(
            N=1, kernels=['bogus'], progress=False))
        add('transition kernel', 'alpha, bogus', lambda: st.transition(
            N=1, kernels=['alpha', 'rows', 'bogus'], progress=False))
        add('transition_foreign', self.cols[:1], lambda:
            st.transition_foreign(N=1, cols=self.cols[:1], progress=False))
        # composition
        c = self.pick()
        cpt = lambda outs, ins: nets.Cpt(
            outs, ins, {i: 2 for i in outs + ins},
            nets.random_table(rng, outs, ins, {i: 2 for i in outs + ins}))
        m = cpt([c], [])
        add('compose output taken', c, lambda m=m: st.compose_cgpm(m))
        m2 = cpt([970, c], [])
        add('compose output taken', (970, c), lambda m=m2:
            st.compose_cgpm(m))
        m3 = cpt([971], [971])
        add('compose cycle', 971, lambda m=m3: st.compose_cgpm(m))
        add('decompose unknown', 12, lambda: st.decompose_cgpm(12))
        rng.shuffle(out)
        return out


def run_state(ctx, h, n, kind_log=None):
    for _ in range(n):
        st = h.state
        faults = StateFaults(ctx.rng, st, h.specs).all()
        dig = lambda: Q.digest_state(st)
        before = dig()
        # one of each kind, in random order
        kinds = {}
        for f in faults:
            kinds.setdefault(f[0], f)
        todo = list(kinds.values())
        ctx.rng.shuffle(todo)
        for kind, what, f, must in todo[:14]:
            after = refuse(ctx, f, dig, kind, what, before, h.log, must)
            if ctx.violations:
                return
            before = after if after is not None else dig()
        h.step()
        mix.check_state(ctx, st if h.state is st else h.state, h.X,
                        'after refusals and ' + (h.log or ['nothing'])[-1],
                        'afterwards', log=h.log)
        if ctx.violations:
            return


@scenario(quick=40, thorough=480)
def state(ctx):
    large = ctx.index % 12 == 11
    st, X, specs = mix.large_state(ctx.rng, n_rows=24) if large else \
        mix.random_state(ctx.rng, n_rows=int(ctx.rng.randint(1, 8)))
    h = hist.StateHistory(ctx, st, X, specs)
    for _ in range(int(ctx.rng.randint(0, 2 if large else 5))):
        h.step()
    run_state(ctx, h, 3)


@scenario(quick=10, thorough=100)
def state_constrained(ctx):
    rng = ctx.rng
    outs = list(range(4))
    X, specs = mix.gen_table(rng, int(rng.randint(2, 7)), 4, None, .2, outs)
    kw = dict(Cd=[[3, 1]]) if ctx.index % 2 else dict(Ci=[(0, 1), (2, 3)])
    st = mix.make_state(rng, X, specs, **kw)
    h = hist.StateHistory(ctx, st, X, specs, ops=[
        ('transition', 3), ('incorporate', 3), ('unincorporate', 2),
        ('force_cell', 2)])
    run_state(ctx, h, 3)
    from cgpm.crosscat.state import State
    bad = [dict(Cd=[[0, 1]], Ci=[(0, 1)]), dict(Cd=[[0, 1], [1, 2]]),
           dict(Ci=[(0, 0)]), dict(Cd=[[0, 1]], Ci=[(1, 0)])]
    for kw in bad:
        ctx.raises(ValueError, lambda: mix.make_state(rng, X, specs, **kw),
                   'contradiction', 'constraints %r' % (kw,))
    ctx.raises(Exception, lambda: mix.make_state(
        rng, X, specs, Zv={c: 0 for c in X}, Ci=[(0, 1)]),
        'contradiction', 'a partition against its constraints')


@scenario(quick=10, thorough=100)
def state_composite(ctx):
    rng = ctx.rng
    st, X, specs = mix.random_state(
        rng, n_rows=int(rng.randint(3, 8)), n_cols=4,
        types=['bernoulli', 'categorical', 'normal'], missing=.15)
    foreign = Q.hook_models(rng, st, X, specs, 2)
    h = hist.StateHistory(ctx, st, X, specs, ops=[
        ('transition', 3), ('incorporate', 3), ('unincorporate', 2),
        ('force_cell', 2)])
    dig = lambda: Q.digest_state(st)
    f0 = sorted(foreign)[0]
    m = nets.Cpt([f0], [], {f0: 2}, nets.random_table(rng, [f0], [], {f0: 2}))
    refuse(ctx, lambda: st.compose_cgpm(m), dig, 'compose output taken',
           'output %r of another composed model' % f0)
    run_state(ctx, h, 2)
    tok = sorted(st.hooked_cgpms)
    st.decompose_cgpm(tok[-1])
    refuse(ctx, lambda: st.decompose_cgpm(tok[-1]), dig, 'decompose twice',
           'token %r' % tok[-1])


@scenario(quick=16, thorough=160)
def state_conditional(ctx):
    """A column is a regression on the others of its view."""
    rng = ctx.rng
    n = int(rng.randint(3, 8))
    X, specs = mix.gen_table(rng, n, 4, ['normal', 'categorical', 'normal'],
                             .15)
    st = mix.make_state(rng, X, specs, Zv={
        c: int(i > 2) for i, c in enumerate(X)})
    cols = [c for c in list(X)[:3] if specs[c]['cctype'] == 'normal']
    if not cols:
        raise Inconclusive('no numeric column')
    c = cols[rng.randint(len(cols))]
    st.update_cctype(c, 'linear_regression')
    dig = lambda: Q.digest_state(st)
    o = [x for x in X if x != c][rng.randint(3)]
    xs = [float(x) for x in rng.normal(size=n)]
    refuse(ctx, lambda: st.incorporate_dim(list(xs), [77], cctype='normal'),
           dig, 'new column without a view', 'regression column %r' % c)
    refuse(ctx, lambda: st.transition(N=1, kernels=['columns'],
                                      progress=False),
           dig, 'column moves', 'regression column %r' % c)
    for t in ('linear_regression', 'random_forest'):
        last = list(X)[3]
        if t == 'random_forest' and specs[last]['cctype'] == 'normal':
            continue
        refuse(ctx, lambda: st.update_cctype(
            last, t, distargs={'k': 2} if t == 'random_forest' else None),
            dig, 'regression without inputs', '%s of %r' % (t, last))
    refuse(ctx, lambda: st.update_cctype(o, 'no_such_type'), dig,
           'unknown type', repr(o))
    h = hist.StateHistory(ctx, st, X, specs, ops=[
        ('incorporate', 3), ('unincorporate', 2), ('force_cell', 2)])
    for _ in range(3):
        h.step()
        st = h.state
        refuse(ctx, lambda: st.incorporate_dim(
            list(xs), [77], cctype='normal'), dig,
            'new column without a view', 'regression column %r' % c)
        mix.check_state(ctx, st, h.X, 'after ' + (h.log or ['nothing'])[-1],
                        'afterwards', log=h.log)


# ------------------------------------------------------------------- views ---

@scenario(quick=30, thorough=360)
def view(ctx):
    rng = ctx.rng
    v, X, specs = mix.random_view(rng)
    h = hist.ViewHistory(ctx, v, X, specs)
    for _ in range(4):
        for _ in range(int(rng.randint(0, 3))):
            h.step()
        z = v.outputs[0]
        cols = sorted(v.dims)
        rows = h.rows()
        new = h.n_all()
        dig = lambda: Q.digest_view(v)
        bad = None
        cs = list(cols)
        rng.shuffle(cs)
        for c in cs:
            w = wrong(rng, h.specs[c]['cctype'], h.specs[c]['distargs'])
            if w is not None:
                bad = (c, w)
                break
        full = lambda: {c: h.value(c) for c in cols}
        todo = []
        r = rows[rng.randint(len(rows))]
        todo.append(('incorporate again', lambda: v.incorporate(
            r, {c: h.X[c][r] for c in cols})))
        todo.append(('incorporate again', lambda: v.incorporate(
            r, dict({c: h.X[c][r] for c in cols}, **{}) | {
                z: max(v.Nk()) + 1})))
        if bad:
            for k in (None, sorted(v.Nk())[0], max(v.Nk()) + 1):
                o = full()
                o[bad[0]] = bad[1]
                if k is not None:
                    o[z] = k
                todo.append(('incorporate outside domain', lambda o=o:
                             v.incorporate(new + 3, dict(o))))
            holes = [q for q in rows if mix.isnan(h.X[bad[0]][q])]
            if holes:
                q = holes[rng.randint(len(holes))]
                todo.append(('force_cell outside domain', lambda: v.force_cell(
                    q, {bad[0]: bad[1]})))
        if len(cols) > 1:
            o = full()
            del o[cols[0]]
            todo.append(('incorporate without a column', lambda o=o:
                         v.incorporate(new + 3, dict(o))))
        todo.append(('unincorporate unknown', lambda: v.unincorporate(
            new + 5)))
        if h.out:
            todo.append(('unincorporate removed', lambda: v.unincorporate(
                sorted(h.out)[0])))
        todo.append(('force_cell row', lambda: v.force_cell(
            new + 5, {cols[0]: h.value(cols[0])})))
        todo.append(('force_cell column', lambda: v.force_cell(
            r, {992: 1.})))
        todo.append(('update_cctype', lambda: v.update_cctype(
            cols[0], 'bogus')))
        for t, da in (('bernoulli', None), ('categorical', {'k': 2}),
                      ('poisson', None), ('exponential', None),
                      ('lognormal', None)):
            for c in cols:
                ys = [h.X[c][q] for q in rows if not mix.isnan(h.X[c][q])]
                if any(not prims.support(t, x, da) for x in ys):
                    todo.append(('update_cctype outside domain', lambda c=c,
                                 t=t, da=da: v.update_cctype(c, t, da)))
        if len(cols) == 1:
            todo.append(('update_cctype no inputs', lambda: v.update_cctype(
                cols[0], 'linear_regression')))
        rng.shuffle(todo)
        before = dig()
        for kind, f in todo[:9]:
            after = refuse(ctx, f, dig, 'view ' + kind, 'view ' + kind,
                           before, h.log)
            if ctx.violations:
                return
            before = after if after is not None else dig()
        h.step()
        mix.check_view(ctx, v, h.X, 'after refusals', 'afterwards',
                       log=h.log)


# ------------------------------------------------------------- primitives ---

@scenario(quick=26, thorough=260)
def primitive(ctx):
    rng = ctx.rng
    name = prims.ALL[ctx.index % len(prims.ALL)]
    for _ in range(4):
        da = prims.gen_distargs(name, rng)
        m = prims.make(name, rng.randint(2**31 - 1),
                       prims.gen_hypers(name, rng), da,
                       prims.gen_params(name, da, rng), output=3)
        data = {}
        for r, x in enumerate(prims.gen_data(
                name, rng, int(rng.randint(1, 9)), da)):
            m.incorporate(int(r), {3: float(x)})
            data[int(r)] = x
        good = lambda: float(prims.gen_value(name, rng, da))
        outs = prims.outside(name, da)
        dig = lambda: Q.digest_prim(name, m, da)
        rows = sorted(data)
        todo = [
            ('incorporate again', lambda: m.incorporate(
                rows[rng.randint(len(rows))], {3: good()})),
            ('unincorporate unknown', lambda: m.unincorporate(55)),
            ('incorporate other column', lambda: m.incorporate(
                60, {4: good()}))]
        for w in outs:
            todo.append(('incorporate outside domain', lambda w=w:
                         m.incorporate(61, {3: w})))
        rng.shuffle(todo)
        for kind, f in todo:
            refuse(ctx, f, dig, '%s %s' % (name, kind), kind)
        m.unincorporate(rows[0])
        m.incorporate(rows[0], {3: float(data[rows[0]])})
        gone = rows[-1]
        m.unincorporate(gone)
        refuse(ctx, lambda: m.unincorporate(gone), dig,
               '%s unincorporate twice' % name, 'row %r' % gone)


# ------------------------------------------------------ models with data ---

@scenario(quick=36, thorough=360)
def model(ctx):
    name = sorted(models.ALL)[ctx.index % len(models.ALL)]
    rng = ctx.rng
    ad = models.ALL[name](rng)
    m = ad.build(int(rng.randint(1000)))
    rows = {}
    for r in range(int(rng.randint(8, 14))):
        rows[r] = ad.fresh_row()
        ad.record(m, r, rows[r])
    fit = ad.usable(rows)
    if fit:
        m.transition(N=1)
    qs = ad.queries(rows, 3) if fit else []
    for q in qs:
        try:
            ad.ask(m, q)
        except Exception:
            pass
    dig = lambda: Q.digest_model(m, ad, qs, rows)
    before = dig()
    obs, inputs = ad.fresh_row()
    rec = lambda r, o, i: m.incorporate(r, dict(o), dict(i)) \
        if ad.conditional else m.incorporate(r, dict(o))
    nan = float('nan')
    some = sorted(obs)[rng.randint(len(obs))]
    todo = [
        ('incorporate again', lambda: rec(3, obs, inputs)),
        ('unincorporate unknown', lambda: m.unincorporate(77)),
        ('incorporate unknown output', lambda: rec(
            40, {o: x for o, x in obs.items()} | {990: 1.}, inputs)),
        ('incorporate nothing', lambda: rec(41, {}, inputs)),
        ('incorporate only unknown', lambda: rec(42, {990: 1.}, inputs)),
    ]
    if not ad.missing:
        todo.append(('incorporate nan', lambda: rec(
            43, dict(obs, **{}) | {some: nan}, inputs)))
    if ad.conditional:
        i = sorted(inputs)[rng.randint(len(inputs))]
        todo += [
            ('incorporate without an input', lambda: rec(
                44, obs, {k: x for k, x in inputs.items() if k != i})),
            ('incorporate nan input', lambda: rec(
                45, obs, dict(inputs, **{}) | {i: nan})),
        ]
        k = ad.kinds[ad.inputs.index(i)]
        if k and name != 'forest':      # (a forest takes numbers)
            # (linear regression documents k itself as a wildcard)
            todo.append(('incorporate input outside domain', lambda: rec(
                47, obs, dict(inputs, **{}) | {i: k + 1})))
        if name == 'forest':
            kk = ad.k if hasattr(ad, 'k') else 99
            todo.append(('incorporate output outside domain', lambda: rec(
                48, {some: 99}, inputs)))
    rng.shuffle(todo)
    for kind, f in todo:
        after = refuse(ctx, f, dig, '%s %s' % (name, kind), '%s %s %r %r' % (
            name, kind, obs, inputs), before,
            must=kind in ('incorporate again', 'unincorporate unknown',
                          'incorporate without an input',
                          'incorporate input outside domain'))
        if ctx.violations:
            return
        if after is None:           # accepted: not this property's business
            return
        before = after
    ad.record(m, 50, (obs, inputs))
    m.unincorporate(50)
    d = mix.diff(before, dig())
    ctx.true(d is None, 'afterwards:' + name,
             '%s: recorded and removed a row after refusals: %s' % (name, d))


# ------------------------------------------------------------------ engine ---

@scenario(quick=12, thorough=120)
def engine(ctx):
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    n = int(rng.randint(3, 7))
    X, specs = mix.gen_table(rng, n, 3, missing=.15)
    e = Engine(np.asarray([X[c] for c in X], dtype=float).T,
               num_states=3, outputs=list(X),
               cctypes=[specs[c]['cctype'] for c in X],
               distargs=[specs[c]['distargs'] for c in X],
               rng=ctx.newrng(), multiprocess=0)
    e.transition(N=1, progress=False, multiprocess=0)
    dig = lambda: Q.digest_engine(e)
    before = dig()
    val = lambda c: mix.gen_new_value(rng, specs[c])
    mp = lambda: dict(multiprocess=int(rng.rand() < .4))
    cols = list(X)
    seen = [(r, c) for c in cols for r in range(n)
            if not mix.isnan(X[c][r])]
    r0, c0 = seen[rng.randint(len(seen))]
    bad = None
    for c in cols:
        w = wrong(rng, specs[c]['cctype'], specs[c]['distargs'])
        if w is not None:
            bad = (c, w)
    todo = [
        ('incorporate row', lambda: e.incorporate(
            0, {cols[0]: val(cols[0])}, **mp())),
        ('incorporate unknown column', lambda: e.incorporate(
            n, {991: 1.}, **mp())),
        ('unincorporate', lambda: e.unincorporate(0, **mp())),
        ('incorporate_dim', lambda: e.incorporate_dim(
            [0.] * (n + 1), [990], cctype='normal', **mp())),
        ('unincorporate_dim', lambda: e.unincorporate_dim(990, **mp())),
        ('force_cell', lambda: e.force_cell(r0, {c0: val(c0)}, **mp())),
        ('update_cctype', lambda: e.update_cctype(
            cols[0], 'bogus', **mp())),
        ('transition', lambda: e.transition(
            N=1, cols=[990], progress=False, **mp())),
        ('transition statenos', lambda: e.transition(
            N=1, statenos=[0, 7], progress=False, **mp())),
        ('add_state', lambda: e.add_state(count=1, X=1, **mp())),
        ('add_state', lambda: e.add_state(count=1, outputs=[0], **mp())),
        ('add_state', lambda: e.add_state(count=1, cctypes=[], **mp())),
        ('get_state', lambda: e.get_state(9)),
        ('drop_state', lambda: e.drop_state(9)),
        ('logpdf', lambda: e.logpdf(None, {cols[0]: val(cols[0])},
                                    {cols[0]: val(cols[0])}, **mp())),
        ('simulate', lambda: e.simulate(None, [990], **mp())),
    ]
    if bad:
        todo.append(('incorporate outside domain', lambda: e.incorporate(
            n, {bad[0]: bad[1]}, **mp())))
    rng.shuffle(todo)
    for kind, f in todo[:9]:
        after = refuse(ctx, f, dig, 'engine ' + kind, 'engine ' + kind,
                       before)
        if ctx.violations:
            return
        before = after if after is not None else dig()
    e.incorporate(n, {c: val(c) for c in cols}, multiprocess=0)
    e.transition(N=1, progress=False, multiprocess=1)
    for s in e.states:
        mix.check_state(ctx, s, s.X, 'after refusals', 'afterwards')
        ctx.true(s.n_rows() == n + 1, 'afterwards:rows', 'row lost')


@scenario(quick=8, thorough=40)
def engine_divided(ctx):
    """A request which one state grants and another refuses is refused as a
    whole."""
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    n = int(rng.randint(3, 7))
    X, specs = mix.gen_table(rng, n, 3, ['normal'], 0., outputs=[0, 1, 2])
    e = Engine(np.asarray([X[c] for c in X], dtype=float).T,
               num_states=2, outputs=list(X), cctypes=['normal'] * 3,
               rng=ctx.newrng(), multiprocess=0)
    alone = int(rng.randint(2))
    for s in (0, 1):
        Zv = {0: 0, 1: 1 if s == alone else 0, 2: 0}
        e.states[s] = mix.make_state(rng, X, specs, Zv=Zv)
    dig = lambda: Q.digest_engine(e)
    requests = {
        'update_cctype': lambda mp: e.update_cctype(
            1, 'linear_regression', multiprocess=mp),
        # view 1 exists in one state only
        'transition views': lambda mp: e.transition(
            N=1, kernels=['view_alphas'], views=[1], progress=False,
            multiprocess=mp),
    }
    for kind in sorted(requests):
        refuse(ctx, lambda: requests[kind](1), dig, 'engine divided ' + kind,
               'engine %s, refused by one state of two' % kind)
    # in this process, the states before the one which refuses have changed
    before = [Q.digest_state(s) for s in e.states]
    try:
        requests['update_cctype'](0)
        ctx.fail('accepted:engine divided', 'update_cctype was accepted')
    except Exception:
        pass
    changed = [s for s in (0, 1) if Q.digest_state(e.states[s]) != before[s]]
    if alone in changed:
        ctx.fail('changed:engine divided', 'the state which refused changed')
    elif changed and alone == 1:
        ctx.fail('engine:serial-half-done', 'update_cctype of column 1 to '
                 'linear_regression, granted by state 0 (all columns in one '
                 'view) and refused by state 1 (column 1 alone), with '
                 'multiprocess=0, leaves state 0 changed')
    else:
        ctx.true(not changed, 'changed:engine divided', 'states %r changed '
                 'though state %d refused before' % (changed, alone))
    ctx.case(dict(alone=alone, X=X))
