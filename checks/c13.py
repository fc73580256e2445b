"""C13: serialisation round trips preserve the model's behaviour."""
import importlib
import io
import json
import os
import pickle
import tempfile

import numpy as np

import hist
import mix
import models
import nets
import prims
import queries as Q
from vlib import scenario

RULE = ('a case is one model, reached by a random history, rebuilt from its '
        'metadata by one route (directly, through JSON, from a pickled file) '
        'and compared with the original on everything observable: data, '
        'partitions, parameters, constraints, statistics, scores, answers, '
        'diagnostics and metadata; then both are changed independently; '
        'distinct by content and route')

TECHNIQUE = ('differential monitor: digests of the live original and of each '
             'rebuilt copy, before and after further operations on either')


def default(o):
    if isinstance(o, bytes):
        return o.decode('ascii')
    return hist._np(o)


def rebuild(ctx, model, how, seed=3):
    """(metadata given to the builder, rebuilt model)"""
    rng = np.random.RandomState(seed)
    if how == 'pickle' and hasattr(model, 'to_pickle'):
        fd, path = tempfile.mkstemp(prefix='c13-')
        os.close(fd)
        try:
            with open(path, 'wb') as f:
                model.to_pickle(f)
            with open(path, 'rb') as f:
                return None, type(model).from_pickle(f, rng=rng)
        finally:
            os.unlink(path)
    meta = model.to_metadata()
    if how == 'pickle':
        meta = pickle.loads(pickle.dumps(meta))
    elif how == 'json':
        meta = json.loads(json.dumps(meta, default=default))
    builder = getattr(importlib.import_module(meta['factory'][0]),
                      meta['factory'][1])
    before = Q.norm(meta)
    kw = {}
    if meta['factory'][1] == 'Engine':
        kw['multiprocess'] = int(ctx.index % 2)
    new = builder.from_metadata(meta, rng=rng, **kw)
    d = mix.diff(before, Q.norm(meta))
    ctx.true(d is None, 'metadata-modified:' + meta['factory'][1],
             'rebuilding changed the metadata it was given at %s' % d)
    return meta, new


def plain(d):
    """Grids are derived from the data when a model is made, and are refreshed
    on request; the form of constraints is their content."""
    if isinstance(d, list):
        return [plain(x) for x in d]
    if not isinstance(d, dict):
        return d
    return {k: ([sorted(str(sorted(b)) for b in eval(v))]
                if k in ('Cd', 'Ci') and isinstance(v, str) else plain(v))
            for k, v in d.items() if k != 'grids'}


def digest_state(st):
    return plain(Q.digest_state(st))


def digest_view(v):
    return plain(Q.digest_view(v))


def digest_engine(e):
    return plain(Q.digest_engine(e))


def compare(ctx, a, b, mech, what, **w):
    d = mix.diff(a, b)
    ctx.true(d is None, mech, '%s: original and copy differ at %s' % (
        what, d), **w)
    return d is None


# ------------------------------------------------------------------ states ---

def check_state(ctx, st, mutate, kind, log=None):
    """mutate(state) changes a state somehow."""
    digest = digest_state
    for how in ('direct', 'json', 'pickle'):
        before = digest(st)
        frozen_meta = st.to_metadata()
        frozen = Q.norm(frozen_meta)
        diag = Q.norm(st.diagnostics)
        meta, new = rebuild(ctx, st, how)
        if not compare(ctx, before, digest(new), 'differs:' + kind,
                       '%s, %s' % (kind, how), log=log):
            return
        compare(ctx, diag, Q.norm(new.diagnostics), 'diagnostics:' + kind,
                '%s, %s, diagnostics' % (kind, how))
        compare(ctx, Q.norm_meta(st.to_metadata()),
                Q.norm_meta(new.to_metadata()), 'metadata:' + kind,
                '%s, %s, metadata' % (kind, how))
        ctx.true(list(new.outputs) == list(st.outputs), 'outputs:' + kind,
                 'columns %r, were %r' % (new.outputs, st.outputs))
        # the copy can be operated on, without touching the original
        mutate(new)
        if not compare(ctx, before, digest(st), 'shared:' + kind,
                       '%s, %s: changing the copy changed the original' % (
                           kind, how), log=log):
            return
        # ... and the original without touching metadata or copy
        after = digest(new)
        meta0 = Q.norm(meta) if meta is not None else None
        mutate(st)
        d = mix.diff(frozen, Q.norm(frozen_meta))
        ctx.true(d is None, 'stale-metadata:' + kind,
                 '%s: metadata taken earlier changed with the model at %s' % (
                     kind, d), log=log)
        if meta is not None:
            compare(ctx, meta0, Q.norm(meta), 'stale-metadata:' + kind,
                    '%s: metadata changed with the original' % kind)
        compare(ctx, after, digest(new), 'shared:' + kind,
                '%s, %s: changing the original changed the copy' % (
                    kind, how), log=log)
        ctx.case('%s %s %s' % (kind, how, repr(before)[:4000]),
                 st.n_cols() > 1)
        if ctx.violations:
            return


@scenario(quick=30, thorough=320)
def state_history(ctx):
    """copies of a state in mid history, and of copies of copies"""
    large = ctx.index % 8 == 7
    st, X, specs = (mix.large_state if large else mix.random_state)(ctx.rng)
    h = hist.StateHistory(ctx, st, X, specs)
    h.ops = [(o, w) for o, w in h.ops if o != 'reload']
    for _ in range(int(ctx.rng.randint(0, 2 if large else 8))):
        h.step()
    if not h.no_empty_column():
        return
    if ctx.rng.rand() < .6 and not large:
        h.state.transition(N=3, progress=False, checkpoint=int(
            ctx.rng.randint(1, 3)))

    def mutate(s):
        k = hist.StateHistory(ctx, s, h.X, {
            c: mix.dim_spec(s.dim_for(c)) for c in s.outputs})
        k.X = {c: list(s.X[c]) for c in s.X}
        k.ops = [(o, w) for o, w in h.ops if o != 'unincorporate_dim']
        for _ in range(3):
            k.step()
        mix.check_state(ctx, k.state, k.X, 'after operations on a copy',
                        log=k.log)
        if not k.no_empty_column():
            fill(s)

    def fill(s):
        for c in s.X:
            if all(mix.isnan(x) for x in s.X[c]):
                s.force_cell(0, {c: mix.gen_new_value(
                    ctx.rng, mix.dim_spec(s.dim_for(c)))})
    check_state(ctx, h.state, mutate, 'state', h.log)


@scenario(quick=10, thorough=100)
def state_constrained(ctx):
    rng = ctx.rng
    X, specs = mix.gen_table(rng, int(rng.randint(2, 8)), 5, None, .2)
    cd = ctx.index % 2
    kw = dict(Cd=[[4, 1], [2, 3]]) if cd else dict(
        Ci=[(0, 1), (3, 1), (2, 4)])
    st = mix.make_state(rng, X, specs, **kw)
    kernels = ['rows', 'column_params', 'column_hypers', 'alpha',
               'view_alphas'] + (['columns'] if not cd else [])

    def mutate(s):
        s.transition(N=1, kernels=kernels, progress=False)
        if rng.rand() < .4 and len(s.outputs) > 3:
            s.unincorporate_dim(s.outputs[rng.randint(len(s.outputs))])
        con = {tuple(sorted(b)) for b in s.Cd} if cd else \
            {tuple(sorted(p)) for p in s.Ci}
        Zv = s.Zv()
        for b in con:
            ctx.true(len({Zv[c] for c in b}) == (1 if cd else len(b)),
                     'constraint-lost', 'constraint %r, partition %r' % (
                         b, Zv))
    mutate(st)
    check_state(ctx, st, mutate, 'constrained')


@scenario(quick=14, thorough=140)
def state_composite(ctx):
    rng = ctx.rng
    st, X, specs = mix.random_state(
        rng, n_rows=int(rng.randint(3, 8)), n_cols=4,
        types=['bernoulli', 'categorical', 'normal'], missing=.1)
    foreign = Q.hook_models(rng, st, X, specs, real=rng.rand() < .5)
    # tokens need not be consecutive: some models leave again, early or late
    if rng.rand() < .7 and len(st.hooked_cgpms) > 1:
        tok = sorted(st.hooked_cgpms)[-1 if rng.rand() < .4 else 0]
        used = {i for c in st.hooked_cgpms.values() for i in c.inputs}
        if not used & set(st.hooked_cgpms[tok].outputs):
            for o in st.hooked_cgpms[tok].outputs:
                foreign.pop(o, None)
            st.decompose_cgpm(tok)
    disc = sorted(c for c in foreign if foreign[c])
    cols = sorted(c for c in X if specs[c]['cctype'] in mix.DISCRETE_FINITE)

    def probe(s):
        out = []
        r = np.random.RandomState(2)
        for f in disc:
            # with every input given, importance sampling is exact
            i = {c for t, m in s.hooked_cgpms.items() for c in m.inputs
                 if f in m.outputs}
            m = [m for m in s.hooked_cgpms.values() if f in m.outputs][0]
            e = {c: (int(r.randint(foreign[c])) if foreign.get(c) else
                     mix.gen_new_value(r, specs[c])) for c in sorted(i)}
            out.append(float(m.logpdf(None, {f: 0}, None, e)))
        return out + sorted(s.hooked_cgpms)

    card = {c: int((specs[c]['distargs'] or {}).get('k', 2))
            for c in cols[:1]}
    card[91] = 2

    if rng.rand() < .5 and st.hooked_cgpms:
        old, wider = set(st.hooked_cgpms), dict(card)
        wider[93] = 2
        gone = st.compose_cgpm(nets.Cpt(
            [92], [], {92: 2}, nets.random_table(rng, [92], [], {92: 2})))
        kept = st.compose_cgpm(nets.Cpt(
            [93], cols[:1], wider, nets.random_table(
                rng, [93], cols[:1], wider)))
        st.decompose_cgpm(gone)
        ctx.true(set(old) | {kept} == set(st.hooked_cgpms), 'token-lost',
                 'models %r after composing %r' % (
                     set(st.hooked_cgpms), kept))

    def mutate(s):
        a = s.compose_cgpm(nets.Cpt(
            [91], cols[:1], card, nets.random_table(
                rng, [91], cols[:1], card)))
        ctx.true(a not in old, 'token-reused', 'composing a model in a copy '
                 'gave it token %r, already taken: %r' % (a, old))
        s.transition(N=1, progress=False)
        s.simulate(None, (disc + list(X))[:2], N=2)
        s.decompose_cgpm(a)

    if not st.hooked_cgpms:
        return
    old = set(st.hooked_cgpms)
    for how in ('direct', 'json', 'pickle'):
        _, new = rebuild(ctx, st, how)
        compare(ctx, probe(st), probe(new), 'foreign-answers',
                'composed models, ' + how)
        ctx.true(new.is_composite(), 'not-composite',
                 'the copy of a composite is not composite')
    check_state(ctx, st, mutate, 'composite')


@scenario(quick=8, thorough=80)
def state_conditional(ctx):
    """a column that is a regression on the others of its view"""
    rng = ctx.rng
    X, specs = mix.gen_table(rng, int(rng.randint(5, 10)), 4,
                             ['normal', 'exponential', 'lognormal'], 0.)
    st = mix.make_state(rng, X, specs, Zv={c: (0 if c < 3 else 1)
                                           for c in X})
    cols = [0, 1, 2]
    rng.shuffle(cols)
    n_in = int(rng.randint(1, 3))
    st.update_cctype(cols[0], 'linear_regression', distargs=dict(
        inputs=cols[1:1 + n_in]) if rng.rand() < .5 else None)
    q = {c: mix.gen_new_value(rng, specs[c]) for c in cols}

    def probe(s):
        return [float(s.logpdf(None, {cols[0]: q[cols[0]]},
                               {c: q[c] for c in cols[1:]})),
                float(s.logpdf(None, q)), float(s.logpdf_score())]

    def mutate(s):
        s.transition(N=1, kernels=['rows', 'alpha', 'view_alphas',
                                   'column_params', 'column_hypers'],
                     progress=False)
        s.incorporate(s.n_rows(), {c: mix.gen_new_value(rng, specs[c])
                                   for c in X})
    mutate(st)
    for how in ('direct', 'json', 'pickle'):
        _, new = rebuild(ctx, st, how)
        compare(ctx, probe(st), probe(new), 'conditional-answers',
                'state with a regression column, ' + how)
    check_state(ctx, st, mutate, 'conditional')


@scenario(quick=1, thorough=1)
def state_uncollapsed(ctx):
    """known finding: cluster parameters of uncollapsed columns are lost"""
    rng = np.random.RandomState(4)
    xs = [float(x) for x in rng.beta(2, 5, 8)]
    spec = {0: dict(cctype='beta', distargs=None, hypers=None)}
    st = mix.make_state(rng, {0: xs}, spec, Zv={0: 0},
                        Zrv={0: [0] * 4 + [1] * 4})
    st.transition(N=2, kernels=['column_params'], progress=False)
    _, new = rebuild(ctx, st, 'direct')
    a, b = st.logpdf_score(), new.logpdf_score()
    ctx.case('uncollapsed beta column %r' % xs)
    ctx.close(b, a, 'state:uncollapsed-parameters',
              'score of a rebuilt state with a beta column')


# ------------------------------------------------------------------- views ---

@scenario(quick=20, thorough=200)
def view(ctx):
    v, X, specs = mix.random_view(ctx.rng)
    h = hist.ViewHistory(ctx, v, X, specs)
    for _ in range(int(ctx.rng.randint(0, 8))):
        h.step()
    while h.out and ctx.index % 2:                  # all rows recorded
        r = sorted(h.out)[0]
        h.view.incorporate(r, {c: h.X[c][r] for c in h.X})
        h.out.discard(r)
    for c in h.X:
        if all(mix.isnan(x) for x in h.X[c]):
            return
    for how in ('direct', 'pickle'):
        before = digest_view(v)
        frozen_meta = v.to_metadata()
        frozen = Q.norm(frozen_meta)
        _, new = rebuild(ctx, v, how)
        if not compare(ctx, before, digest_view(new), 'differs:view',
                       'view, ' + how, log=h.log):
            return

        def change(w):
            k = hist.ViewHistory(ctx, w, {c: list(w.X[c]) for c in h.X},
                                 h.specs)
            k.ops = [(o, x) for o, x in k.ops if o not in (
                'dim_drop', 'dim_new', 'update_cctype')]
            for _ in range(3):
                k.step()
            while k.out:
                r = sorted(k.out)[0]
                w.incorporate(r, {c: k.X[c][r] for c in k.X})
                k.out.discard(r)
            for c in k.X:
                h.X[c] = list(k.X[c])
        change(new)
        compare(ctx, before, digest_view(v), 'shared:view',
                'view, %s: changing the copy changed the original' % how)
        after = digest_view(new)
        change(v)
        compare(ctx, after, digest_view(new), 'shared:view',
                'view, %s: changing the original changed the copy' % how)
        compare(ctx, frozen, Q.norm(frozen_meta), 'stale-metadata:view',
                'view: metadata changed with the model')
        ctx.case('view %s %r' % (how, repr(before)[:3000]))
        if ctx.violations:
            return


# ----------------------------------------------------------------- engines ---

@scenario(quick=12, thorough=120)
def engine(ctx):
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    n_rows = int(rng.randint(3, 8))
    X, specs = mix.gen_table(rng, n_rows, 4, missing=.15,
                             outputs=[5, 2, 9, 0])
    e = Engine(np.asarray([X[c] for c in X], dtype=float).T,
               num_states=3, outputs=list(X),
               cctypes=[specs[c]['cctype'] for c in X],
               distargs=[specs[c]['distargs'] for c in X],
               rng=ctx.newrng(), multiprocess=0)
    e.transition(N=2, progress=False, multiprocess=0, checkpoint=1)
    if rng.rand() < .6:
        e.incorporate(n_rows, {c: mix.gen_new_value(rng, specs[c])
                               for c in list(X)[:2]}, multiprocess=0)
    if rng.rand() < .4:
        e.unincorporate_dim(9, multiprocess=0)
    if rng.rand() < .4:
        e.drop_state(1)
    for how in ('direct', 'json', 'pickle'):
        before = digest_engine(e)
        diag = [Q.norm(s.diagnostics) for s in e.states]
        _, new = rebuild(ctx, e, how)
        if not compare(ctx, before, digest_engine(new), 'differs:engine',
                       'engine, ' + how):
            return
        compare(ctx, diag, [Q.norm(s.diagnostics) for s in new.states],
                'diagnostics:engine', 'engine, %s, diagnostics' % how)
        new.transition(N=1, progress=False, multiprocess=0)
        new.incorporate(new.states[0].n_rows(), {0: mix.gen_new_value(
            rng, specs[0])}, multiprocess=0)
        compare(ctx, before, digest_engine(e), 'shared:engine',
                'engine, %s: changing the copy changed the original' % how)
        for s in new.states:
            mix.check_state(ctx, s, s.X, 'in a rebuilt engine')
        seeds = {tuple(s.rng.get_state()[1][:4]) for s in new.states}
        ctx.true(len(seeds) == len(new.states), 'engine:same-streams',
                 'rebuilt states share a random stream')
        ctx.case('engine %s %r' % (how, repr(before)[:4000]))
    # through a file given by name
    d = tempfile.mkdtemp(prefix='c13-')
    try:
        p = os.path.join(d, 'e.pkl')
        with open(p, 'wb') as f:
            e.to_pickle(f)
        with open(p, 'rb') as f:
            new = Engine.from_pickle(f, rng=np.random.RandomState(1))
        compare(ctx, digest_engine(e), digest_engine(new),
                'differs:engine', 'engine, file')
        # a file or its name
        new = Engine.from_pickle(p, rng=np.random.RandomState(1))
        compare(ctx, digest_engine(e), digest_engine(new),
                'differs:engine', 'engine, file name')
        st = e.states[0]
        q = os.path.join(d, 's.pkl')
        with open(q, 'wb') as f:
            st.to_pickle(f)
        new = type(st).from_pickle(q, rng=np.random.RandomState(1))
        compare(ctx, digest_state(st), digest_state(new), 'differs:state',
                'state, file name')
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


# -------------------------------------------------- models with their data ---

def answers(m, ad, qs, rows):
    out = dict(answers=[])
    for q in qs:
        for rowid in (None, 2):
            try:
                out['answers'].append(float(ad.ask(m, q, rowid)))
            except Exception as e:
                out['answers'].append(type(e).__name__)
    if ad.has_score:
        try:
            out['score'] = float(m.logpdf_score())
        except Exception as e:
            out['score'] = type(e).__name__
    out['io'] = [Q.norm(m.outputs), Q.norm(m.inputs)]
    out['N'] = getattr(m, 'N', None)
    return out


def strip(meta):
    if isinstance(meta, dict):
        return {k: strip(v) for k, v in meta.items() if 'binary' not in k}
    return meta


@scenario(quick=36, thorough=360)
def model(ctx):
    name = sorted(models.ALL)[ctx.index % len(models.ALL)]
    rng = ctx.rng
    ad = models.ALL[name](rng)
    m = ad.build(int(rng.randint(1000)))
    rows = {}
    ids = [int(r) for r in rng.permutation(40)]
    for r in ids[:int(rng.randint(8, 14))]:
        rows[r] = ad.fresh_row()
        ad.record(m, r, rows[r])
    gone = sorted(rows)[int(rng.randint(len(rows)))]
    m.unincorporate(gone)
    del rows[gone]
    if not ad.usable(rows):
        return
    if rng.rand() < .8:
        m.transition(N=2)
    qs = ad.queries(rows, 4)
    for q in qs:                 # lazily fitted models settle
        try:
            ad.ask(m, q)
        except Exception:
            pass
    before = answers(m, ad, qs, rows)
    for how in ('direct', 'json', 'pickle'):
        frozen_meta = m.to_metadata()
        frozen = Q.norm(frozen_meta)
        _, new = rebuild(ctx, m, how)
        if not compare(ctx, before, answers(new, ad, qs, rows),
                       'differs:' + name, '%s, %s' % (name, how),
                       rows=rows, desc=ad.desc()):
            return
        compare(ctx, strip(Q.norm_meta(m.to_metadata())),
                strip(Q.norm_meta(new.to_metadata())), 'metadata:' + name,
                '%s, %s, metadata' % (name, how))
        # the copy works on: forget and record rows, refit, serialise
        old = sorted(rows)[0]
        new.unincorporate(old)
        extra = ad.fresh_row()
        ad.record(new, 77, extra)
        rows2 = {r: rows[r] for r in rows if r != old}
        rows2[77] = extra
        ctx.raises(Exception, lambda: ad.record(new, 77, extra),
                   'recorded-twice:' + name, 'a recorded row recorded again '
                   'in a copy')
        d = mix.diff(before, answers(m, ad, qs, rows))
        ctx.true(d is None, 'shared:' + name,
                 '%s, %s: changing the copy changed the original at %s' % (
                     name, how, d))
        compare(ctx, frozen, Q.norm(frozen_meta), 'stale-metadata:' + name,
                '%s: metadata changed with a copy' % name)
        if ad.usable(rows2):
            ref_rows = rows2
            new.transition(N=1)
            for q in ad.queries(ref_rows, 2):
                a = float(ad.ask(new, q))
                if name in ('linreg', 'kde', 'knn', 'factor'):
                    b = ad.ref(new, ref_rows, q)
                    if b is not None:
                        ctx.close(a, b, 'copy-density:' + name,
                                  '%s rebuilt by %s, then changed' % (
                                      name, how), *models.close_tol(name))
        _, again = rebuild(ctx, new, how)
        compare(ctx, strip(Q.norm_meta(new.to_metadata())),
                strip(Q.norm_meta(again.to_metadata())),
                'metadata:' + name, '%s, copy of a copy' % name)
        # the original works on; earlier metadata keeps its content
        r = 60 + ['direct', 'json', 'pickle'].index(how)
        row = ad.fresh_row()
        ad.record(m, r, row)
        compare(ctx, frozen, Q.norm(frozen_meta), 'stale-metadata:' + name,
                '%s: metadata changed with the model' % name)
        m.unincorporate(r)
        ctx.case('%s %s %r %r' % (name, how, ad.desc(), sorted(
            rows.items())[:3]))
        if ctx.violations:
            return
        before = answers(m, ad, qs, rows)


# ------------------------------------------------------------ small models ---

@scenario(quick=4, thorough=20)
def dummies(ctx):
    """the worked example models"""
    from cgpm.dummy.barebones import BareBonesCGpm
    from cgpm.dummy.fourway import FourWay
    from cgpm.dummy.twoway import TwoWay
    from cgpm.dummy.piecewise import PieceWise
    rng = ctx.rng
    ids = [int(i) for i in rng.permutation(20)]
    g = ctx.newrng()
    zoo = [
        (BareBonesCGpm(ids[:1], ids[1:3], rng=g), []),
        (FourWay(ids[:1], ids[1:3], rng=g), [
            (None, {ids[0]: k}, None, {ids[1]: a, ids[2]: b})
            for k in range(4) for a in (-1., 1.) for b in (-2., .5)]),
        (TwoWay(ids[:1], ids[1:2], rng=g), [
            (None, {ids[0]: k}, None, {ids[1]: x})
            for k in range(2) for x in (0, 1, 2)]),
        (PieceWise(ids[:2], ids[2:3], sigma=1.7, flip=.3, rng=g), [
            (None, {ids[0]: .3, ids[1]: z}, None, {ids[2]: 1.2})
            for z in (0, 1)] + [
            (None, {ids[0]: .3}, None, {ids[2]: -.7})]),
    ]
    for m, qs in zoo:
        for how in ('direct', 'json', 'pickle'):
            _, new = rebuild(ctx, m, how)
            name = type(m).__name__
            meta = m.to_metadata()
            ctx.true(list(meta.get('outputs', m.outputs)) == list(m.outputs)
                     and list(meta.get('inputs', m.inputs))
                     == list(m.inputs), 'io:' + name,
                     '%s: metadata %r' % (name, meta))
            ctx.true(list(new.outputs) == list(m.outputs)
                     and list(new.inputs) == list(m.inputs),
                     'io:' + name, '%s: %r %r, were %r %r' % (
                         name, new.outputs, new.inputs, m.outputs, m.inputs))
            for q in qs:
                try:
                    a = m.logpdf(*q)
                except Exception as e:
                    continue
                ctx.close(new.logpdf(*q), a, 'differs:' + name,
                          '%s%r rebuilt by %s' % (name, q, how))
            ctx.case('%s %s %r' % (name, how, ids[:4]))
