"""C25: transitions do what was asked: kernels, targets and counts."""

import contextlib
import copy
import io
import time

import numpy as np

import hist
import mix
import models
import nets
import prims
import queries as Q
from mix import isnan
from vlib import Inconclusive, scenario

RULE = ('a case is one transition call (kernels, targets, sweeps, checkpoint) '
        'judged on which parts of the model it changed, step by step, and on '
        'the counts and diagnostics it left')

TECHNIQUE = ('recording dictionary in the diagnostics that snapshots the '
             'model at every kernel application; oracle of which parts each '
             'kernel may change; liveness monitors on weak data; counting '
             'generator (work proportional to the request)')

KERNELS = hist.KERNELS

ASSUMPTIONS = ['kernels are observed through the counts they keep in '
               'diagnostics["iterations"]']


# ------------------------------------------------------------------ anatomy ---

def blocks(z):
    out = {}
    for i, k in z.items():
        out.setdefault(k, set()).add(i)
    return frozenset(frozenset(b) for b in out.values())


def restrict(z, keep):
    return blocks({i: k for i, k in z.items() if i in keep})


def parts(st):
    """The model, apart."""
    p = dict(alpha=st.alpha(), Zv=dict(st.Zv()), view={}, hypers={},
             params={}, types={}, X={}, distargs={}, rest={})
    for v, view in st.views.items():
        p['view'][v] = (view.alpha(), dict(view.Zr()))
    for c in st.outputs:
        d = st.dim_for(c)
        p['hypers'][c] = Q.norm(d.hypers)
        p['types'][c] = d.cctype
        p['distargs'][c] = Q.norm(d.get_distargs())
        zr = st.view_for(c).Zr()
        bl = {}
        for r, k in zr.items():
            bl.setdefault(k, []).append(r)
        p['params'][c] = {
            tuple(sorted(rs)): Q.norm(d.clusters[k].get_params())
            for k, rs in bl.items() if k in d.clusters} \
            if not d.is_collapsed() and not d.is_conditional() else {}
    p['X'] = {c: [repr(float(x)) for x in st.X[c]] for c in st.X}
    p['rest'] = dict(Cd=repr(st.Cd), Ci=repr(st.Ci), outputs=list(
        st.outputs), composite=st.is_composite(), hooked={
            t: (Q.norm_meta(Q.norm(strip(c.to_metadata()))),
                getattr(c, 'transitions', 0))
            for t, c in st.hooked_cgpms.items()})
    return p


def strip(m):
    m = copy.deepcopy(m)
    Q.strip(m)
    return m


def unexpected(a, b, kernel, cols=None, views=None, rowids=None):
    """What changed between a and b although `kernel` has no business with it;
    None if all is well."""
    def differ(what, x, y):
        d = mix.diff(x, y, what, 1e-12)
        return d
    for what in ('types', 'distargs', 'X', 'rest'):
        d = differ(what, a[what], b[what])
        if d:
            return d
    allcols = list(a['Zv'])
    sel = list(allcols) if cols is None else list(cols)
    if kernel in ('view_alphas', 'rows'):
        if views is not None:
            vs = set(views)
        elif cols:
            vs = {a['Zv'][c] for c in cols}
        else:
            vs = set(a['view'])
    if kernel != 'alpha':
        d = differ('alpha', a['alpha'], b['alpha'])
        if d:
            return d
    for c in allcols:
        if kernel == 'column_hypers' and c in sel:
            continue
        d = differ('hypers of %s' % c, a['hypers'][c], b['hypers'][c])
        if d:
            return d
    if kernel != 'columns':
        if a['Zv'] != b['Zv']:
            return 'column partition: %r, then %r' % (a['Zv'], b['Zv'])
        if set(a['view']) != set(b['view']):
            return 'views: %r, then %r' % (set(a['view']), set(b['view']))
        for v in a['view']:
            al, zr = a['view'][v]
            bl, zs = b['view'][v]
            if not (kernel == 'view_alphas' and v in vs) and al != bl:
                return 'alpha of view %r: %r, then %r' % (v, al, bl)
            if kernel == 'rows' and v in vs:
                keep = set(zr) - (set(zr) if rowids is None
                                  else set(rowids))
                if set(zr) != set(zs):
                    return 'rows of view %r: %r, then %r' % (
                        v, set(zr), set(zs))
                if restrict(zr, keep) != restrict(zs, keep):
                    return 'rows not targeted of view %r: %r, then %r' % (
                        v, zr, zs)
            elif zr != zs:
                return 'row partition of view %r: %r, then %r' % (v, zr, zs)
        for c in allcols:
            if kernel == 'column_params' and c in sel:
                continue
            if kernel == 'rows' and a['Zv'][c] in vs:
                continue
            d = differ('parameters of %s' % c, pairs(a['params'][c]),
                       pairs(b['params'][c]))
            if d:
                return d
    else:
        keep = [c for c in allcols if c not in sel]
        if set(b['Zv']) != set(allcols):
            return 'columns %r, then %r' % (allcols, list(b['Zv']))
        if restrict(a['Zv'], keep) != restrict(b['Zv'], keep):
            return 'columns not targeted: %r, then %r' % (a['Zv'], b['Zv'])
        for c in keep:
            x, y = a['view'][a['Zv'][c]], b['view'][b['Zv'][c]]
            if x[0] != y[0]:
                return 'alpha of the view of %s: %r, then %r' % (
                    c, x[0], y[0])
            if blocks(x[1]) != blocks(y[1]):
                return 'rows of the view of %s: %r, then %r' % (
                    c, x[1], y[1])
            d = differ('parameters of %s' % c, pairs(a['params'][c]),
                       pairs(b['params'][c]))
            if d:
                return d
    return None


def pairs(d):
    return {str(k): v for k, v in d.items()}


class Recorder(dict):
    """diagnostics['iterations'] that tells of every kernel application."""

    def __init__(self, base, state):
        dict.__init__(self, base)
        self.state, self.events = state, []

    def __setitem__(self, k, n):
        self.events.append((k, n - self.get(k, 0), parts(self.state),
                            self.state.alpha(), dict(self.state.Zv())))
        dict.__setitem__(self, k, n)

    def __deepcopy__(self, memo):
        return dict(self)

    def __reduce__(self):
        return (dict, (dict(self),))


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# ------------------------------------------------------------------- states ---

def arrange(ctx, composed=False):
    rng = ctx.rng
    st, X, specs = mix.random_state(
        rng, n_rows=int(rng.randint(2, 8)), n_cols=int(rng.randint(1, 6)),
        types=mix.MIXED + ['beta', 'normal_trunc']
        if rng.rand() < .3 else None)
    kind = rng.randint(6)
    movable = True
    if kind == 0 and len(X) > 2:
        # columns held together
        outs = list(range(len(X)))
        X, specs = mix.gen_table(rng, st.n_rows(), len(X), missing=.1)
        st = mix.make_state(rng, X, specs, Cd=[outs[:2]])
        movable = False
    elif kind == 1 and len(X) > 1:
        X, specs = mix.gen_table(rng, st.n_rows(), len(X), missing=.1)
        st = mix.make_state(rng, X, specs, Ci=[(0, 1)])
    h = hist.StateHistory(ctx, st, X, specs)
    for _ in range(int(rng.randint(0, 5))):
        h.step()
    st = h.state
    if st.n_rows() < 2:
        raise Inconclusive('rows')
    if movable:
        movable = not st.Cd
    if composed or rng.rand() < .25:
        Q.hook_models(rng, st, h.X, h.specs, real=bool(rng.rand() < .5))
    if rng.rand() < .2:
        c = Q.conditional_column(rng, st, h.X, h.specs)
        if c is not None:
            movable = False
    return st, h, movable


@scenario(quick=160, thorough=1600)
def kernels_and_targets(ctx):
    rng = ctx.rng
    st, h, movable = arrange(ctx)
    cols_all = list(st.outputs)
    for _ in range(4):
        ks = [k for k in KERNELS if k != 'columns' or movable]
        kw = {}
        chosen = None
        if rng.rand() < .8 or not movable:
            chosen = [ks[i] for i in rng.permutation(len(ks))[
                :1 + rng.randint(len(ks))]]
            if rng.rand() < .15:
                chosen = chosen + chosen[:1]    # twice in a sweep
            kw['kernels'] = chosen
        run = chosen if chosen is not None else [
            'alpha', 'view_alphas', 'column_params', 'column_hypers',
            'rows', 'columns']
        N = int(rng.randint(1, 4))
        if rng.rand() < .85:
            kw['N'] = N
        else:
            N = 1
        cols = views = rowids = None
        if rng.rand() < .6:
            cols = [cols_all[i] for i in rng.permutation(len(cols_all))[
                :1 + rng.randint(len(cols_all))]]
            kw['cols'] = list(cols) if rng.rand() < .7 else tuple(cols)
        if rng.rand() < .6:
            n = st.n_rows()
            rowids = [int(r) for r in rng.permutation(n)[
                :rng.randint(0, n + 1)]]
            kw['rowids'] = list(rowids)
        if rng.rand() < .35 and 'columns' not in run:
            vs = list(st.views)
            views = [vs[i] for i in rng.permutation(len(vs))[
                :1 + rng.randint(len(vs))]]
            kw['views'] = list(views)
        base = dict(st.diagnostics['iterations'])
        rec = Recorder(base, st)
        st.diagnostics['iterations'] = rec
        start = parts(st)
        given = copy.deepcopy(kw)
        st.transition(progress=False, **kw)
        end = parts(st)
        desc = dict(kw=given, columns=cols_all, log=h.log[-3:])
        ctx.case(desc)
        ctx.count('sweeps', N)
        ctx.true(Q.norm(kw) == Q.norm(given), 'mutated',
                 'transition changed its arguments: %r' % kw, **desc)
        now = dict(st.diagnostics['iterations'])
        for k in set(now) | set(run):
            want = base.get(k, 0) + N * run.count(k)
            ctx.true(now.get(k, 0) == want, 'count:' + k,
                     'kernel %s counted %d, expected %d + %d' % (
                         k, now.get(k, 0), base.get(k, 0),
                         N * run.count(k)), **desc)
        # one kernel at a time, if every application was seen
        names = [e[0] for e in rec.events]
        target = dict(cols=cols, views=views, rowids=rowids)
        if len(names) == N * len(run):
            ctx.true(names == list(run) * N, 'order', 'kernels applied in '
                     'order %r, expected %r x%d' % (names, run, N), **desc)
            prev = start
            for k, n, p, _, _ in rec.events:
                ctx.count('kernel applications observed')
                bad = unexpected(prev, p, k, **target) if k in KERNELS \
                    else 'unknown kernel %s' % k
                ctx.true(bad is None, 'target:' + k, 'kernel %s changed %s'
                         % (k, bad), **desc)
                prev = p
            d = mix.diff({k: repr(v) for k, v in prev.items()},
                         {k: repr(v) for k, v in end.items()})
            ctx.true(d is None, 'after', 'changed after the last kernel: %s'
                     % d, **desc)
        else:
            ctx.count('calls judged as a whole')
        if len(set(run)) == 1:
            bad = unexpected(start, end, run[0], **target)
            ctx.true(bad is None, 'target:' + run[0], 'transition of %r '
                     'changed %s' % (run, bad), **desc)
        if not (set(run) & {'rows', 'columns'}):
            ctx.true(start['Zv'] == end['Zv'], 'target:partition',
                     'column partition moved by %r' % (run,), **desc)
        if set(run) <= {'rows', 'alpha'} and rowids == []:
            ctx.true(all(start['view'][v][1] == end['view'][v][1]
                         for v in start['view']), 'target:no-rows',
                     'no row was to move', **desc)
        if ctx.violations:
            return
        st.diagnostics['iterations'] = now
    if mix.conditional_free(st) and not st.is_composite():
        mix.check_state(ctx, st, h.X, 'after transitions', 'after',
                        log=h.log)


@scenario(quick=60, thorough=600)
def refused(ctx):
    """A kernel, column or row that does not exist is not transitioned."""
    rng = ctx.rng
    st, h, movable = arrange(ctx)
    start = parts(st)
    base = dict(st.diagnostics['iterations'])
    cols = list(st.outputs)
    foreign = [o for c in st.hooked_cgpms.values() for o in c.outputs]
    todo = [dict(cols=[991]), dict(cols=cols + [991]),
            dict(kernels=['bogus']), dict(kernels=['alpha', 'bogus'])]
    if foreign:
        todo.append(dict(cols=cols[:1] + foreign[:1]))
    for kw in todo:
        ctx.raises(Exception, lambda: st.transition(
            N=1, progress=False, **kw), 'refused', 'transition(%r)' % (kw,))
        d = mix.diff({k: repr(v) for k, v in start.items()},
                     {k: repr(v) for k, v in parts(st).items()})
        ctx.true(d is None and dict(st.diagnostics['iterations']) == base,
                 'refused:trace', 'after transition(%r): %s' % (kw, d))
        ctx.case(dict(refused=kw, cols=cols))
    ctx.raises(Exception, lambda: st.transition_foreign(
        N=1, cols=cols[:1], progress=False), 'refused:foreign',
        'foreign transition of a column of the state')
    d = mix.diff({k: repr(v) for k, v in start.items()},
                 {k: repr(v) for k, v in parts(st).items()})
    ctx.true(d is None, 'refused:trace', 'after transition_foreign: %s' % d)
    # no sweeps asked, no sweeps done
    st.transition(N=0, progress=False)
    d = mix.diff({k: repr(v) for k, v in start.items()},
                 {k: repr(v) for k, v in parts(st).items()})
    ctx.true(d is None and dict(st.diagnostics['iterations']) == base,
             'zero-sweeps', 'after transition(N=0): %s' % d)


# -------------------------------------------------------------- checkpoints ---

@scenario(quick=60, thorough=600)
def checkpoints(ctx):
    rng = ctx.rng
    st, h, movable = arrange(ctx)
    if st.Ci:
        score_ok = False            # (the constrained CRP has no score)
    else:
        score_ok = True
    ks = [k for k in KERNELS if k != 'columns' or movable]
    names = ['logscore', 'column_crp_alpha', 'column_partition']
    if not score_ok:
        with np.errstate(all='ignore'):
            try:
                st.logpdf_score()
            except Exception:
                raise Inconclusive('no score to record')
    for _ in range(3):
        run = [ks[i] for i in rng.permutation(len(ks))[
            :1 + rng.randint(len(ks))]]
        N = int(rng.randint(1, 9))
        cp = int(rng.choice([1, 2, 3, 5]))
        had = {k: copy.deepcopy(list(st.diagnostics[k])) for k in names}
        rec = Recorder(dict(st.diagnostics['iterations']), st)
        st.diagnostics['iterations'] = rec
        kw = dict(N=N, kernels=run, checkpoint=cp)
        st.transition(progress=False, **kw)
        ctx.case(dict(checkpoint=cp, N=N, kernels=run))
        new = {k: list(st.diagnostics[k])[len(had[k]):] for k in names}
        for k in names:
            ctx.true(Q.norm(list(st.diagnostics[k])[:len(had[k])]) ==
                     Q.norm(had[k]), 'checkpoint:history',
                     'earlier %s diagnostics changed' % k, **kw)
            ctx.true(len(new[k]) == N // cp, 'checkpoint:count',
                     '%d %s diagnostics from %d sweeps, one per %d' % (
                         len(new[k]), k, N, cp), **kw)
        if ctx.violations:
            return
        if len(rec.events) == N * len(run):
            at = [rec.events[(i + 1) * cp * len(run) - 1]
                  for i in range(N // cp)]
            for i, e in enumerate(at):
                ctx.count('checkpoints compared')
                ctx.true(float(new['column_crp_alpha'][i]) == e[3],
                         'checkpoint:alpha', 'alpha %r recorded, was %r' % (
                             new['column_crp_alpha'][i], e[3]), **kw)
                ctx.true({int(c): int(v) for c, v in
                          new['column_partition'][i]} == e[4],
                         'checkpoint:partition', '%r recorded, was %r' % (
                             new['column_partition'][i], e[4]), **kw)
        if N % cp == 0:
            ctx.close(new['logscore'][-1], st.logpdf_score(),
                      'checkpoint:score', 'score recorded at the end',
                      1e-9, 1e-9, **kw)
            ctx.true({int(c): int(v) for c, v in
                      new['column_partition'][-1]} == dict(st.Zv()),
                     'checkpoint:partition', 'partition at the end')
        st.diagnostics['iterations'] = dict(rec)
        # nothing recorded without a checkpoint
        had = {k: len(st.diagnostics[k]) for k in names}
        st.transition(N=2, kernels=run, progress=False)
        ctx.true({k: len(st.diagnostics[k]) for k in names} == had,
                 'checkpoint:uninvited', 'diagnostics without a checkpoint')


@scenario(quick=10, thorough=60, timeout=240)
def timed(ctx):
    """S seconds, or N sweeps, whichever ends first."""
    rng = ctx.rng
    st, h, movable = arrange(ctx)
    ks = [k for k in KERNELS if k != 'columns' or movable]
    run = [ks[i] for i in rng.permutation(len(ks))[:3]]
    names = ['logscore', 'column_crp_alpha', 'column_partition']

    def counts():
        it = st.diagnostics['iterations']
        return [it.get(k, 0) for k in run]
    # a transition that never ends is stopped, and judged
    class Late(Exception):
        pass

    class Clock(dict):
        def __setitem__(self, k, v):
            dict.__setitem__(self, k, v)
            if time.time() - t0 > 60:
                raise Late

    def within(**kw):
        try:
            st.transition(kernels=run, progress=False, **kw)
        except Late:
            ctx.true(False, 'timed:late', '%r was still running after 60s, '
                     'with %r sweeps' % (kw, counts()))
            raise Inconclusive('stopped')
    st.diagnostics['iterations'] = Clock(st.diagnostics['iterations'])
    a = counts()
    S = float(rng.uniform(.2, .6))
    t0 = time.time()
    within(S=S)
    wall = time.time() - t0
    b = [y - x for x, y in zip(a, counts())]
    ctx.case(dict(S=S, kernels=run, sweeps=b))
    # (bounds a loaded machine cannot break: time passes before S is up)
    ctx.true(wall >= S * .99, 'timed:early', 'stopped after %.3fs of %.3fs'
             % (wall, S))
    ctx.true(wall < S + 60, 'timed:late', '%.3fs of %.3fs' % (wall, S))
    ctx.true(b == sorted(b, reverse=True) and b[0] - b[-1] <= 1,
             'timed:sweeps', 'kernels %r applied %r times' % (run, b))
    if b[0] < 1:
        # (the machine may have stopped for that long)
        t0 = time.time()
        within(S=5.)
        ctx.true(counts()[0] > a[0], 'timed:none', 'no sweep in 5s')
    # no time, or no sweeps, and nothing is run, whatever the other bound
    for kw in (dict(N=5, S=0), dict(N=0, S=300.), dict(N=0, S=0)):
        a, t0 = counts(), time.time()
        within(**kw)
        ctx.true(counts() == a, 'timed:nothing', '%r, and the kernels %r were '
                 'applied %r times' % (kw, run, [
                     y - x for x, y in zip(a, counts())]))
    a = counts()
    t0 = time.time()
    within(N=2, S=300.)
    ctx.true([y - x for x, y in zip(a, counts())] == [2] * len(run) and
             time.time() - t0 < 200, 'timed:both',
             'N=2 within S=300: %r' % counts())
    a = counts()
    had = {k: len(st.diagnostics[k]) for k in names}
    if not st.Ci:
        t0 = time.time()
        within(N=10**7, S=.3, checkpoint=2)
        b = [y - x for x, y in zip(a, counts())]
        ctx.true(b[-1] < 10**7 and b[0] - b[-1] <= 1, 'timed:both', '%r' % b)
        new = {len(st.diagnostics[k]) - had[k] for k in names}
        ctx.true(new == {b[-1] // 2}, 'timed:checkpoints',
                 '%r checkpoints from %r sweeps, one per 2' % (new, b))
    # progress is printed when asked for, and not otherwise
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        st.transition(N=1, kernels=run, progress=False)
    ctx.true(out.getvalue() == '', 'timed:progress', 'printed %r' %
             out.getvalue())


# ------------------------------------------------------------------ foreign ---

@scenario(quick=60, thorough=600)
def foreign(ctx):
    """Composed models transition when, and only when, asked."""
    rng = ctx.rng
    st, X, specs = mix.random_state(
        rng, n_rows=int(rng.randint(3, 7)), n_cols=int(rng.randint(2, 5)),
        types=['bernoulli', 'categorical', 'normal'])
    n = int(rng.randint(1, 5))
    tokens = {}
    free = 60
    for _ in range(n):
        outs = list(range(free, free + 1 + rng.randint(3)))
        free += len(outs)
        m = nets.Cpt(outs, [], {o: 2 for o in outs}, nets.random_table(
            rng, outs, [], {o: 2 for o in outs}))
        outer = []

        def transition(m=m, outer=outer, **kw):
            m.transitions += 1
        m.transition = transition
        tokens[st.compose_cgpm(m)] = m
    if n > 1 and rng.rand() < .3:
        t = sorted(tokens)[rng.randint(n)]
        gone = tokens.pop(t)
        st.decompose_cgpm(t)
    else:
        gone = None
    start = parts(st)
    base = {t: m.transitions for t, m in tokens.items()}
    its = dict(st.diagnostics['iterations'])
    for _ in range(4):
        outs = [o for m in tokens.values() for o in m.outputs]
        cols = None
        if rng.rand() < .7:
            cols = [outs[i] for i in rng.permutation(len(outs))[
                :1 + rng.randint(len(outs))]]
        N = int(rng.randint(1, 5))
        kw = {} if cols is None else dict(cols=list(cols))
        if rng.rand() < .8:
            kw['N'] = N
        else:
            N = 1
        st.transition_foreign(progress=False, **kw)
        ctx.case(dict(foreign=cols, N=N, models={
            str(t): m.outputs for t, m in tokens.items()}))
        for t, m in tokens.items():
            hit = cols is None or any(o in cols for o in m.outputs)
            if hit:
                base[t] += N
                k = 'foreign-%s' % t
                its[k] = its.get(k, 0) + N
            ctx.true(m.transitions == base[t], 'foreign:count',
                     'model of %r transitioned %d times, expected %d (cols='
                     '%r)' % (m.outputs, m.transitions, base[t], cols))
        ctx.true(dict(st.diagnostics['iterations']) == its,
                 'foreign:iterations', '%r, expected %r' % (
                     st.diagnostics['iterations'], its))
        now = parts(st)
        for p in (start, now):
            p['rest'].pop('hooked', None)
        d = mix.diff({k: repr(v) for k, v in start.items()},
                     {k: repr(v) for k, v in now.items()})
        ctx.true(d is None, 'foreign:state', 'a foreign transition changed '
                 'the state: %s' % d)
    # and the other way round
    st.transition(N=2, progress=False)
    for t, m in tokens.items():
        ctx.true(m.transitions == base[t], 'foreign:uninvited',
                 'a transition of the state transitioned the model of %r' %
                 m.outputs)
    ctx.true(gone is None or gone.transitions == 0, 'foreign:decomposed',
             'a decomposed model was transitioned')


# ----------------------------------------------------------------- liveness ---

def weak_state(rng, types, n_rows, n_cols):
    """Hardly any data: everything targeted must move before long."""
    specs = {c: mix.gen_spec(rng, types) for c in range(n_cols)}
    X = {}
    for c in range(n_cols):
        xs = [mix.NAN] * n_rows
        for r in rng.permutation(n_rows)[:2]:
            xs[r] = float(prims.gen_value(
                specs[c]['cctype'], rng, specs[c]['distargs'], 0))
        X[c] = xs
    Zv = {c: c % 2 for c in range(n_cols)}
    Zrv = {v: [int(rng.randint(2)) for _ in range(n_rows)] for v in (0, 1)}
    st = mix.make_state(rng, X, specs, Zv=Zv, Zrv=Zrv, alpha=1.,
                        view_alphas={0: 1., 1: 1.}, hypers=False)
    return st, X, specs


@scenario(quick=24, thorough=240)
def liveness(ctx):
    rng = ctx.rng
    types = ['normal', 'bernoulli', 'categorical', 'poisson', 'exponential',
             'geometric', 'lognormal']
    k = KERNELS[ctx.index % len(KERNELS)]
    if k == 'column_params':
        types = ['beta', 'normal_trunc']
    n_rows, n_cols = int(rng.randint(3, 6)), int(rng.randint(3, 6))
    st, X, specs = weak_state(rng, types, n_rows, n_cols)
    cols_all = list(st.outputs)
    cols = [cols_all[i] for i in rng.permutation(n_cols)[
        :1 + rng.randint(n_cols)]] if rng.rand() < .6 else None
    rowids = [int(r) for r in rng.permutation(n_rows)[
        :1 + rng.randint(n_rows)]] if k == 'rows' and rng.rand() < .6 \
        else None
    views = [int(rng.randint(2))] if k in ('rows', 'view_alphas') and \
        rng.rand() < .3 else None
    sel = cols if cols is not None else cols_all
    if views is not None:
        vs = views
    else:
        vs = sorted({st.Zv(c) for c in sel})
    kw = dict(kernels=[k], cols=cols, rowids=rowids, views=views)
    seen = {}

    def note(key, value):
        seen.setdefault(key, set()).add(value)

    def look():
        if k == 'alpha':
            note('alpha', st.alpha())
        elif k == 'view_alphas':
            for v in vs:
                note('view %d' % v, st.views[v].alpha())
        elif k == 'column_params':
            for c in sel:
                d = st.dim_for(c)
                note('column %d' % c, repr(sorted(
                    (i, Q.norm(m.get_params()))
                    for i, m in d.clusters.items())))
        elif k == 'column_hypers':
            for c in sel:
                for hy, x in st.dim_for(c).hypers.items():
                    note('column %d' % c, (hy, float(x)))
        elif k == 'rows':
            for v in vs:
                z = st.views[v].Zr()
                for r in (range(n_rows) if rowids is None else rowids):
                    note('view %d row %d' % (v, r), frozenset(
                        q for q in z if z[q] == z[r]))
        else:
            z = st.Zv()
            for c in sel:
                note('column %d' % c, frozenset(
                    q for q in z if z[q] == z[c]))
    look()
    start = {key: len(v) for key, v in seen.items()}
    for i in range(10):
        for _ in range(30):
            st.transition(N=1, progress=False, **kw)
            look()
        still = [key for key, v in seen.items() if len(v) <= start[key]]
        if not still:
            break
    ctx.case(dict(kernel=k, kw=kw, still=still))
    ctx.true(not still, 'liveness:' + k, '%d sweeps of %r never moved %r' % (
        30 * (i + 1), kw, still))


# --------------------------------------------------------------------- work ---

class WorkRng(np.random.RandomState):
    """Counts the draws, and the numbers drawn: the work of a sweep."""
    calls = drawn = 0


def _counted(name):
    base = getattr(np.random.RandomState, name)

    def f(self, *a, **k):
        r = base(self, *a, **k)
        self.calls += 1
        self.drawn += len(a[0]) if name == 'shuffle' else np.size(r)
        return r
    return f


for _name in ('choice', 'permutation', 'shuffle', 'uniform', 'rand',
              'random_sample', 'randint', 'normal', 'multinomial', 'gamma',
              'beta', 'exponential', 'randn', 'standard_normal', 'gumbel'):
    setattr(WorkRng, _name, _counted(_name))


@scenario(quick=40, thorough=400, min_ok=0)
def work(ctx):
    """As many sweeps as asked, of each target once: the randomness used by a
    sweep is proportional to the number of sweeps and of distinct targets.
    (Repeated or surplus Gibbs sweeps leave no other trace.) Only if neither
    the draws nor the numbers drawn are proportional is it a violation, since
    either may depend on the way in which a draw is made."""
    rng = ctx.rng
    n_rows, n_cols = int(rng.randint(8, 16)), 8
    X, specs = mix.gen_table(rng, n_rows, n_cols, ['normal'], 0.)
    cols = list(X)
    Zv = {c: i // 4 for i, c in enumerate(cols)}
    Zrv = {v: [int(rng.randint(3)) for _ in range(n_rows)] for v in (0, 1)}
    r = WorkRng(rng.randint(2**31 - 1))
    st = mix.make_state(rng, X, specs, Zv=Zv, Zrv=Zrv, state_rng=r,
                        hypers=False)

    def cost(**kw):
        r.drawn = r.calls = 0
        with quiet():
            st.transition(progress=False, **kw)
        ctx.count('numbers drawn by transitions', r.drawn)
        return np.asarray([r.calls, r.drawn])

    def judge(what, want, a, b, ka, kb):
        ctx.case(dict(work=what, a=ka, b=kb))
        if not a.all():
            raise Inconclusive('no randomness seen')
        ratio = b / a
        ctx.true(np.any((want / 1.4 <= ratio) & (ratio <= want * 1.4)),
                 'work:' + what,
                 '%r made %r draws (of numbers), %r made %r: ratios %r, not '
                 '%.2f' % (ka, list(a), kb, list(b), list(ratio), want))

    def compare(what, want, ka, kb):
        judge(what, want, cost(**ka), cost(**kb), ka, kb)

    for k in ('alpha', 'view_alphas', 'column_hypers', 'rows'):
        n = int(rng.randint(3, 6))
        compare('sweeps', n, dict(kernels=[k], N=1), dict(kernels=[k], N=n))
    for k in ('rows', 'view_alphas'):
        # columns of one view, the whole view once
        some = [cols[i] for i in rng.permutation(4)[:rng.randint(3, 5)]]
        compare('one view', 1., dict(kernels=[k], cols=some[:1]),
                dict(kernels=[k], cols=some))
        compare('two views', 2., dict(kernels=[k], cols=some[:1]),
                dict(kernels=[k], cols=some + cols[5:7]))
        compare('views given', 2., dict(kernels=[k], views=[1]),
                dict(kernels=[k], views=[0, 1]))
        compare('views given', 1., dict(kernels=[k], views=[1]),
                dict(kernels=[k], cols=cols[4:]))
    rows = [int(i) for i in rng.permutation(n_rows)]
    m = int(rng.randint(4, n_rows))
    compare('rows', m / 2., dict(kernels=['rows'], rowids=rows[:2]),
            dict(kernels=['rows'], rowids=rows[:m]))
    compare('columns', 3., dict(kernels=['column_hypers'], cols=cols[:2]),
            dict(kernels=['column_hypers'], cols=cols[1:7]))
    view, n = st.views[0], int(rng.randint(3, 6))
    spent = []
    for k in (1, n):
        r.drawn = r.calls = 0
        view.transition(k)
        spent.append(np.asarray([r.calls, r.drawn]))
    judge('sweeps of a view', n, spent[0], spent[1], 'once', n)
    # kernels in a row cost what they cost alone
    a = cost(kernels=['rows'], N=2) + cost(kernels=['column_hypers'], N=2)
    b = cost(kernels=['rows', 'column_hypers'], N=2)
    judge('kernels', 1., a, b, 'alone', 'together')


# ----------------------------------------------------------------- everyone ---

class EndRng(np.random.RandomState):
    """Every weighted draw ends at the last (or first) possible option."""
    end, forced = None, 0

    def choice(self, a, size=None, replace=True, p=None):
        if p is None or size is not None or self.end is None:
            return np.random.RandomState.choice(self, a, size, replace, p)
        ok = [i for i in range(len(p)) if p[i] > 1e-250]
        self.forced += 1
        i = ok[self.end]
        return i if np.isscalar(a) else np.asarray(a)[i]

    def multinomial(self, n, pvals, size=None):
        if n != 1 or size is not None or self.end is None:
            return np.random.RandomState.multinomial(self, n, pvals, size)
        ok = [i for i in range(len(pvals)) if pvals[i] > 1e-250]
        self.forced += 1
        draw = np.zeros(len(pvals), dtype=int)
        draw[ok[self.end]] = 1
        return draw


@scenario(quick=60, thorough=600, min_ok=0)
def everyone(ctx):
    """One sweep reconsiders every row and column it targets: with all of
    them together at first, and every draw sent to the fresh alternative,
    none is left where it was."""
    rng = ctx.rng
    rows = ctx.index % 2 == 0
    n_rows, n_cols = int(rng.randint(2, 9)), int(rng.randint(2, 8))
    large = ctx.index % 10 > 7
    if large and rows:
        n_rows, n_cols = int(rng.randint(35, 60)), 2
    elif large:
        n_cols = int(rng.randint(11, 16))
    X, specs = mix.gen_table(
        rng, n_rows, n_cols, ['normal', 'bernoulli', 'categorical'], .1)
    cols = list(X)
    if rows:
        want = list(range(n_rows))
        if rng.rand() < (.2 if large else .5):
            want = [int(r) for r in rng.permutation(n_rows)[
                :rng.randint(1, n_rows + 1)]]
        kw = dict(kernels=['rows'], rowids=want)
        if len(want) == n_rows and rng.rand() < (.8 if large else .5):
            kw['rowids'] = None
    else:
        want = list(cols)
        if rng.rand() < (.2 if large else .5):
            want = [cols[i] for i in rng.permutation(n_cols)[
                :rng.randint(1, n_cols + 1)]]
        kw = dict(kernels=['columns'], cols=want)
        if len(want) == n_cols and rng.rand() < (.8 if large else .5):
            kw['cols'] = None
    route = ['transition', 'part', 'view'][rng.randint(3 if rows else 2)]
    seed = rng.randint(2**31 - 1)
    left, forced = [], []
    for end in (-1, 0):
        r = EndRng(seed)
        st = mix.make_state(
            rng, X, specs, Zv={c: 0 for c in cols},
            Zrv={0: [0] * n_rows}, alpha=1., view_alphas={0: 1.},
            state_rng=r, hypers=False)
        r.end, r.forced = end, 0
        with quiet():
            if route == 'transition':
                st.transition(N=1, progress=False, **kw)
            elif rows and route == 'part':
                st.transition_view_rows(rows=kw['rowids'])
            elif rows:
                st.views[0].transition_rows(rows=kw['rowids'])
            else:
                st.transition_dims(cols=kw['cols'])
        r.end = None
        if rows:
            z = st.views[0].Zr()
            left.append([i for i in want if z[i] == 0])
            other = [i for i in range(n_rows) if i not in want and z[i]]
        else:
            z = st.Zv()
            left.append([i for i in want if z[i] == 0])
            other = [i for i in cols if i not in want and z[i]]
        forced.append(r.forced)
        ctx.true(not other, 'everyone:others', '%s of %r moved %r' % (
            route, kw, other), X=X, specs=specs)
    ctx.case(dict(kw=kw, route=route, rows=n_rows, cols=n_cols, left=left))
    if min(forced) < len(want):
        raise Inconclusive('draws not visible')
    ctx.count('targets seen to be reconsidered', len(want))
    ctx.true(not left[0] or not left[1], 'everyone:left', '%s of %r: %r were '
             'not reconsidered' % (route, kw, left[0]), X=X, specs=specs)


# -------------------------------------------------------------------- views ---

@scenario(quick=40, thorough=400)
def views(ctx):
    """Transitions of one view."""
    rng = ctx.rng
    view, X, specs = mix.random_view(rng)
    h = hist.ViewHistory(ctx, view, X, specs)
    for _ in range(int(rng.randint(0, 6))):
        h.step()
    view = h.view

    def apart():
        return dict(
            Zr=dict(view.Zr()), alpha=view.alpha(),
            hypers={c: Q.norm(d.hypers) for c, d in view.dims.items()},
            types={c: d.cctype for c, d in view.dims.items()},
            X={c: [repr(float(x)) for x in view.X[c]] for c in view.X},
            outputs=sorted(view.outputs))
    for _ in range(5):
        a = apart()
        k = rng.randint(4)
        cols = list(view.dims)
        if k == 0:
            rows = h.rows()
            rs = [rows[i] for i in rng.permutation(len(rows))[
                :rng.randint(0, len(rows) + 1)]]
            view.transition_rows(rows=list(rs))
            b = apart()
            keep = set(a['Zr']) - set(rs)
            ctx.true(set(a['Zr']) == set(b['Zr']) and restrict(
                a['Zr'], keep) == restrict(b['Zr'], keep), 'view:rows',
                'rows %r moved others: %r, then %r' % (
                    rs, a['Zr'], b['Zr']))
            ok = ['Zr']
            desc = ['rows', rs]
        elif k == 1:
            view.transition_crp_alpha()
            b = apart()
            ok, desc = ['alpha'], ['alpha']
        elif k == 2:
            cs = [cols[i] for i in rng.permutation(len(cols))[
                :rng.randint(0, len(cols) + 1)]]
            view.transition_dim_hypers(cols=list(cs))
            b = apart()
            for c in cols:
                ctx.true(c in cs or a['hypers'][c] == b['hypers'][c],
                         'view:hypers', 'hypers of %r changed by a '
                         'transition of %r' % (c, cs))
            ok, desc = ['hypers'], ['hypers', cs]
        else:
            view.transition(1)
            b = apart()
            ok, desc = ['hypers', 'Zr', 'alpha'], ['all']
        ctx.case(dict(view=desc, log=h.log[-4:]))
        for key in a:
            if key not in ok:
                ctx.true(a[key] == b[key], 'view:' + key,
                         'transition of %r changed %s: %r, then %r' % (
                             desc, key, a[key], b[key]))
        if ctx.violations:
            return


# ------------------------------------------------------------------- engine ---

@scenario(quick=20, thorough=200)
def engine(ctx):
    """Sweeps and checkpoints arrive in every state."""
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    X, specs = mix.gen_table(rng, int(rng.randint(3, 6)),
                             int(rng.randint(2, 5)), missing=.1)
    n = int(rng.randint(1, 5))
    e = Engine(np.asarray([X[c] for c in X], dtype=float).T, num_states=n,
               outputs=list(X), cctypes=[specs[c]['cctype'] for c in X],
               distargs=[specs[c]['distargs'] for c in X],
               rng=ctx.newrng(), multiprocess=0)
    want = [{} for _ in range(n)]
    points = [0] * n
    for _ in range(3):
        run = [KERNELS[i] for i in rng.permutation(len(KERNELS))[
            :1 + rng.randint(4)]]
        N, cp = int(rng.randint(1, 5)), int(rng.choice([0, 1, 2, 3]))
        sel = None if rng.rand() < .4 else [
            int(i) for i in rng.permutation(n)[:1 + rng.randint(n)]]
        kw = dict(N=N, kernels=run, progress=False,
                  multiprocess=int(rng.rand() < .5))
        if cp:
            kw['checkpoint'] = cp
        if sel is not None:
            kw['statenos'] = sel
        e.transition(**kw)
        ctx.case(dict(engine=n, kw=kw))
        for s in (range(n) if sel is None else sel):
            for k in run:
                want[s][k] = want[s].get(k, 0) + N
            points[s] += N // cp if cp else 0
        for s, st in enumerate(e.states):
            got = {k: v for k, v in st.diagnostics['iterations'].items()
                   if v}
            ctx.true(got == want[s], 'engine:count', 'state %d counted %r, '
                     'expected %r' % (s, got, want[s]))
            for k in ('logscore', 'column_crp_alpha', 'column_partition'):
                ctx.true(len(st.diagnostics[k]) == points[s],
                         'engine:checkpoints', 'state %d has %d %s '
                         'diagnostics, expected %d' % (
                             s, len(st.diagnostics[k]), k, points[s]))
