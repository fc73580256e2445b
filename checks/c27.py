"""C27: exchange with external inference engines keeps the model intact.

The engines (lovecat's LocalEngine, loom) are not installed; recording
stand-ins are put in their place. They read what the real code exports the way
the engines do, compare it with the caller's own copy of the model, and answer
with a model of their choosing, which the state must then have."""
import atexit
import contextlib
import copy
import csv
import io
import json
import os
import shutil
import sys
import tempfile
import types

import numpy as np

import hist
import mix
import queries as Q
from mix import isnan
from vlib import Inconclusive, scenario

TECHNIQUE = (
    'recording stand-ins for the external engines (lovecat, loom): monitors '
    'decode everything exported and compare it with an independent copy of '
    'the model, return random models, and check the state installed, over '
    'random histories with repeated exchanges and injected engine faults')
RULE = ('a case is one exchange with a stand-in engine: the model exported, '
        'the answer of the engine and the model installed; non-trivial when '
        'there are several views or clusters; distinct by the model exported '
        'and the answer')
NOTE = ('The stand-ins follow the calls and formats the code under test uses '
        '(crosscat LocalEngine.analyze; loom projects); that the real engines '
        'agree with them is not observed. ')
NAN = float('nan')


def partition(z):
    """Partition of 0..n-1, independent of labels."""
    by = {}
    for i, k in (z.items() if isinstance(z, dict) else enumerate(z)):
        by.setdefault(int(k), set()).add(i)
    return {frozenset(s) for s in by.values()}


def random_partition(rng, n):
    z = mix.gen_partition(rng, range(n))
    names = sorted(set(z.values()))
    code = {k: i for i, k in enumerate(names)}
    return [code[z[i]] for i in range(n)]


class EngineDown(Exception):
    pass


# ----------------------------------------------------------------- lovecat ---

class Stand(object):
    """What a stand-in engine was sent, and what it sends back."""
    answer = None       # f(call) -> (X_L, X_D[, diagnostics])
    calls = []
    seeds = []


class LocalEngine(object):

    def __init__(self, seed=None):
        Stand.seeds.append(seed)

    def analyze(self, M_c, T, X_L, X_D, seed, kernel_list=(), n_steps=1, c=(),
                r=(), max_iterations=-1, max_time=-1, do_diagnostics=False,
                diagnostics_every_N=1, progress=None, **other):
        call = dict(M_c=M_c, T=T, X_L=X_L, X_D=X_D, seed=seed,
                    kernels=kernel_list, n_steps=n_steps, c=c, r=r,
                    max_time=max_time, diagnostics=do_diagnostics,
                    every=diagnostics_every_N, progress=progress, other=other)
        call = {k: (v if k == 'progress' else copy.deepcopy(v))
                for k, v in call.items()}
        Stand.calls.append(call)
        return Stand.answer(call)


def get_scc_from_tuples(constraints):
    """Every column named, with the columns it is paired with and itself."""
    out = {}
    for a, b in constraints:
        out.setdefault(a, set([a])).add(b)
        out.setdefault(b, set([b])).add(a)
    return {k: sorted(v) for k, v in out.items()}


def install():
    top, utils = types.ModuleType('crosscat'), types.ModuleType(
        'crosscat.utils')
    gu = types.ModuleType('crosscat.utils.general_utils')
    le = types.ModuleType('crosscat.LocalEngine')
    gu.get_scc_from_tuples = get_scc_from_tuples
    le.LocalEngine = LocalEngine
    top.utils, top.LocalEngine, utils.general_utils = utils, le, gu
    sys.modules.update({
        'crosscat': top, 'crosscat.utils': utils,
        'crosscat.utils.general_utils': gu, 'crosscat.LocalEngine': le})
    Stand.calls, Stand.seeds, Stand.answer = [], [], None


def intkeys(d):
    return {int(k): v for k, v in d.items()}


class Copy(object):
    """The caller's own view of a state, taken before the exchange."""

    def __init__(self, st, X):
        self.outputs = list(st.outputs)
        self.X = {c: list(X[c]) for c in X}
        self.n = len(next(iter(X.values())))
        self.Zv = {c: st.Zv(c) for c in st.outputs}
        self.Zr = {v: {r: st.views[v].Zr(r) for r in range(self.n)}
                   for v in st.views}
        self.alpha = st.alpha()
        self.view_alpha = {v: st.views[v].alpha() for v in st.views}
        self.types = {c: st.dim_for(c).cctype for c in st.outputs}
        self.hypers = {c: dict(st.dim_for(c).hypers) for c in st.outputs}
        self.Cd = [list(b) for b in st.Cd]
        self.Ci = [tuple(p) for p in st.Ci]


def check_export(ctx, call, was, log):
    """Everything the engine is given, read as it reads it."""
    M_c, T, X_L, X_D = (call[k] for k in ('M_c', 'T', 'X_L', 'X_D'))
    m, n = len(was.outputs), was.n
    w = dict(log=log[-20:])
    idx = intkeys(M_c['idx_to_name'])
    ctx.true(sorted(idx) == list(range(m)) and
             {v: k for k, v in idx.items()} == dict(M_c['name_to_idx']),
             'lovecat:names', 'column names %r, %r' % (
                 M_c['name_to_idx'], M_c['idx_to_name']), **w)
    meta = M_c['column_metadata']
    kind = {'normal': 'normal_inverse_gamma',
            'categorical': 'symmetric_dirichlet_discrete'}
    ctx.true([x['modeltype'] for x in meta] == [
        kind[was.types[c]] for c in was.outputs], 'lovecat:types',
        'types %r as %r' % (was.types, [x['modeltype'] for x in meta]), **w)
    # the data, cell by cell
    bad = None
    for i, c in enumerate(was.outputs):
        code = {}
        if was.types[c] == 'categorical':
            code = intkeys(meta[i]['value_to_code'])
            back = meta[i]['code_to_value']
            ctx.true({v: k for k, v in code.items()} == dict(back) and
                     sorted(code) == list(range(len(code))),
                     'lovecat:codes', 'column %s codes %r, %r' % (
                         c, code, back), **w)
            seen = sorted({int(x) for x in was.X[c] if not isnan(x)})
            ctx.true(sorted(int(x) for x in code.values()) == seen,
                     'lovecat:codes', 'column %s has %r, coded %r' % (
                         c, seen, code), **w)
        for r in range(n):
            x = T[r][i]
            if not isnan(x) and was.types[c] == 'categorical':
                x = float(code.get(int(x), -1))
            if isnan(x) != isnan(was.X[c][r]) or (
                    not isnan(x) and x != was.X[c][r]):
                bad = bad or (r, c, T[r][i], was.X[c][r], code)
    ctx.true(len(T) == n and all(len(row) == m for row in T) and bad is None,
             'lovecat:data', 'table of %d x %d: cell %r' % (n, m, bad), **w)
    # the column partition
    cp = X_L['column_partition']
    a = list(cp['assignments'])
    ctx.true(partition({c: a[i] for i, c in enumerate(was.outputs)})
             == partition(was.Zv), 'lovecat:columns',
             'columns %r of %r as %r' % (was.Zv, was.outputs, a), **w)
    ctx.true(sorted(set(a)) == list(range(len(set(a)))) and list(
        cp['counts']) == [a.count(v) for v in sorted(set(a))],
        'lovecat:column-counts', 'counts %r of %r' % (cp['counts'], a), **w)
    ctx.close(cp['hypers']['alpha'], was.alpha, 'lovecat:alpha',
              'concentration of the columns', **w)
    # the row partitions, view by view
    vs = X_L['view_state']
    ctx.true(len(vs) == len(X_D) == len(set(a)), 'lovecat:views',
             '%d views, %d states, %d partitions' % (
                 len(set(a)), len(vs), len(X_D)), **w)
    for i, c in enumerate(was.outputs):
        v = was.Zv[c]
        z = list(X_D[a[i]])
        ctx.true(len(z) == n and partition(z) == partition(was.Zr[v]),
                 'lovecat:rows', 'rows of column %s are %r, sent as %r' % (
                     c, was.Zr[v], z), **w)
        rp = vs[a[i]]['row_partition_model']
        ctx.true(sorted(set(z)) == list(range(len(set(z)))) and list(
            rp['counts']) == [z.count(k) for k in sorted(set(z))],
            'lovecat:row-counts', 'counts %r of %r' % (rp['counts'], z), **w)
        ctx.close(rp['hypers']['alpha'], was.view_alpha[v],
                  'lovecat:view-alpha', 'concentration of the rows of %s' % c,
                  **w)
        mine = sorted(was.outputs.index(o) for o in was.outputs
                      if was.Zv[o] == v)
        names = vs[a[i]]['column_names']
        ctx.true(sorted(M_c['name_to_idx'].get(x, -1) for x in names) == mine,
                 'lovecat:view-columns', 'view of %s names %r, has %r' % (
                     c, names, mine), **w)
        stats = vs[a[i]]['column_component_suffstats']
        ctx.true(len(stats) == len(mine) and all(
            len(x) == len(set(z)) for x in stats), 'lovecat:view-stats',
            'statistics of %d columns, %r clusters' % (
                len(stats), [len(x) for x in stats]), **w)
        h, mine = X_L['column_hypers'][i], was.hypers[c]
        pairs = {'dirichlet_alpha': 'alpha'} \
            if was.types[c] == 'categorical' else {
                'mu': 'm', 'nu': 'nu', 'r': 'r', 's': 's'}
        ctx.true(all(k in h and h[k] == mine[j] for k, j in pairs.items()),
                 'lovecat:hypers', 'column %s: %r as %r' % (c, mine, h), **w)
    # the constraints
    for key, want in (('dependent', [
            (p, q) for b in was.Cd for p in b for q in b if p != q]), (
            'independent', [p for q in was.Ci for p in (q, q[::-1])])):
        got = X_L['col_ensure'].get(key, {})
        got = {(int(p), int(q)) for p, b in got.items() for q in b
               if int(p) != int(q)}
        want = {(was.outputs.index(p), was.outputs.index(q))
                for p, q in want}
        ctx.true(got == want, 'lovecat:' + key, '%s columns %r of %r as %r'
                 % (key, was.Cd or was.Ci, was.outputs, sorted(got)), **w)


def check_request(ctx, call, was, kw, seed, log):
    """The engine is asked for what the caller asked for."""
    N, S = kw.get('N'), kw.get('S')
    steps = N if N is not None else (1 if S is None else None)
    w = dict(log=log[-20:])
    ctx.true(steps is None and call['n_steps'] >= 1000
             or call['n_steps'] == steps, 'lovecat:steps',
             'N=%r S=%r: %r steps' % (N, S, call['n_steps']), **w)
    ctx.true(call['max_time'] == (-1 if S is None else S), 'lovecat:time',
             'S=%r: %r seconds' % (S, call['max_time']), **w)
    ctx.true(tuple(call['kernels']) == tuple(kw.get('kernels') or ()),
             'lovecat:kernels', 'kernels %r as %r' % (
                 kw.get('kernels'), call['kernels']), **w)
    ctx.true([was.outputs[i] for i in call['c']] == list(
        kw.get('cols') or ()), 'lovecat:selected-columns',
        'columns %r of %r as %r' % (kw.get('cols'), was.outputs, call['c']),
        **w)
    ctx.true(list(call['r']) == list(kw.get('rowids') or ()),
             'lovecat:selected-rows', 'rows %r as %r' % (
                 kw.get('rowids'), call['r']), **w)
    ctx.true(bool(call['diagnostics']) == (kw.get('checkpoint') is not None)
             and (kw.get('checkpoint') is None
                  or call['every'] == kw['checkpoint']), 'lovecat:checkpoint',
             'checkpoint %r: %r every %r' % (
                 kw.get('checkpoint'), call['diagnostics'], call['every']),
             **w)
    ctx.true(callable(call['progress']) == (kw.get('progress', None)
                                            is not False),
             'lovecat:progress', 'progress %r: %r' % (
                 kw.get('progress'), call['progress']), **w)
    if seed is not None:
        ctx.true(call['seed'] == seed and Stand.seeds[-1] == seed,
                 'lovecat:seed', 'seed %r, sent %r and %r' % (
                     seed, call['seed'], Stand.seeds[-1]), **w)


def respect(was, a):
    """Does the column partition obey the constraints?"""
    z = dict(zip(was.outputs, a))
    return all(len({z[c] for c in b}) == 1 for b in was.Cd) and all(
        z[p] != z[q] for p, q in was.Ci)


def answer(rng, was, identity=False):
    """A model of the engine's own choosing, for the export in hand."""
    def f(call):
        X_L, X_D = copy.deepcopy(call['X_L']), copy.deepcopy(call['X_D'])
        if not identity:
            m = len(was.outputs)
            a = list(X_L['column_partition']['assignments'])
            for _ in range(30):
                b = random_partition(rng, m)
                if respect(was, b):
                    a = b
                    break
            names = list(rng.permutation(max(a) + 1))
            a = [int(names[k]) for k in a]
            X_D, vs = [], []
            for v in range(max(a) + 1):
                z = random_partition(rng, was.n)
                X_D.append(z)
                vs.append({
                    'row_partition_model': {
                        'counts': [z.count(k) for k in range(max(z) + 1)],
                        'hypers': {'alpha': float(rng.uniform(.2, 5))}},
                    'column_names': [call['M_c']['idx_to_name'][str(i)]
                                     for i in range(m) if a[i] == v],
                    'column_component_suffstats': []})
            X_L['column_partition'] = {
                'assignments': a,
                'counts': [a.count(v) for v in range(max(a) + 1)],
                'hypers': {'alpha': float(rng.uniform(.2, 5))}}
            X_L['view_state'] = vs
        out = [X_L, X_D]
        if call['diagnostics']:
            k = max(1, int(call['n_steps']) // int(call['every'])) \
                if call['n_steps'] < 1000 else 2
            out.append({
                'logscore': np.asarray(rng.normal(size=(k, 1))),
                'column_crp_alpha': np.asarray(
                    rng.uniform(.1, 3, size=(k, 1))),
                'column_partition_assignments': np.asarray(
                    rng.randint(0, 3, size=(len(was.outputs), k, 1)))})
        f.given = out
        return tuple(copy.deepcopy(out))
    return f


def check_import(ctx, st, was, given, log, exact=True):
    """The state is the engine's model over the caller's data."""
    X_L, X_D = given[0], given[1]
    w = dict(log=log[-20:])
    ctx.true(list(st.outputs) == was.outputs, 'import:outputs',
             'outputs %r were %r' % (st.outputs, was.outputs), **w)
    a = X_L['column_partition']['assignments']
    got = {c: st.Zv(c) for c in st.outputs}
    ctx.true(partition(got) == partition(dict(zip(was.outputs, a))),
             'import:columns', 'columns %r, engine says %r' % (got, a), **w)
    for i, c in enumerate(was.outputs):
        view = st.view_for(c)
        ctx.true(partition(dict(view.Zr())) == partition(X_D[a[i]]),
                 'import:rows', 'rows of column %s are %r, engine says %r' % (
                     c, dict(view.Zr()), X_D[a[i]]), **w)
        if exact:
            ctx.close(view.alpha(), X_L['view_state'][a[i]][
                'row_partition_model']['hypers']['alpha'],
                'import:view-alpha', 'view of column %s' % c, **w)
            h = dict(st.dim_for(c).hypers)
            ctx.true(h == was.hypers[c], 'import:hypers', 'column %s has %r, '
                     'had %r' % (c, h, was.hypers[c]), **w)
        ctx.true(st.dim_for(c).cctype == was.types[c], 'import:types',
                 'column %s is %s' % (c, st.dim_for(c).cctype), **w)
    if exact:
        ctx.close(st.alpha(), X_L['column_partition']['hypers']['alpha'],
                  'import:alpha', 'concentration of the columns', **w)
    ctx.true([list(b) for b in st.Cd] == was.Cd and [
        tuple(p) for p in st.Ci] == was.Ci, 'import:constraints',
        'constraints %r %r' % (st.Cd, st.Ci), **w)
    mix.check_state(ctx, st, was.X, 'after the exchange', mech='import', **w)


def random_request(rng, was):
    kw = {}
    k = rng.randint(4)
    if k in (1, 3):
        kw['N'] = int(rng.randint(1, 30))
    if k in (2, 3):
        kw['S'] = float(rng.uniform(.1, 5))
    if rng.rand() < .5:
        names = ['column_partition_hyperparameter',
                 'column_partition_assignments', 'column_hyperparameters',
                 'row_partition_hyperparameters', 'row_partition_assignments']
        kw['kernels'] = [names[i] for i in rng.permutation(5)[
            :rng.randint(1, 5)]]
    if rng.rand() < .4:
        kw['cols'] = [was.outputs[i] for i in rng.permutation(
            len(was.outputs))[:rng.randint(1, len(was.outputs) + 1)]]
    if rng.rand() < .4:
        kw['rowids'] = [int(r) for r in rng.permutation(was.n)[
            :rng.randint(1, was.n + 1)]]
    if rng.rand() < .4:
        kw['checkpoint'] = int(rng.randint(1, 4))
    if rng.rand() < .7:
        kw['progress'] = [None, False, True][rng.randint(3)]
    return kw


def check_diagnostics(ctx, st, had, was, given, log):
    w = dict(log=log[-20:])
    now = {k: len(st.diagnostics[k]) for k in had}
    if len(given) < 3:
        ctx.true(now == had, 'diagnostics:unasked', '%r were %r' % (now, had),
                 **w)
        return
    d = given[2]
    k = len(d['logscore'])
    ctx.true(all(now[x] == had[x] + k for x in had), 'diagnostics:count',
             '%d checkpoints: %r were %r' % (k, now, had), **w)
    ctx.true(np.allclose(st.diagnostics['logscore'][-k:],
                         np.ravel(d['logscore'])) and
             np.allclose(st.diagnostics['column_crp_alpha'][-k:],
                         np.ravel(d['column_crp_alpha'])),
             'diagnostics:values', 'scores or concentrations differ', **w)
    for j, part in enumerate(st.diagnostics['column_partition'][-k:]):
        want = {c: int(d['column_partition_assignments'][i][j][0])
                for i, c in enumerate(was.outputs)}
        ctx.true(dict(part) == want, 'diagnostics:columns', 'checkpoint %d: '
                 '%r, engine says %r' % (j, part, want), **w)


OPS = [('transition', 4), ('rows_some', 3), ('columns_some', 2),
       ('incorporate', 3), ('unincorporate', 2), ('force_cell', 2),
       ('incorporate_dim', 2), ('unincorporate_dim', 2), ('reload', 1)]
SHIP = ['normal', 'categorical']


def model(ctx, constrained=False):
    rng = ctx.rng
    if not constrained:
        st, X, specs = mix.random_state(
            rng, n_rows=int(rng.randint(2, 9) if ctx.index % 9 else 24),
            n_cols=int(rng.randint(1, 7) if ctx.index % 9 else 12),
            types=SHIP)
        h = hist.StateHistory(ctx, st, X, specs, ops=OPS, new_types=SHIP)
        return h
    n = int(rng.randint(3, 7))
    X, specs = mix.gen_table(rng, int(rng.randint(2, 8)), n, SHIP, .2,
                             list(range(n)))
    p = [int(i) for i in rng.permutation(n)]
    kw = [dict(Cd=[p[:2]]), dict(Ci=[tuple(p[:2])]),
          dict(Cd=[p[:2]], Ci=[(p[0], p[2])]),
          dict(Ci=[(p[0], p[1]), (p[2], p[0])])][rng.randint(4)]
    st = mix.make_state(rng, X, specs, **kw)
    h = hist.StateHistory(ctx, st, X, specs, ops=[
        ('rows_some', 3), ('incorporate', 3), ('unincorporate', 2),
        ('force_cell', 2), ('unincorporate_dim', 2)], new_types=SHIP)
    return h


def exchange(ctx, h, kw, exact, log, identity=False):
    from cgpm.crosscat import lovecat
    rng = ctx.rng
    st = h.state
    was = Copy(st, h.X)
    Stand.calls, Stand.seeds = [], []
    Stand.answer = answer(rng, was, identity)
    names = ['logscore', 'column_crp_alpha', 'column_partition']
    had = {k: len(st.diagnostics[k]) for k in names}
    seed = int(rng.randint(1, 2**31 - 1)) if rng.rand() < .8 else None
    with contextlib.redirect_stdout(io.StringIO()):
        if exact:
            lovecat.transition(st, seed=seed, **kw)
            seed = 1 if seed is None else seed
        else:
            st.transition_lovecat(**kw)
            seed = None
    ctx.true(len(Stand.calls) == 1, 'lovecat:calls',
             '%d analyses' % len(Stand.calls), log=log[-20:])
    call, given = Stand.calls[0], Stand.answer.given
    check_export(ctx, call, was, log)
    check_request(ctx, call, was, kw, seed, log)
    check_import(ctx, st, was, given, log, exact)
    check_diagnostics(ctx, st, had, was, given, log)
    if not exact:
        ctx.true(call['seed'] == Stand.seeds[-1] and call['seed'] >= 1,
                 'lovecat:seed', 'seeds %r and %r' % (
                     call['seed'], Stand.seeds[-1]), log=log[-20:])
    if identity and exact:
        ctx.true(partition(was.Zv) == partition(
            {c: st.Zv(c) for c in st.outputs}), 'identity',
            'an engine that changes nothing changed the columns',
            log=log[-20:])
        for c in was.outputs:
            ctx.true(partition(was.Zr[was.Zv[c]]) == partition(
                dict(st.view_for(c).Zr())), 'identity', 'an engine that '
                'changes nothing changed the rows of %s' % c, log=log[-20:])
    ctx.case(repr((call['T'], call['X_D'], given[1],
                   call['X_L']['column_partition']['assignments'])),
             len(was.Zr) > 1 or len(set(was.Zr[min(was.Zr)].values())) > 1)


@scenario(quick=80, thorough=1200)
def lovecat(ctx):
    install()
    h = model(ctx)
    for _ in range(4):
        for _ in range(int(ctx.rng.randint(0, 6))):
            h.step()
        if any(all(isnan(x) for x in h.X[c]) for c in h.X):
            raise Inconclusive('a column lost all its cells')
        was = Copy(h.state, h.X)
        kw = random_request(ctx.rng, was)
        h.log.append('exchange %r' % (kw,))
        before = h.state.logpdf_score()
        identity = ctx.rng.rand() < .35
        exchange(ctx, h, kw, True, h.log, identity)
        if identity:
            ctx.close(h.state.logpdf_score(), before, 'identity:score',
                      'score after an engine that changes nothing', tol=1e-6
                      * (1 + abs(before)), log=h.log[-20:])
        if ctx.violations:
            return


@scenario(quick=60, thorough=900)
def lovecat_state(ctx):
    """through State.transition_lovecat, then other inference as usual"""
    install()
    h = model(ctx)
    for _ in range(4):
        for _ in range(int(ctx.rng.randint(0, 6))):
            h.step()
        if any(all(isnan(x) for x in h.X[c]) for c in h.X):
            raise Inconclusive('a column lost all its cells')
        kw = random_request(ctx.rng, Copy(h.state, h.X))
        h.log.append('exchange %r' % (kw,))
        exchange(ctx, h, kw, False, h.log)
        st = h.state
        ref = mix.RefState(st, h.X)
        s = ref.score()
        ctx.close(st.logpdf_score(), s, 'import:score', 'score of the model '
                  'installed', tol=1e-6 * (1 + abs(s)), log=h.log[-20:])
        for _ in range(2):
            cs = list(h.X)
            ctx.rng.shuffle(cs)
            t = {c: mix.gen_new_value(ctx.rng, h.specs[c]) for c in cs[:2]}
            e = {c: mix.gen_new_value(ctx.rng, h.specs[c])
                 for c in cs[2:] if ctx.rng.rand() < .5}
            ctx.close(st.logpdf(None, dict(t), dict(e)), ref.logpdf(t, e),
                      'import:density', 'logpdf %r given %r' % (t, e),
                      tol=1e-6, log=h.log[-20:])
        if ctx.violations:
            return


@scenario(quick=40, thorough=600)
def lovecat_constraints(ctx):
    install()
    h = model(ctx, constrained=True)
    for _ in range(3):
        for _ in range(int(ctx.rng.randint(0, 4))):
            h.step()
        if any(all(isnan(x) for x in h.X[c]) for c in h.X):
            raise Inconclusive('a column lost all its cells')
        kw = random_request(ctx.rng, Copy(h.state, h.X))
        h.log.append('exchange %r' % (kw,))
        exchange(ctx, h, kw, True, h.log)
        if ctx.violations:
            return


@scenario(quick=40, thorough=400)
def lovecat_faults(ctx):
    """An engine that fails, and states that cannot be sent."""
    install()
    rng = ctx.rng
    h = model(ctx)
    for _ in range(int(rng.randint(0, 5))):
        h.step()
    if any(all(isnan(x) for x in h.X[c]) for c in h.X):
        raise Inconclusive('a column lost all its cells')
    st = h.state

    def down(call):
        raise EngineDown('out of memory')
    Stand.answer = down
    before = Q.digest_state(st)
    with contextlib.redirect_stdout(io.StringIO()):
        ctx.raises(EngineDown, lambda: st.transition_lovecat(N=2),
                   'fault:swallowed', 'the engine failed')
    d = mix.diff(before, Q.digest_state(st))
    ctx.true(d is None, 'fault:trace', 'a failed exchange changed the state '
             'at %s' % d, log=h.log[-20:])
    # and the next one works
    exchange(ctx, h, dict(N=2), True, h.log)
    # states with other types of columns are not sent at all
    n = h.n_rows()
    bad, X, specs = mix.random_state(
        rng, n_cols=int(rng.randint(2, 5)),
        types=['normal', 'poisson', 'bernoulli', 'beta'])
    if all(specs[c]['cctype'] == 'normal' for c in specs):
        return
    Stand.calls = []
    before = Q.digest_state(bad)
    ctx.raises(ValueError, lambda: bad.transition_lovecat(N=1),
               'fault:types', 'columns %r' % (bad.cctypes(),))
    ctx.true(not Stand.calls, 'fault:types', 'the engine was called')
    d = mix.diff(before, Q.digest_state(bad))
    ctx.true(d is None, 'fault:trace', 'a refused exchange changed the state '
             'at %s' % d)
    ctx.case('fault %r %d' % (h.log[-1:], n))


@scenario(quick=16, thorough=160)
def lovecat_engine(ctx):
    """Every state of an engine is sent, and gets its own answer."""
    from cgpm.crosscat.engine import Engine
    install()
    rng = ctx.rng
    n, m = int(rng.randint(2, 7)), int(rng.randint(1, 5))
    X, specs = mix.gen_table(rng, n, m, SHIP, .2)
    cs = list(X)
    multi = int(rng.rand() < .4)
    e = Engine(np.asarray([X[c] for c in cs], dtype=float).T, outputs=cs,
               cctypes=[specs[c]['cctype'] for c in cs],
               distargs=[specs[c]['distargs'] for c in cs],
               num_states=int(rng.randint(1, 5)), multiprocess=0,
               rng=np.random.RandomState(rng.randint(2**31 - 1)))
    e.transition(N=1, kernels=['rows'], progress=False, multiprocess=0)
    box = tempfile.mkdtemp(prefix='c27-')
    try:
        was = [Copy(s, X) for s in e.states]
        sel = None if rng.rand() < .5 else [
            int(s) for s in rng.permutation(len(was))[
                :rng.randint(1, len(was) + 1)]]
        seed = int(rng.randint(2**31 - 1))

        def reply(call):
            # (any process) the answer follows from the export
            mine = [i for i, w in enumerate(was) if sent(call) == key(w)]
            f = answer(np.random.RandomState(
                (seed + 7919 * (min(mine) if mine else 99)) % 2**31), was[0])
            out = f(call)
            with open(os.path.join(box, '%d-%d' % (
                    os.getpid(), call['seed'])), 'w') as g:
                json.dump(dict(key=sent(call), a=out[0]['column_partition'],
                               d=out[1], seed=call['seed'],
                               n=call['n_steps']), g)
            return out

        def sent(call):
            a = list(call['X_L']['column_partition']['assignments'])
            return repr((sorted(map(sorted, partition(a))), [
                sorted(map(sorted, partition(call['X_D'][a[i]])))
                for i in range(len(cs))],
                round(call['X_L']['column_partition']['hypers']['alpha'], 9)))

        def key(w):
            z = [w.Zv[c] for c in cs]
            return repr((sorted(map(sorted, partition(z))), [
                sorted(map(sorted, partition(w.Zr[w.Zv[c]]))) for c in cs],
                round(w.alpha, 9)))
        Stand.answer = reply
        kw = {} if sel is None else dict(statenos=list(sel))
        others = {i: Q.digest_state(s) for i, s in enumerate(e.states)
                  if sel is not None and i not in sel}
        with contextlib.redirect_stdout(io.StringIO()):
            e.transition_lovecat(N=3, multiprocess=multi, progress=False,
                                 **kw)
        calls = [json.load(open(os.path.join(box, f)))
                 for f in sorted(os.listdir(box))]
        chosen = sorted(sel if sel is not None else range(len(was)))
        ctx.true(sorted(c['key'] for c in calls) == sorted(
            key(was[i]) for i in chosen), 'engine:exports',
            'states %r, sent %d exports' % (chosen, len(calls)))
        ctx.true(len({c['seed'] for c in calls}) == len(calls),
                 'engine:seeds', 'seeds %r' % [c['seed'] for c in calls])
        ctx.true(all(c['n'] == 3 for c in calls), 'engine:steps',
                 '%r' % [c['n'] for c in calls])
        for i in chosen:
            mine = [c for c in calls if c['key'] == key(was[i])]
            if not mine:
                continue
            st = e.states[i]
            got = {c: st.Zv(c) for c in cs}
            ok = any(
                partition(got) == partition(dict(zip(cs, c['a'][
                    'assignments']))) and all(
                    partition(dict(st.view_for(x).Zr())) == partition(
                        c['d'][c['a']['assignments'][j]])
                    for j, x in enumerate(cs)) for c in mine)
            ctx.true(ok, 'engine:import', 'state %d is not the answer to its '
                     'own export' % i)
            mix.check_state(ctx, st, X, 'state %d' % i, mech='engine')
        for i, b in others.items():
            d = mix.diff(b, Q.digest_state(e.states[i]))
            ctx.true(d is None, 'engine:others', 'state %d, not selected, '
                     'changed at %s' % (i, d))
        ctx.case(repr((multi, sel, [key(w) for w in was])), len(was) > 1)
    finally:
        shutil.rmtree(box, ignore_errors=True)


# -------------------------------------------------------------------- loom ---

class Kind(object):
    def __init__(self, ids):
        self.featureids = ids


class CrossCat(object):
    def ParseFromString(self, s):
        self.kinds = [Kind(ids) for ids in json.loads(s)['kinds']]


class Assignment(object):
    def __init__(self, rowid, groups):
        self.rowid, self._groups = rowid, groups

    def groupids(self, k):
        return self._groups[k]


class BytesCsv(object):
    """Python 2's csv writes bytes."""
    QUOTE_MINIMAL = csv.QUOTE_MINIMAL

    @staticmethod
    def writer(f, **kw):
        class W(object):
            def writerow(self, row):
                out = io.StringIO()
                csv.writer(out, **kw).writerow(row)
                s = out.getvalue()
                f.write(s.encode() if 'b' in getattr(f, 'mode', '') else s)

            def writerows(self, rows):
                for r in rows:
                    self.writerow(r)
        return W()


class Loom(object):
    """The loom project tasks, recorded."""
    log = []
    answers = {}        # (results, sample) -> answer
    rng = None
    orders = {'boolean': 'bb', 'real': 'nich', 'categorical': 'dd',
              'unbounded_categorical': 'dpd', 'count': 'gp'}

    @classmethod
    def read(cls, results):
        root = os.path.dirname(results)
        with open(os.path.join(root, 'loom-schema.json')) as f:
            return json.load(f)

    @classmethod
    def sample(cls, results, seed):
        sch = cls.read(results)
        m, n = len(sch['features']), sch['n']
        rng = np.random.RandomState(cls.rng.randint(2**31 - 1))
        a = random_partition(rng, m)
        k = max(a) + 1
        kinds = [[i for i in rng.permutation(m).tolist() if a[i] == v]
                 for v in range(k)]
        names = [int(x) * 2 + 1 for x in rng.permutation(n)]
        rows = []
        for v in range(k):
            z = random_partition(rng, n)
            rows.append([names[j] for j in z])
        d = os.path.join(results, 'samples', 'sample.%d' % seed)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'model.pb.gz'), 'w') as f:
            json.dump(dict(kinds=kinds), f)
        order = [int(r) for r in rng.permutation(n)]
        with open(os.path.join(d, 'assign.pbs.gz'), 'w') as f:
            json.dump([[r, [rows[v][r] for v in range(k)]] for r in order], f)
        cls.answers[results, seed] = (
            {sch['features'][i]: v for v in range(k) for i in kinds[v]}, rows)


def install_loom(rng):
    loom = types.ModuleType('loom')
    cleanse = types.ModuleType('loom.cleanse')
    tasks = types.ModuleType('loom.tasks')
    pb2 = types.ModuleType('loom.schema_pb2')
    cfmt = types.ModuleType('loom.cFormat')
    dist = types.ModuleType('distributions')
    dio = types.ModuleType('distributions.io')
    stream = types.ModuleType('distributions.io.stream')
    Loom.log, Loom.answers, Loom.rng = [], {}, rng

    def force_ascii(src, dst):
        Loom.log.append(('cleanse', src, dst))
        shutil.copy(src, dst)

    def transform(results, schema, rows):
        Loom.log.append(('transform', results, schema, rows))
        with open(schema, newline='') as f:
            sch = list(csv.reader(f))
        with open(os.path.join(rows, 'data.csv.gz'), newline='') as f:
            data = list(csv.reader(f))
        # loom orders the features by type
        feats = sorted(sch[1:], key=lambda x: (Loom.orders[x[1]], x[0]))
        os.makedirs(os.path.join(results, 'ingest'), exist_ok=True)
        with open(os.path.join(results, 'ingest', 'encoding.json.gz'),
                  'w') as f:
            json.dump([dict(name=x[0], model=Loom.orders[x[1]])
                       for x in feats], f)
        with open(os.path.join(os.path.dirname(results),
                               'loom-schema.json'), 'w') as f:
            json.dump(dict(features=[x[0] for x in feats], schema=sch,
                           data=data, n=len(data) - 1), f)

    def ingest(results):
        Loom.log.append(('ingest', results))
        assert os.path.exists(os.path.join(results, 'ingest',
                                           'encoding.json.gz'))

    def infer_one(results, seed=None, config=None, **kw):
        Loom.log.append(('infer_one', results, seed, config))
        Loom.sample(results, seed)

    def infer(results, sample_count=1, config=None, **kw):
        Loom.log.append(('infer', results, sample_count, config))
        for s in range(sample_count):
            Loom.sample(results, s)

    def load(path):
        with open(path) as f:
            return json.load(f)
    cleanse.force_ascii = force_ascii
    tasks.transform, tasks.ingest = transform, ingest
    tasks.infer_one, tasks.infer = infer_one, infer
    pb2.CrossCat = CrossCat
    cfmt.assignment_stream_load = lambda p: [
        Assignment(r, g) for r, g in load(p)]
    stream.json_load = load
    stream.open_compressed = lambda p, mode='rb': open(p, mode)
    loom.cleanse, loom.tasks, loom.schema_pb2 = cleanse, tasks, pb2
    loom.cFormat, dist.io, dio.stream = cfmt, dio, stream
    sys.modules.update({
        'loom': loom, 'loom.cleanse': cleanse, 'loom.tasks': tasks,
        'loom.schema_pb2': pb2, 'loom.cFormat': cfmt, 'distributions': dist,
        'distributions.io': dio, 'distributions.io.stream': stream})
    from cgpm.crosscat import loomcat
    loomcat.csv = BytesCsv
    # (the modules were bound when loomcat was first imported)
    loomcat.loom = loom
    for name in ('json_load', 'open_compressed'):
        setattr(loomcat, name, getattr(stream, name))
    loomcat.assignment_stream_load = cfmt.assignment_stream_load
    box = tempfile.mkdtemp(prefix='c27-loom-')
    os.environ['CGPM_LOOM_STORE'] = box
    atexit.register(shutil.rmtree, box, True)
    return box


KIND = {'bernoulli': ['boolean'], 'categorical': ['categorical'],
        'poisson': ['count'], 'crp': ['unbounded_categorical']}


def check_project(ctx, results, was, distargs):
    sch = Loom.read(results)
    head, data = sch['data'][0], sch['data'][1:]
    name = {c: 'c%05d' % c for c in was.outputs}
    ctx.true(head == [name[c] for c in was.outputs], 'loom:header',
             'outputs %r, header %r' % (was.outputs, head))
    types_ = {r[0]: r[1] for r in sch['schema'][1:]}
    for c in was.outputs:
        ok = types_.get(name[c]) in KIND.get(was.types[c], ['real'])
        ctx.true(ok, 'loom:types', 'column %s, %s, sent as %r' % (
            c, was.types[c], types_.get(name[c])))
    bad = None
    for r in range(was.n):
        for i, c in enumerate(was.outputs):
            x, y = data[r][i] if r < len(data) else None, was.X[c][r]
            if isnan(y) and x != '' or not isnan(y) and (
                    x in ('', None) or float(x) != y):
                bad = bad or (r, c, x, y)
    ctx.true(len(data) == was.n and bad is None, 'loom:data',
             '%d rows of %d, cell %r' % (len(data), was.n, bad))


def check_loom_import(ctx, st, was, got, where):
    Zv, rows = got
    Zv = {int(k[1:]): v for k, v in Zv.items()}
    mine = {c: st.Zv(c) for c in st.outputs}
    ctx.true(partition(mine) == partition(Zv), 'loom:columns', '%s: columns '
             '%r, loom says %r' % (where, mine, Zv))
    for c in was.outputs:
        ctx.true(partition(dict(st.view_for(c).Zr())) == partition(
            rows[Zv[c]]), 'loom:rows', '%s: rows of %s are %r, loom says %r'
            % (where, c, dict(st.view_for(c).Zr()), rows[Zv[c]]))
    mix.check_state(ctx, st, was.X, where, mech='loom')


LOOM_TYPES = ['bernoulli', 'categorical', 'normal', 'poisson', 'exponential',
              'lognormal', 'geometric']


@scenario(quick=40, thorough=500)
def loom_state(ctx):
    rng = ctx.rng
    box = install_loom(ctx.newrng())
    try:
        sts = [mix.random_state(
            rng, n_rows=int(rng.randint(2, 8)), n_cols=int(rng.randint(1, 6)),
            types=LOOM_TYPES) for _ in range(2)]
        homes = {}
        for turn in range(4):
            i = turn % 2
            st, X, specs = sts[i]
            was = Copy(st, X)
            N = [None, 1, 5][rng.randint(3)]
            kw = {} if N is None else dict(N=N)
            seed = None
            if rng.rand() < .5:
                seed = kw['seed'] = int(rng.randint(0, 5))
            mark = len(Loom.log)
            with contextlib.redirect_stdout(io.StringIO()):
                st.transition_loom(**kw)
            new = Loom.log[mark:]
            ran = [x for x in new if x[0] == 'infer_one']
            ctx.true(len(ran) == 1, 'loom:runs', '%r' % (new,))
            results = ran[0][1]
            homes.setdefault(i, results)
            ctx.true(homes[i] == results, 'loom:project',
                     'state %d moved from %s to %s' % (i, homes[i], results))
            ctx.true(results.startswith(box), 'loom:store', results)
            first = turn < 2
            ctx.true([x[0] for x in new[:-1]] == (
                ['cleanse', 'transform', 'ingest'] if first else []),
                'loom:steps', '%r' % ([x[0] for x in new],))
            check_project(ctx, results, was, None)
            ctx.true(ran[0][2] == (seed or 0) and ran[0][3]['schedule'][
                'extra_passes'] == (N or 1), 'loom:request',
                'N=%r seed=%r: %r' % (N, seed, ran[0]))
            check_loom_import(ctx, st, was,
                              Loom.answers[results, seed or 0],
                              'state %d, turn %d' % (i, turn))
            st.transition(N=1, kernels=['rows', 'column_hypers'],
                          progress=False)
            ctx.case(repr((was.Zv, was.X, Loom.answers[
                results, seed or 0])), len(X) > 1)
        ctx.true(homes[0] != homes[1], 'loom:project',
                 'two states share %s' % homes[0])
    finally:
        shutil.rmtree(box, ignore_errors=True)


@scenario(quick=12, thorough=120)
def loom_engine(ctx):
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    box = install_loom(ctx.newrng())
    try:
        n, m = int(rng.randint(2, 7)), int(rng.randint(1, 5))
        X, specs = mix.gen_table(rng, n, m, LOOM_TYPES, .2)
        cs = list(X)
        e = Engine(np.asarray([X[c] for c in cs], dtype=float).T, outputs=cs,
                   cctypes=[specs[c]['cctype'] for c in cs],
                   distargs=[specs[c]['distargs'] for c in cs],
                   num_states=int(rng.randint(1, 5)), multiprocess=0,
                   rng=np.random.RandomState(rng.randint(2**31 - 1)))
        was = [Copy(s, X) for s in e.states]
        for turn in range(2):
            N = [None, 1, 5][rng.randint(3)]
            mark = len(Loom.log)
            with contextlib.redirect_stdout(io.StringIO()):
                e.transition_loom(**({} if N is None else dict(N=N)))
            new = Loom.log[mark:]
            ran = [x for x in new if x[0] == 'infer']
            ctx.true(len(ran) == 1 and ran[0][2] == len(was) and ran[0][3][
                'schedule']['extra_passes'] == (N or 1), 'loom:request',
                'N=%r: %r' % (N, ran))
            results = ran[0][1]
            check_project(ctx, results, was[0], None)
            for i, st in enumerate(e.states):
                check_loom_import(ctx, st, was[i], Loom.answers[results, i],
                                  'state %d, turn %d' % (i, turn))
            ctx.case(repr((N, X, Loom.answers[results, 0])), len(was) > 1)
        for kw in (dict(S=3), dict(kernels=['rows']), dict(checkpoint=2),
                   dict(progress=True)):
            mark = len(Loom.log)
            ctx.raises(ValueError, lambda: e.transition_loom(N=1, **kw),
                       'loom:refused', repr(kw))
            ctx.true(len(Loom.log) == mark, 'loom:refused', 'loom ran')
    finally:
        shutil.rmtree(box, ignore_errors=True)
