"""C16: an engine answers for its states: one result per state, in order."""

import copy
import inspect
import itertools
import math
import os
import pickle
import tempfile

import numpy as np

import mix
import nets
import queries as Q
from mix import isnan, lse
from vlib import Inconclusive, chi2_pvalue, scenario

RULE = ('a case is one engine call judged against what the selected states '
        'alone answer, receive or become')

TECHNIQUE = ('states of the engine replaced by recording stand-ins (event '
             'log across worker processes) or shadowed by deep copies that '
             'are driven alone; exact tables for likelihood weights')

ASSUMPTIONS = ['selections contain distinct state numbers']


def State():
    from cgpm.crosscat.state import State
    return State


def new_engine(ctx, num_states=None, n=None, n_cols=None, types=None,
               missing=None, transition=1, **kw):
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    n = n or int(rng.randint(3, 7))
    n_cols = n_cols or int(rng.randint(2, 5))
    X, specs = mix.gen_table(
        rng, n, n_cols, types, rng.choice([0., .2])
        if missing is None else missing)
    e = Engine(np.asarray([X[c] for c in X], dtype=float).T,
               num_states=num_states or (int(rng.randint(1, 6))
                                         if ctx.index % 8 else
                                         int(rng.randint(11, 14))),
               outputs=list(X), cctypes=[specs[c]['cctype'] for c in X],
               distargs=[specs[c]['distargs'] for c in X],
               rng=ctx.newrng(), multiprocess=0, **kw)
    if transition:
        e.transition(N=transition, progress=False, multiprocess=0)
    return e, X, specs


def selection(rng, n):
    """statenos argument, and the states it selects"""
    k = rng.randint(5)
    if k == 0:
        return None, list(range(n))
    if k == 1:
        return [], []
    sel = [int(i) for i in rng.permutation(n)[:1 + rng.randint(n)]]
    if k == 2:
        return tuple(sel), sel
    if k == 3:
        return list(range(n)), list(range(n))
    return list(sel), sel


# -------------------------------------------------------------- forwarding ---

class Probe(object):
    """Stands in for a state: answers with its name and what it was asked."""

    def __init__(self, tag, log):
        self.tag, self.log = tag, log
        self.rng = np.random.RandomState(tag)
        self.done = []

    def is_composite(self):
        return False

    def __getattr__(self, name):
        if name.startswith('__') or name in ('tag', 'log', 'done'):
            raise AttributeError(name)
        sig = inspect.signature(getattr(State(), name))

        def call(*a, **kw):
            b = sig.bind(self, *a, **kw)
            args = {k: v for k, v in b.arguments.items()
                    if k not in ('self',)}
            # an argument left at its default is an argument not given
            args = {k: v for k, v in args.items()
                    if not (v is sig.parameters[k].default)}
            self.done.append((name, args))
            if self.log:
                fd = os.open(self.log, os.O_WRONLY | os.O_APPEND)
                os.write(fd, ('%d %s\n' % (self.tag, name)).encode())
                os.close(fd)
            return (self.tag, name, args)
        return call


def plain(x):
    return Q.norm(x)


READS = {
    'logpdf': lambda r: dict(rowid=5, targets={0: 1.}, constraints={1: 2.},
                             inputs={2: 3.}, accuracy=7),
    'logpdf_bulk': lambda r: dict(
        rowids=[1, 2], targets_list=[{0: 1.}, {1: 1.}],
        constraints_list=[{2: 0.}, {}], inputs_list=[{}, {3: 1.}]),
    'logpdf_score': lambda r: {},
    'logpdf_likelihood': lambda r: {},
    'simulate': lambda r: dict(rowid=4, targets=[0], constraints={1: 2.},
                               inputs={2: 3.}, N=6, accuracy=8),
    'simulate_bulk': lambda r: dict(
        rowids=[1, 2], targets_list=[[0], [1]],
        constraints_list=[{2: 0.}, {}], inputs_list=[{}, {3: 1.}],
        Ns=[2, 3]),
    'mutual_information': lambda r: dict(
        col0=[0], col1=[1], constraints={2: None}, T=3, N=4, progress=True),
    'dependence_probability': lambda r: dict(col0=0, col1=3),
    'dependence_probability_pairwise': lambda r: dict(colnos=[2, 0]),
    'row_similarity': lambda r: dict(row0=3, row1=1, cols=[0, 2]),
    'row_similarity_pairwise': lambda r: dict(cols=[1]),
    'relevance_probability': lambda r: dict(
        rowid_target=1, rowid_query=[2, 3], col=0, hypotheticals=[{0: 1}]),
}

SELECTIVE = {
    'transition': lambda r: dict(
        N=2, S=3., kernels=['rows'], rowids=[1], cols=[2], views=[0],
        progress=False, checkpoint=4),
    'transition_lovecat': lambda r: dict(
        N=2, S=3., kernels=['row_partition_assignments'], rowids=[1],
        cols=[2], progress=False, checkpoint=4),
    'transition_foreign': lambda r: dict(
        N=2, S=3., cols=[60], progress=False),
}

UPDATES = {
    'incorporate_dim': lambda r: dict(
        T=[1., 2.], outputs=[9], inputs=[8], cctype='normal',
        distargs={'k': 2}, v=0),
    'unincorporate_dim': lambda r: dict(col=3),
    'incorporate': lambda r: dict(
        rowid=9, observation={0: 1.}, inputs={1: 2.}),
    'incorporate_bulk': lambda r: dict(
        rowids=[9, 10], observations=[{0: 1.}, {1: 0.}], inputs=[{}, {}]),
    'unincorporate': lambda r: dict(rowid=4),
    'force_cell': lambda r: dict(rowid=4, observation={0: 1.}),
    'force_cell_bulk': lambda r: dict(rowids=[4, 5],
                                      queries=[{0: 1.}, {1: 2.}]),
    'update_cctype': lambda r: dict(col=2, cctype='poisson',
                                    distargs={'k': 1}),
}


def subset(rng, args, must=()):
    """Drop some of the optional arguments."""
    return {k: v for k, v in args.items() if k in must or rng.rand() < .75}


@scenario(quick=60, thorough=600)
def forwarding(ctx):
    """Every operation reaches exactly the selected states, once, with the
    arguments given, and the answers come back in the order selected."""
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    n = int(rng.randint(1, 14))
    for name in sorted(READS) + sorted(SELECTIVE) + sorted(UPDATES):
        if ctx.index % 2 and rng.rand() < .5:
            continue
        gen = READS.get(name) or SELECTIVE.get(name) or UPDATES[name]
        sig = inspect.signature(getattr(State(), name))
        esig = inspect.signature(getattr(Engine, name))
        must = [p for p, v in sig.parameters.items()
                if v.default is inspect.Parameter.empty] + [
            p for p, v in esig.parameters.items()
            if v.default is inspect.Parameter.empty]
        args = subset(rng, gen(rng), must)
        selective = name in READS or name in SELECTIVE
        statenos, sel = selection(rng, n) if selective else (
            None, list(range(n)))
        mp = int(rng.rand() < .4)
        fd, path = tempfile.mkstemp(prefix='c16-')
        os.close(fd)
        try:
            e = Engine.__new__(Engine)
            e.rng = np.random.RandomState(3)
            e.states = [Probe(t, path) for t in range(n)]
            kw = dict(args, multiprocess=mp)
            if selective and statenos is not None:
                kw['statenos'] = statenos
            given = copy.deepcopy(args)
            out = getattr(e, name)(**kw)
            with open(path) as f:
                ev = [ln.split() for ln in f]
        finally:
            os.unlink(path)
        desc = dict(op=name, states=n, statenos=statenos, multiprocess=mp,
                    args=args)
        ctx.case(desc, nontrivial=n > 1)
        ctx.count('calls observed at states', len(ev))
        got = [int(t) for t, _ in ev]
        ctx.true(sorted(got) == sorted(sel), 'forward:%s:states' % name,
                 '%s of states %r reached %r' % (name, sel, sorted(got)),
                 **desc)
        ctx.true(all(m == name for _, m in ev), 'forward:%s:method' % name,
                 '%s called %r' % (name, {m for _, m in ev}), **desc)
        ctx.true(plain(args) == plain(given), 'forward:%s:mutated' % name,
                 '%s changed its arguments: %r' % (name, args), **desc)
        if name in READS:
            ctx.true(isinstance(out, list) and len(out) == len(sel),
                     'forward:%s:count' % name,
                     '%s of %r returned %r' % (name, sel, out), **desc)
            ctx.true([o[0] for o in out] == sel, 'forward:%s:order' % name,
                     '%s of %r answered in order %r' % (
                         name, sel, [o[0] for o in out]), **desc)
            seen = [o[2] for o in out]
        else:
            # statenos says which; the states must be where they were
            ctx.true([s.tag for s in e.states] == list(range(n)),
                     'forward:%s:places' % name,
                     'after %s the states are %r' % (
                         name, [s.tag for s in e.states]), **desc)
            seen = []
            for t, s in enumerate(e.states):
                want = int(t in sel)
                ctx.true(len(s.done) == want, 'forward:%s:update' % name,
                         'state %d got %r from %s of %r' % (
                             t, s.done, name, sel), **desc)
                seen += [d[1] for d in s.done]
        defaults = {p: v.default for p, v in esig.parameters.items()}
        for got in seen:
            # (what the caller left out may take the engine's default)
            got = {k: v for k, v in got.items() if v is not None and (
                k in given or k not in defaults or v != defaults[k])}
            d = mix.diff(plain({k: v for k, v in given.items()
                                if v is not None}), plain(got), 'args', 0.)
            ctx.true(d is None, 'forward:%s:arguments' % name,
                     '%s forwarded other arguments: %s' % (name, d), **desc)
        if ctx.violations:
            return


# ---------------------------------------------------------------- shadowing ---

@scenario(quick=40, thorough=400)
def answers(ctx):
    """Deterministic queries of real engines equal those of each state."""
    rng = ctx.rng
    e, X, specs = new_engine(ctx)
    n = len(e.states)
    if rng.rand() < .3:
        # composed models
        first = copy.deepcopy(e.states[0])
        Q.hook_models(rng, first, X, specs)
        models = [[copy.deepcopy(m) for _ in range(n)]
                  for m in first.hooked_cgpms.values()]
        for ms in models:
            e.compose_cgpm(ms, multiprocess=int(rng.rand() < .5))
    gen = Q.StateQueries(rng, e.states[0], specs)
    det = ('logpdf', 'logpdf_bulk', 'logpdf_score', 'logpdf_likelihood',
           'dependence_probability', 'dependence_probability_pairwise',
           'row_similarity', 'row_similarity_pairwise',
           'relevance_probability')
    done = 0
    for _ in range(60):
        name, args, kw = gen.good()
        if name not in det:
            continue
        if name.startswith('logpdf') and e.states[0].is_composite() and \
                name not in ('logpdf_score', 'logpdf_likelihood'):
            continue            # sampled
        if name == 'relevance_probability' and kw.get('hypotheticals'):
            continue
        statenos, sel = selection(rng, n)
        twin = copy.deepcopy(e.states)
        kk = dict(kw, multiprocess=int(rng.rand() < .4))
        if statenos is not None:
            kk['statenos'] = statenos
        try:
            want = [getattr(twin[s], name)(*copy.deepcopy(args),
                                           **copy.deepcopy(kw)) for s in sel]
        except Exception as err:
            ctx.raises(Exception, lambda: getattr(e, name)(*args, **kk),
                       'answers:refused', '%s%r, refused by a state alone '
                       '(%s)' % (name, args, err))
            continue
        got = getattr(e, name)(*args, **kk)
        ctx.case(dict(op=name, args=args, statenos=statenos, states=n),
                 nontrivial=len({repr(Q.norm(w)) for w in want}) > 1)
        d = mix.diff(Q.norm(want), Q.norm(got), name, 1e-9)
        ctx.true(d is None and len(got) == len(sel), 'answers:' + name,
                 '%s of states %r: %s' % (name, sel, d), args=args,
                 statenos=statenos)
        done += 1
        if ctx.violations or done > 14:
            return


@scenario(quick=40, thorough=400)
def updates(ctx):
    """Updates leave each selected state as it would be alone, and the others
    as they were."""
    rng = ctx.rng
    e, X, specs = new_engine(ctx)
    n = len(e.states)
    rows = e.states[0].n_rows()
    cols = list(X)
    val = lambda c: mix.gen_new_value(rng, specs[c])
    for _ in range(5):
        rows = e.states[0].n_rows()
        k = rng.randint(7)
        selective = False
        if k <= 1:
            op, kw = 'transition', dict(
                N=int(rng.randint(1, 3)), progress=False)
            if rng.rand() < .5:
                kw['kernels'] = [['rows'], ['columns'], ['column_hypers'],
                                 ['alpha', 'view_alphas']][rng.randint(4)]
            selective = True
        elif k == 2:
            op, kw = 'incorporate', dict(
                rowid=rows, observation={c: val(c) for c in cols
                                         if rng.rand() < .8}
                or {cols[0]: val(cols[0])})
        elif k == 3:
            if rows <= 2:
                continue
            op, kw = 'unincorporate', dict(rowid=rows - 1)
            Xs = e.states[0].X
            if any(all(isnan(x) for x in list(Xs[c])[:-1]) for c in Xs):
                continue
        elif k == 4:
            miss = [(r, c) for c in cols for r in range(rows)
                    if isnan(e.states[0].X[c][r])]
            if not miss:
                continue
            r, c = miss[rng.randint(len(miss))]
            op, kw = 'force_cell', dict(rowid=r, observation={c: val(c)})
        elif k == 5:
            c = max(cols + [40]) + 1
            specs[c] = mix.gen_spec(rng)
            cols.append(c)
            op, kw = 'incorporate_dim', dict(
                T=mix.gen_column(rng, specs[c], rows), outputs=[c],
                cctype=specs[c]['cctype'], distargs=specs[c]['distargs'])
        else:
            if len(cols) < 3:
                continue
            c = cols.pop(rng.randint(len(cols)))
            op, kw = 'unincorporate_dim', dict(col=c)
        statenos, sel = selection(rng, n) if selective else (
            None, list(range(n)))
        twin = copy.deepcopy(e.states)
        untouched = {s: Q.digest_state(copy.deepcopy(e.states[s]))
                     for s in range(n) if s not in sel}
        for s in sel:
            getattr(twin[s], op)(**copy.deepcopy(kw))
        kk = dict(kw, multiprocess=int(rng.rand() < .4))
        if statenos is not None:
            kk['statenos'] = statenos
        getattr(e, op)(**kk)
        ctx.case(dict(op=op, kw=kw, statenos=statenos, states=n),
                 nontrivial=n > 1)
        ctx.true(len(e.states) == n, 'updates:count', '%s left %d of %d '
                 'states' % (op, len(e.states), n))
        for s in range(n):
            want = untouched[s] if s in untouched else \
                Q.digest_state(twin[s])
            got = Q.digest_state(copy.deepcopy(e.states[s]))
            d = mix.diff(want, got)
            ctx.true(d is None, 'updates:%s:%s' % (
                op, 'other' if s in untouched else 'selected'),
                'state %d after %s of states %r: %s' % (s, op, sel, d),
                kw=kw, statenos=statenos)
        if ctx.violations:
            return


@scenario(quick=24, thorough=240)
def lifecycle(ctx):
    """Building, adding, dropping, altering and composing."""
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    n_cols = int(rng.randint(3, 6))
    kw = {}
    mode = rng.randint(3)
    cols = list(range(n_cols))
    if mode == 1:
        kw['Cd'] = [[0, 1]]
    elif mode == 2:
        kw['Ci'] = [(0, 2), (1, 2)][:1 + rng.randint(2)]
    rows = int(rng.randint(3, 7))
    if mode == 0 and rng.rand() < .5:
        cols = [int(c) for c in rng.permutation(30)[:n_cols]]
    X, specs = mix.gen_table(rng, rows, n_cols, missing=.1, outputs=cols)
    A = np.asarray([X[c] for c in X], dtype=float).T
    num = int(rng.randint(1, 6))
    mp = lambda: int(rng.rand() < .5)
    e = Engine(A, num_states=num, outputs=cols,
               cctypes=[specs[c]['cctype'] for c in cols],
               distargs=[specs[c]['distargs'] for c in cols],
               rng=ctx.newrng(), multiprocess=mp(), **kw)

    def conforms(s, what):
        ctx.true(list(s.outputs) == cols, 'lifecycle:outputs',
                 '%s: outputs %r, not %r' % (what, s.outputs, cols))
        ctx.true(all(s.dim_for(c).cctype == specs[c]['cctype']
                     for c in cols), 'lifecycle:types',
                 '%s: types %r' % (what, s.cctypes()))
        d = mix.diff({c: [float(x) for x in X[c]] for c in cols},
                     {c: [float(x) for x in s.X[c]] for c in s.X})
        ctx.true(d is None, 'lifecycle:data', '%s: data: %s' % (what, d))
        z = s.Zv()
        for block in kw.get('Cd', []):
            ctx.true(len({z[c] for c in block}) == 1, 'lifecycle:Cd',
                     '%s: %r not together in %r' % (what, block, z))
        for a, b in kw.get('Ci', []):
            ctx.true(z[a] != z[b], 'lifecycle:Ci',
                     '%s: %r, %r together in %r' % (what, a, b, z))
        mix.check_state(ctx, s, X, what, 'lifecycle')

    def digests():
        return [Q.digest_state(copy.deepcopy(s)) for s in e.states]

    def unchanged(before, keep, what):
        now = digests()
        for i, j in keep:
            d = mix.diff(before[i], now[j])
            ctx.true(d is None, 'lifecycle:' + what, 'state %d, now %d, '
                     'after %s: %s' % (i, j, what, d))

    ctx.true(e.num_states() == num == len(e.states), 'lifecycle:count',
             '%d states of %d' % (e.num_states(), num))
    for s in e.states:
        conforms(s, 'new engine')
    streams = [repr(s.rng.get_state()) for s in e.states]
    ctx.true(len(set(streams)) == len(streams), 'lifecycle:streams',
             'states share a stream')
    ctx.case(dict(new=num, constraints=kw, rows=rows), nontrivial=num > 1)

    def change():
        """An update of all the states: states added later follow it."""
        n = e.states[0].n_rows()
        holes = [(r, c) for c in cols for r in range(n) if isnan(X[c][r])]
        k = rng.randint(5)
        if k == 0 and holes:
            r, c = holes[rng.randint(len(holes))]
            x = mix.gen_new_value(rng, specs[c])
            e.force_cell(r, {c: x}, multiprocess=mp())
            X[c] = list(X[c])
            X[c][r] = x
            return 'force_cell %r' % ((r, c),)
        if k == 1:
            obs = {c: mix.gen_new_value(rng, specs[c]) for c in cols}
            if n > 3:
                # the row is replaced: as many rows as before
                e.unincorporate(n - 1, multiprocess=mp())
                for c in cols:
                    X[c] = list(X[c])[:-1]
            e.incorporate(len(X[cols[0]]), dict(obs), multiprocess=mp())
            for c in cols:
                X[c] = list(X[c]) + [obs[c]]
            return 'row replaced'
        if k == 2:
            for c in cols:
                if specs[c]['cctype'] == 'bernoulli':
                    e.update_cctype(c, 'categorical', {'k': 2},
                                    multiprocess=mp())
                    specs[c] = dict(specs[c], cctype='categorical',
                                    distargs={'k': 2}, hypers=None)
                    return 'type of %r' % (c,)
        if k == 3 and mode == 0:
            c = max(cols) + 3
            T = [float(x) for x in rng.normal(0, 1, n)]
            e.incorporate_dim(T, [c], cctype='normal', multiprocess=mp())
            cols.append(c)
            X[c] = list(T)
            specs[c] = dict(cctype='normal', distargs=None, hypers=None)
            return 'column %r added' % (c,)
        if k == 4 and mode == 0 and len(cols) > 2:
            c = cols[rng.randint(len(cols))]
            e.unincorporate_dim(c, multiprocess=mp())
            cols.remove(c)
            del X[c]
            return 'column %r removed' % (c,)

    for _ in range(5):
        k = rng.randint(5)
        if k == 4:
            what = change()
            for s in e.states:
                conforms(s, str(what))
            ctx.case(dict(change=what, states=e.num_states()), bool(what))
            if rng.rand() < .3:
                continue
            k = 0
        before = digests()
        N = e.num_states()
        if k == 0:
            m = int(rng.randint(1, 4))
            e.add_state(count=m, multiprocess=mp())
            ctx.true(e.num_states() == N + m, 'lifecycle:add',
                     '%d states after adding %d to %d' % (
                         e.num_states(), m, N))
            unchanged(before, [(i, i) for i in range(N)], 'add_state')
            for s in e.states[N:]:
                conforms(s, 'added state')
            streams = [repr(s.rng.get_state()) for s in e.states]
            ctx.true(len(set(streams)) == len(streams),
                     'lifecycle:streams', 'added states share a stream')
            ctx.case(dict(add=m, to=N, constraints=kw))
        elif k == 1 and N > 1:
            i = int(rng.randint(N))
            e.drop_state(i)
            ctx.true(e.num_states() == N - 1, 'lifecycle:drop',
                     '%d states after dropping 1 of %d' % (
                         e.num_states(), N))
            unchanged(before, [(a, a - (a > i)) for a in range(N)
                               if a != i], 'drop_state')
            ctx.case(dict(drop=i, of=N))
        elif k == 2:
            i = int(rng.randint(N))
            ctx.true(e.get_state(i) is e.states[i], 'lifecycle:get',
                     'get_state(%d)' % i)
        else:
            statenos, sel = selection(rng, N)

            def first(st):
                st.diagnostics['touched'].append(len(
                    st.diagnostics['touched']))
                return st

            def second(st):
                st.diagnostics['touched'].append(10 + len(
                    st.diagnostics['touched']))
                return st

            if rng.rand() < .5:
                # what counts is the state returned
                in_place = first, second
                first, second = [
                    (lambda f: lambda st: f(copy.deepcopy(st)))(f)
                    for f in in_place]
            was = [list(s.diagnostics['touched']) for s in e.states]
            e.alter([first, second], multiprocess=mp(),
                    **({} if statenos is None else dict(statenos=statenos)))
            for i, s in enumerate(e.states):
                w = was[i] + ([len(was[i]), 11 + len(was[i])]
                              if i in sel else [])
                ctx.true(list(s.diagnostics['touched']) == w,
                         'lifecycle:alter', 'state %d after alter(%r): %r, '
                         'expected %r' % (i, sel,
                                          s.diagnostics['touched'], w))
            ctx.case(dict(alter=statenos, of=N))
    # compose: the i-th model goes to the i-th state
    N = e.num_states()
    ids = [int(i) for i in rng.permutation(N)]
    models = [nets.Cpt([60], [], {60: N + 1},
                       {(): [float(i == ids[s]) for i in range(N + 1)]})
              for s in range(N)]
    streams = [s.rng.get_state() for s in e.states]
    e.compose_cgpm(models, multiprocess=mp())
    for s, st in enumerate(e.states):
        ms = list(st.hooked_cgpms.values())
        ctx.true(len(ms) == 1 and ms[0].mass({60: ids[s]}, {}) == 1.,
                 'lifecycle:compose', 'state %d got another model' % s)
        ctx.true(ms[0] is not models[s], 'lifecycle:compose-alias',
                 'the composed model is the caller\'s')
    got = e.logpdf(None, {60: ids[0]}, multiprocess=mp())
    want = [0. if ids[s] == ids[0] else -float('inf') for s in range(N)]
    ctx.true(mix.diff(want, got) is None, 'lifecycle:compose-answers',
             'composed: %r, expected %r' % (got, want))
    ctx.case(dict(compose=N))
    # members are added to plain states only, again after decomposition
    ctx.true(all(s.is_composite() for s in e.states), 'lifecycle:composite',
             'states with a composed model say they have none')
    try:
        e.add_state(count=1, multiprocess=mp())
        ctx.fail('lifecycle:add-composite', 'a state was added to an engine '
                 'of composed models')
    except Exception:
        ctx.true(e.num_states() == N, 'lifecycle:add-composite',
                 '%d states after a refused addition to %d' % (
                     e.num_states(), N))

    def release(s):
        for token in list(s.hooked_cgpms):
            s.decompose_cgpm(token)
        return s
    e.alter([release], multiprocess=mp())
    ctx.true(not any(s.is_composite() for s in e.states),
             'lifecycle:decomposed', 'states without a composed model say '
             'they have one')
    e.add_state(count=1, multiprocess=mp())
    ctx.true(e.num_states() == N + 1, 'lifecycle:add',
             '%d states after adding 1 to %d' % (e.num_states(), N))


# --------------------------------------------------------------- integration ---

def weighted_engine(ctx, exogenous):
    """Engine, the query kit, and per-state exact weights."""
    rng = ctx.rng
    e, X, specs = new_engine(
        ctx, num_states=int(rng.randint(2, 6)), types=['bernoulli',
                                                       'categorical'],
        missing=0.)
    if exogenous:
        # state s carries its own table, of an input that nothing provides
        card = {60: 2, 70: 3}
        models = [nets.Cpt([60], [70], card,
                           nets.random_table(rng, [60], [70], card))
                  for _ in e.states]
        e.compose_cgpm(models, multiprocess=0)
    return e, X, specs


@scenario(quick=40, thorough=400)
def integrate(ctx):
    rng = ctx.rng
    exo = bool(rng.rand() < .4)
    e, X, specs = weighted_engine(ctx, exo)
    if not hasattr(e, '_likelihood_weighted_integrate'):
        ctx.count('no method to weigh with', 1)
        return
    n = len(e.states)
    cols = list(X)
    for _ in range(4):
        statenos, sel = selection(rng, n)
        if not sel:
            continue
        inputs = None
        if exo:
            inputs = {70: int(rng.randint(3))}
            constraints = {60: int(rng.randint(2))}
            if rng.rand() < .2:
                constraints = {}
            want_w = [math.log(next(iter(
                e.states[s].hooked_cgpms.values())).mass(
                    constraints, inputs)) if constraints else 0.
                for s in sel]
        else:
            p = [cols[i] for i in rng.permutation(len(cols))]
            constraints = {c: mix.gen_new_value(rng, specs[c])
                           for c in p[:rng.randint(0, len(p))]}
            want_w = [mix.RefState(e.states[s], X).logpdf(constraints, {})
                      if constraints else 0. for s in sel]
        ld = [float(x) for x in np.log(rng.uniform(.01, 2., len(sel)))]
        if rng.rand() < .3:
            ld[rng.randint(len(sel))] = -float('inf')
        kw = dict(multiprocess=int(rng.rand() < .3))
        if statenos is not None:
            kw['statenos'] = statenos
        given = list(ld)
        got = e._likelihood_weighted_integrate(
            ld, None, constraints=constraints, inputs=inputs, **kw)
        z = lse(want_w)
        want = lse([a + w for a, w in zip(given, want_w)]) - z
        ctx.case(dict(integrate=constraints, inputs=inputs,
                      statenos=statenos, logpdfs=given),
                 nontrivial=len(sel) > 1 and bool(constraints))
        ctx.close(got, want, 'integrate', 'likelihood weighted density of '
                  '%r under %r' % (given, want_w), 1e-6, 1e-6,
                  constraints=constraints, inputs=inputs, statenos=statenos)
        ctx.true(ld == given, 'integrate:mutated', 'argument changed')
        # too many or too few densities for the selection
        bad = ld + [0.]
        ctx.raises(AssertionError, lambda: e._likelihood_weighted_integrate(
            bad, None, constraints=constraints, inputs=inputs, **kw),
            'integrate:length', 'one density too many')
        if ctx.violations:
            return


@scenario(quick=40, thorough=400)
def resample(ctx):
    rng = ctx.rng
    exo = bool(rng.rand() < .4)
    e, X, specs = weighted_engine(ctx, exo)
    if not hasattr(e, '_likelihood_weighted_resample'):
        ctx.count('no method to weigh with', 1)
        return
    n = len(e.states)
    cols = list(X)
    statenos, sel = selection(rng, n)
    if not sel:
        statenos, sel = None, list(range(n))
    inputs = None
    if exo:
        inputs = {70: int(rng.randint(3))}
        constraints = {60: int(rng.randint(2))}
        want_w = [math.log(next(iter(
            e.states[s].hooked_cgpms.values())).mass(
                constraints, inputs)) for s in sel]
    else:
        p = [cols[i] for i in rng.permutation(len(cols))]
        constraints = {c: mix.gen_new_value(rng, specs[c])
                       for c in p[:rng.randint(0, len(p))]}
        want_w = [mix.RefState(e.states[s], X).logpdf(constraints, {})
                  if constraints else 0. for s in sel]
    z = lse(want_w)
    probs = {s: math.exp(w - z) for s, w in zip(sel, want_w)}
    kw = dict(multiprocess=0)
    if statenos is not None:
        kw['statenos'] = statenos
    picks = {}

    def test(N):
        per = 10
        count, first = {}, {}
        for _ in range(max(1, N // per)):
            samples = [[(s, i) for i in range(per)] for s in sel]
            out = e._likelihood_weighted_resample(
                samples, None, constraints=constraints, inputs=inputs, **kw)
            ctx.count('resampled', len(out))
            if len(out) != per or len(set(out)) != per or not all(
                    s in probs and 0 <= i < per for s, i in out):
                ctx.fail('resample:members', 'resampled %r from %r' % (
                    out, samples))
                return 1.
            for s, i in out:
                count[s] = count.get(s, 0) + 1
                picks[i] = picks.get(i, 0) + 1
        return chi2_pvalue(count, probs)
    ctx.case(dict(resample=constraints, inputs=inputs, statenos=statenos,
                  probs=probs), nontrivial=len(sel) > 1)
    ctx.stat('resample:weights', 'states drawn with other weights than %r'
             % (probs,), test, n=400, probs=probs)


# -------------------------------------------------------------- simulation ---

@scenario(quick=24, thorough=240)
def simulations(ctx):
    """Samples of each selected state follow that state's own distribution
    (told apart by composing state-specific constants), in order, with fresh
    randomness at every call and in every state."""
    rng = ctx.rng
    e, X, specs = new_engine(ctx, num_states=int(rng.randint(2, 6)),
                             types=['normal', 'bernoulli'], missing=0.)
    n = len(e.states)
    e.compose_cgpm([nets.Cpt([60], [], {60: n}, {(): [
        float(i == s) for i in range(n)]}) for s in range(n)],
        multiprocess=0)
    norm = [c for c in X if specs[c]['cctype'] == 'normal']
    seen = set()
    for _ in range(4):
        statenos, sel = selection(rng, n)
        kw = dict(multiprocess=int(rng.rand() < .5))
        if statenos is not None:
            kw['statenos'] = statenos
        N = [None, 1, 3][rng.randint(3)]
        t = [60] + ([norm[0]] if norm else [])
        bulk = rng.rand() < .4
        if bulk:
            # (an unlimited count is one sample per query)
            Ns = [int(rng.randint(1, 4)) for _ in range(2)]
            out = e.simulate_bulk([None, None], [t, t], Ns=Ns, **kw)
            ok = len(out) == len(sel) and all(
                len(o) == 2 and [len(q) for q in o] == Ns for o in out)
            flat = [[x for q in o for x in q] for o in out] if ok else []
        else:
            out = e.simulate(None, t, N=N, **kw)
            ok = len(out) == len(sel) and all(
                (isinstance(o, dict) if N is None else len(o) == N)
                for o in out)
            flat = [[o] if N is None else list(o) for o in out] if ok else []
        ctx.case(dict(simulate=t, N=N, bulk=bool(bulk), statenos=statenos))
        ctx.true(ok, 'simulations:shape', 'simulate of %r, N=%r: %r' % (
            sel, N, out), statenos=statenos)
        for s, xs in zip(sel, flat):
            ctx.true(all(x[60] == s and set(x) == set(t) for x in xs),
                     'simulations:order', 'samples of state %d: %r' % (
                         s, xs), statenos=statenos)
            if norm:
                vals = [x[norm[0]] for x in xs]
                rep = [v for v in vals if v in seen]
                ctx.true(not rep and len(set(vals)) == len(vals),
                         'simulations:repeated', 'state %d repeated samples '
                         '%r' % (s, rep or vals))
                seen |= set(vals)
        if ctx.violations:
            return


# -------------------------------------------------------------------- bulk ---

@scenario(quick=30, thorough=300)
def bulk(ctx):
    """A bulk call is the sequence of its single calls, alone and through an
    engine, with and without the optional lists."""
    rng = ctx.rng
    e, X, specs = new_engine(ctx, num_states=int(rng.randint(1, 4)),
                             missing=.3)
    cols = list(X)
    val = lambda c: mix.gen_new_value(rng, specs[c])

    def queries(st):
        rows, ts, cs = [], [], []
        for _ in range(int(rng.randint(1, 5))):
            p = [cols[i] for i in rng.permutation(len(cols))]
            r = [None, -1, st.n_rows(), int(rng.randint(st.n_rows()))][
                rng.randint(4)]
            t = {c: val(c) for c in p[:1 + rng.randint(len(p))]}
            if r is not None and 0 <= r < st.n_rows():
                t = {c: x for c, x in t.items() if isnan(st.X[c][r])}
                if not t:
                    r, t = None, {p[0]: val(p[0])}
            rest = [c for c in p if c not in t]
            if r is not None and 0 <= r < st.n_rows():
                rest = [c for c in rest if isnan(st.X[c][r])]
            rows.append(r)
            ts.append(t)
            cs.append({c: val(c) for c in rest if rng.rand() < .5})
        return rows, ts, cs

    for _ in range(4):
        st = e.states[rng.randint(len(e.states))]
        rows, ts, cs = queries(st)
        none = rng.rand() < .5
        opt = {} if none else dict(
            constraints_list=cs, inputs_list=[None] * len(rows))
        if none:
            cs = [{}] * len(rows)
        mp = int(rng.rand() < .2)
        want = [[s.logpdf(r, dict(t), dict(c))
                 for r, t, c in zip(rows, ts, cs)] for s in e.states]
        got = e.logpdf_bulk(rows, ts, multiprocess=mp, **opt)
        d = mix.diff(Q.norm(want), Q.norm(got), 'logpdf_bulk', 1e-9)
        ctx.true(d is None, 'bulk:logpdf', 'logpdf_bulk(%r, %r, %r): %s' % (
            rows, ts, opt, d))
        Ns = None if rng.rand() < .5 else [
            int(rng.randint(1, 4)) for _ in rows]
        seed = int(rng.randint(2**31 - 1))
        tl = [list(t) for t in ts]
        a, b = copy.deepcopy(st), copy.deepcopy(st)
        a.rng.seed(seed)
        b.rng.seed(seed)
        got = a.simulate_bulk(rows, tl, Ns=Ns, **opt)
        want = [b.simulate(r, t, dict(c), None, k) for r, t, c, k in zip(
            rows, tl, cs, Ns or [1] * len(rows))]
        ctx.true(len(got) == len(rows) and all(
            isinstance(g, list) and len(g) == k and all(
                set(x) == set(t) for x in g)
            for g, t, k in zip(got, tl, Ns or [1] * len(rows))),
            'bulk:shape', 'simulate_bulk(%r, %r, Ns=%r): %r' % (
                rows, tl, Ns, got))
        d = mix.diff(Q.norm(want), Q.norm(got), 'simulate_bulk', 1e-9)
        ctx.true(d is None, 'bulk:simulate', 'simulate_bulk(%r, %r, %r, %r): '
                 '%s' % (rows, tl, opt, Ns, d))
        got = e.simulate_bulk(rows, tl, Ns=Ns, multiprocess=mp, **opt)
        ctx.true(len(got) == len(e.states) and all(
            [len(g) for g in per] == (Ns or [1] * len(rows)) for per in got),
            'bulk:engine-shape', '%r' % (got,))
        ctx.case(dict(rows=rows, ts=ts, cs=cs, none=none, Ns=Ns))
        # updates: the data afterwards is fixed, clusters are drawn
        n = e.states[0].n_rows()
        if rng.rand() < .5:
            k = int(rng.randint(1, 4))
            ids = list(range(n, n + k))
            obs = [{c: val(c) for c in cols if rng.rand() < .7} or
                   {cols[0]: val(cols[0])} for _ in ids]
            keep = copy.deepcopy(obs)
            e.incorporate_bulk(ids, obs, multiprocess=mp)
            ctx.true(obs == keep, 'bulk:arguments', 'observations changed')
            for c in cols:
                X[c] = list(X[c]) + [o.get(c, float('nan')) for o in keep]
        else:
            holes = [(r, c) for c in cols for r in range(n)
                     if isnan(X[c][r])]
            if not holes:
                continue
            pick = [holes[i] for i in rng.permutation(len(holes))[:3]]
            rows = [r for r, c in pick]
            qs = [{c: val(c)} for r, c in pick]
            e.force_cell_bulk(rows, copy.deepcopy(qs), multiprocess=mp)
            for r, q in zip(rows, qs):
                for c, x in q.items():
                    X[c] = list(X[c])
                    X[c][r] = x
        for s in e.states:
            mix.check_state(ctx, s, X, 'after a bulk update', 'bulk')
        if ctx.violations:
            return
