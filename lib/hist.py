"""Random operation histories over states and views, with the caller's own copy
of the data kept beside them."""

import copy
import io
import json
import math
import pickle

import numpy as np

import mix
import prims
from mix import NAN, isnan


KERNELS = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows',
           'columns']


class StateHistory(object):

    def __init__(self, ctx, state, X, specs, ops=None, new_types=None):
        self.ctx, self.state, self.specs = ctx, state, dict(specs)
        self.X = {c: list(xs) for c, xs in X.items()}
        self.rng = ctx.rng
        self.log = []
        self.new_types = new_types or mix.MIXED
        self.ops = ops or [
            ('transition', 6), ('rows_some', 2), ('columns_some', 2),
            ('incorporate', 3), ('unincorporate', 2),
            ('incorporate_dim', 2), ('unincorporate_dim', 1.5),
            ('force_cell', 2), ('update_cctype', 1), ('query', 2),
            ('reload', .7), ('relevance', .7), ('grids', .5)]

    def n_rows(self):
        return len(next(iter(self.X.values())))

    def step(self):
        names = [o for o, _ in self.ops]
        w = np.asarray([x for _, x in self.ops], dtype=float)
        for _ in range(20):
            name = names[self.rng.choice(len(names), p=w / w.sum())]
            desc = getattr(self, 'op_' + name)()
            if desc is not None:
                self.log.append('%s %s' % (name, desc))
                self.ctx.count('op ' + name)
                return name
        return None

    # -- inference -----------------------------------------------------------

    def can_move_columns(self):
        return not self.state.Cd and mix.conditional_free(self.state)

    def op_transition(self):
        ks = [k for k in KERNELS if k != 'columns' or
              self.can_move_columns()]
        if self.rng.rand() < .6:
            ks = [ks[i] for i in self.rng.permutation(len(ks))[
                :1 + self.rng.randint(len(ks))]]
        n = int(self.rng.randint(1, 3))
        self.state.transition(N=n, kernels=ks, progress=False)
        return '%s x%d' % (ks, n)

    def op_rows_some(self):
        rows = [int(r) for r in self.rng.permutation(self.n_rows())[
            :1 + self.rng.randint(self.n_rows())]]
        vs = list(self.state.views)
        views = [vs[self.rng.randint(len(vs))]] if self.rng.rand() < .5 \
            else None
        self.state.transition(N=1, kernels=['rows'], rowids=rows, views=views,
                              progress=False)
        return '%s %s' % (rows, views)

    def op_columns_some(self):
        if not self.can_move_columns():
            return None
        cols = [self.pick_col()]
        self.state.transition(N=1, kernels=['columns'], cols=cols,
                              progress=False)
        return '%s' % cols

    def no_empty_column(self):
        return all(any(not isnan(x) for x in xs) for xs in self.X.values())

    def op_grids(self):
        if not self.no_empty_column():
            return None
        self.state.transition_dim_grids()
        return ''

    # -- data ----------------------------------------------------------------

    def pick_col(self):
        cs = sorted(self.X)
        return cs[self.rng.randint(len(cs))]

    def value(self, c):
        return mix.gen_new_value(self.rng, self.specs[c])

    def op_incorporate(self):
        if self.n_rows() > 14:
            return None
        row = self.n_rows()
        cols = [c for c in self.X if self.rng.rand() < .75]
        if not cols:
            cols = [self.pick_col()]
        obs = {c: self.value(c) for c in cols}
        clusters = {}
        if self.rng.rand() < .4:
            for v, view in self.state.views.items():
                if self.rng.rand() < .6:
                    ks = sorted(view.Nk()) + [max(view.Nk()) + 1]
                    clusters[view.outputs[0]] = int(
                        ks[self.rng.randint(len(ks))])
        full = dict(obs)
        full.update(clusters)
        self.state.incorporate(row, full)
        for c in self.X:
            self.X[c].append(obs.get(c, NAN))
        for v, view in self.state.views.items():
            if view.outputs[0] in clusters:
                self.ctx.true(
                    view.Zr(row) == clusters[view.outputs[0]],
                    'partition:requested-cluster',
                    'row recorded in cluster %r, requested %r' % (
                        view.Zr(row), clusters[view.outputs[0]]),
                    log=self.log)
        return '%s' % full

    def op_unincorporate(self):
        if self.n_rows() < 2:
            return None
        self.state.unincorporate(self.n_rows() - 1)
        for c in self.X:
            self.X[c].pop()
        return ''

    def op_incorporate_dim(self):
        if len(self.X) > 7:
            return None
        if not mix.conditional_free(self.state):
            return None
        new = [c for c in range(40) if c not in self.X]
        c = int(new[self.rng.randint(len(new))])
        spec = mix.gen_spec(self.rng, self.new_types)
        xs = mix.gen_column(self.rng, spec, self.n_rows(), .2)
        vs = list(self.state.views)
        r = self.rng.rand()
        if r < .4 and not self.state.Cd:
            v = None
        elif r < .75:
            v = vs[self.rng.randint(len(vs))]
        else:
            v = max(vs) + 1 + int(self.rng.randint(0, 3))
        given = list(xs)
        self.state.incorporate_dim(given, outputs=[c],
                                   cctype=spec['cctype'],
                                   distargs=spec['distargs'], v=v)
        self.X[c], self.specs[c] = list(xs), spec
        if v is not None:
            self.ctx.true(self.state.Zv(c) == v, 'partition:requested-view',
                          'column in view %r, requested %r' % (
                              self.state.Zv(c), v), log=self.log)
        return '%s %s v=%s' % (c, spec['cctype'], v)

    def op_unincorporate_dim(self):
        if len(self.X) < 2:
            return None
        if not mix.conditional_free(self.state):
            return None
        c = self.pick_col()
        self.state.unincorporate_dim(c)
        del self.X[c]
        del self.specs[c]
        return '%s' % c

    def op_force_cell(self):
        holes = [(r, c) for c in self.X for r in range(self.n_rows())
                 if isnan(self.X[c][r])]
        if not holes:
            return None
        r, c = holes[self.rng.randint(len(holes))]
        obs = {c: self.value(c)}
        for r2, c2 in holes:
            if r2 == r and c2 != c and self.rng.rand() < .5:
                obs[c2] = self.value(c2)
        self.state.force_cell(r, dict(obs))
        for k, x in obs.items():
            self.X[k][r] = x
        return '%s %s' % (r, obs)

    def op_update_cctype(self):
        cands = []
        for c, s in self.specs.items():
            t = s['cctype']
            if all(isnan(x) for x in self.X[c]):
                continue
            if t in ('bernoulli', 'categorical', 'poisson', 'geometric',
                     'exponential', 'lognormal', 'vonmises'):
                cands.append((c, 'normal', None))
            if t in ('poisson', 'geometric', 'bernoulli'):
                hi = max([0] + [x for x in self.X[c] if not isnan(x)])
                if hi < 40:
                    cands.append((c, 'categorical', {'k': int(hi) + 2}))
            if t == 'bernoulli':
                cands.append((c, 'poisson', None))
            if t == 'geometric':
                cands.append((c, 'poisson', None))
            if t == 'categorical':
                cands.append((c, 'poisson', None))
            if t == 'poisson':
                cands.append((c, 'geometric', None))
                cands.append((c, 'exponential', None))
        cands = [x for x in cands if x[1] in self.new_types]
        if not cands:
            return None
        c, t, da = cands[self.rng.randint(len(cands))]
        self.state.update_cctype(c, t, distargs=da)
        self.specs[c] = dict(cctype=t, distargs=da, hypers=None)
        return '%s -> %s %s' % (c, t, da)

    # -- queries (must change nothing) ----------------------------------------

    def op_query(self):
        if self.state.is_composite():
            return None
        cols = list(self.X)
        self.rng.shuffle(cols)
        t = cols[:1 + self.rng.randint(min(3, len(cols)))]
        e = {c: self.value(c) for c in cols[len(t):]
             if self.rng.rand() < .5}
        if self.rng.rand() < .5:
            self.state.simulate(None, t, e, None, int(self.rng.randint(1, 4)))
        else:
            self.state.logpdf(-1, {c: self.value(c) for c in t}, e)
        return '%s | %s' % (t, e)

    def op_relevance(self):
        if self.state.is_composite() or not mix.conditional_free(self.state):
            return None
        n = self.n_rows()
        if n < 2 or n > 11:
            return None
        rows = [int(r) for r in self.rng.permutation(n)]
        c = self.pick_col()
        hyp = [{k: self.value(k) for k in self.X if self.rng.rand() < .6}
               for _ in range(self.rng.randint(0, 3))]
        self.state.relevance_probability(
            rows[0], rows[1:1 + self.rng.randint(1, n)], c,
            hypotheticals=hyp)
        return '%s' % hyp

    def op_reload(self):
        if any(not d.is_collapsed() for d in self.state.dims()) \
                or not self.no_empty_column():
            return None
        meta = self.state.to_metadata()
        how = ['direct', 'json', 'pickle'][self.rng.randint(3)]
        if how == 'json':
            meta = json.loads(json.dumps(meta, default=_np))
            fix_json(meta)
        elif how == 'pickle':
            meta = pickle.loads(pickle.dumps(meta))
        from cgpm.crosscat.state import State
        self.state = State.from_metadata(
            meta, rng=np.random.RandomState(self.rng.randint(2**31 - 1)))
        return how


def _np(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(repr(o))


def fix_json(meta):
    """JSON turns integer keys into strings; the one dictionary in a state's
    metadata keyed by integers is the table of hooked models."""
    if isinstance(meta.get('hooked_cgpms'), dict):
        meta['hooked_cgpms'] = {
            int(k): v for k, v in meta['hooked_cgpms'].items()}


class ViewHistory(object):

    def __init__(self, ctx, view, X, specs, new_types=None):
        self.ctx, self.view = ctx, view
        self.specs = dict(specs)
        self.X = {c: list(xs) for c, xs in X.items()}
        self.rng = ctx.rng
        self.log = []
        self.out = set()            # rows currently unincorporated
        self.new_types = new_types or mix.MIXED
        self.ops = [('transition', 3), ('rows_some', 2), ('remove', 3),
                    ('record', 4), ('append', 2), ('dim_out_in', 1),
                    ('dim_new', 1), ('dim_drop', 1), ('force_cell', 2),
                    ('update_cctype', 1), ('hypers', 1), ('alpha', 1),
                    ('relevance', 1), ('query', 1), ('migrate', 2)]

    step = StateHistory.step
    value = StateHistory.value
    pick_col = StateHistory.pick_col

    def n_all(self):
        return len(next(iter(self.X.values())))

    def rows(self):
        return sorted(self.view.Zr())

    def op_transition(self):
        self.view.transition(1)
        return ''

    def op_rows_some(self):
        rows = self.rows()
        rs = [rows[i] for i in self.rng.permutation(len(rows))[
            :1 + self.rng.randint(len(rows))]]
        self.view.transition_rows(rows=rs)
        return '%s' % rs

    def op_hypers(self):
        self.view.transition_dim_hypers()
        return ''

    def op_alpha(self):
        self.view.transition_crp_alpha()
        return ''

    def op_remove(self):
        rows = self.rows()
        if len(rows) < 2:
            return None
        r = rows[self.rng.randint(len(rows))]
        self.view.unincorporate(r)
        self.out.add(r)
        return '%s' % r

    def op_record(self):
        if not self.out:
            return None
        out = sorted(self.out)
        r = out[self.rng.randint(len(out))]
        obs = {c: self.X[c][r] for c in self.X}
        k = None
        if self.rng.rand() < .6:
            ks = sorted(self.view.Nk())
            ks.append(max(ks) + 1 + int(self.rng.randint(0, 2)))
            k = int(ks[self.rng.randint(len(ks))])
            obs[self.view.outputs[0]] = k
        self.view.incorporate(r, obs)
        self.out.discard(r)
        if k is not None:
            self.ctx.true(self.view.Zr(r) == k,
                          'partition:requested-cluster',
                          'row %s in %r, requested %r' % (
                              r, self.view.Zr(r), k), log=self.log)
        return '%s in %s' % (r, k)

    def op_append(self):
        if self.n_all() > 13:
            return None
        r = self.n_all()
        obs = {c: (NAN if self.rng.rand() < .2 else self.value(c))
               for c in self.X}
        for c in self.X:
            self.X[c].append(obs[c])
            self.view.X[c].append(obs[c])
        self.out.add(r)
        k = None
        full = dict(obs)
        if self.rng.rand() < .5:
            k = int(self.rng.randint(0, max(self.view.Nk()) + 2))
            full[self.view.outputs[0]] = k
        self.view.incorporate(r, full)
        self.out.discard(r)
        return '%s %s' % (r, full)

    def op_migrate(self):
        rows = self.rows()
        if len(rows) < 2:
            return None
        r = rows[self.rng.randint(len(rows))]
        self.view.unincorporate(r)
        k = int(self.rng.randint(0, max(self.view.Nk()) + 2))
        obs = {c: self.X[c][r] for c in self.X}
        obs[self.view.outputs[0]] = k
        self.view.incorporate(r, obs)
        return '%s to %s' % (r, k)

    def op_dim_out_in(self):
        c = self.pick_col()
        d = self.view.dims[c]
        self.view.unincorporate_dim(d)
        if self.rng.rand() < .5:
            self.view.transition_rows()
            self.view.incorporate_dim(d)
        else:
            self.view.incorporate_dim(
                d, reassign=bool(self.rng.rand() < .5))
        return '%s' % c

    def op_dim_new(self):
        if len(self.X) > 5:
            return None
        from cgpm.mixtures.dim import Dim
        c = next(c for c in range(40) if c not in self.X)
        spec = mix.gen_spec(self.rng, self.new_types)
        xs = mix.gen_column(self.rng, spec, self.n_all(), .2)
        d = Dim(outputs=[c], inputs=[self.view.outputs[0]],
                cctype=spec['cctype'], distargs=spec['distargs'],
                hypers=None if self.rng.rand() < .5 else spec['hypers'],
                rng=self.view.rng)
        self.view.X[c] = list(xs)
        d.transition_hyper_grids(xs)
        self.view.incorporate_dim(d)
        self.X[c], self.specs[c] = list(xs), spec
        return '%s %s' % (c, spec['cctype'])

    def op_dim_drop(self):
        if len(self.X) < 2:
            return None
        c = self.pick_col()
        self.view.unincorporate_dim(self.view.dims[c])
        # the data table keeps at least the columns the view needs
        del self.X[c], self.specs[c], self.view.X[c]
        return '%s' % c

    def op_force_cell(self):
        holes = [(r, c) for c in self.X for r in self.rows()
                 if isnan(self.X[c][r])]
        if not holes:
            return None
        r, c = holes[self.rng.randint(len(holes))]
        x = self.value(c)
        self.view.X[c][r] = x
        self.view.force_cell(r, {c: x})
        self.X[c][r] = x
        return '%s %s %s' % (r, c, x)

    def op_update_cctype(self):
        h = StateHistory.__new__(StateHistory)
        h.specs, h.X, h.rng, h.new_types = (
            self.specs, self.X, self.rng, self.new_types)
        h.state = self
        self._last = None
        r = StateHistory.op_update_cctype(h)
        return r

    def update_cctype(self, c, t, distargs=None):
        self.view.update_cctype(c, t, distargs=distargs)
        self.view.transition_dim_grids(cols=[c])

    def op_relevance(self):
        rows = self.rows()
        if len(rows) < 3 or rows != list(range(len(rows))):
            return None
        p = [int(r) for r in self.rng.permutation(rows)]
        n = int(self.rng.randint(1, len(rows) - 1))
        self.view.relevance_probability(p[0], p[1:1 + n], self.pick_col())
        return '%s %s' % (p[0], p[1:1 + n])

    def op_query(self):
        rows = self.rows()
        if rows != list(range(len(rows))):
            return None
        c = self.pick_col()
        e = {o: self.value(o) for o in self.X
             if o != c and self.rng.rand() < .5}
        if self.rng.rand() < .5:
            self.view.simulate(None, [c], e, N=2)
        else:
            self.view.logpdf(-1, {c: self.value(c)}, e)
        return '%s | %s' % (c, e)
