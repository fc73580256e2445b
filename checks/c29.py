"""C29: Venture-script models keep rows, labels and seeds straight.

Venture is not installed; a recording stand-in ripl takes its place.  It keeps
the active observations, predictions and assumptions by label, refuses what
Venture refuses (unknown or duplicate labels, unknown symbols), and can be told
to fail at a chosen call.  After every operation the monitors compare what is
active in it with the caller's own table."""
import copy
import json
import pickle
import re
import sys
import types

import numpy as np

import mix
from vlib import scenario

TECHNIQUE = (
    'recording stand-in for the Venture engine: monitors compare its active '
    'observations with an independent table after every operation of random '
    'histories with refused operations and injected engine faults')
RULE = ('a case is one history of a venture-script model over the stand-in '
        'engine, or one sequence of queries of an inline expression; '
        'non-trivial when it has several recorded rows or an injected fault; '
        'distinct by the operations')
NOTE = ('The stand-in follows the calls the code under test makes to a ripl; '
        'that Venture itself agrees with it is not observed. ')
NAN = float('nan')


class VentureError(Exception):
    pass


def sexp(text):
    """Parse one expression: lists of strings."""
    toks = re.findall(r"[()\[\]]|'?[^\s()\[\]]+", text)
    stack = [[]]
    for t in toks:
        if t in '([':
            stack.append([])
        elif t in ')]':
            done = stack.pop()
            stack[-1].append(done)
        else:
            stack[-1].append(t)
    if len(stack) != 1 or len(stack[0]) != 1:
        raise VentureError('cannot parse %r' % text)
    return stack[0][0]


def same(a, b):
    return len(a) == len(b) and all(float(x) == float(y)
                                    for x, y in zip(a, b))


class Ripl(object):
    """Just enough of a ripl."""

    made = []

    def __init__(self, seed=None):
        self.seed = seed
        self.calls = []         # everything asked, in order
        self.mode = None
        self.shape = None       # outputs, inputs, observers
        self.sp = None          # how the model was created
        self.created = 0
        self.active = {}        # label -> observation / prediction
        self.programs, self.plugins = [], []
        self.fault = None       # f(kind, number of calls) -> fail?
        self.serial = 0
        Ripl.made.append(self)

    def note(self, kind, *what):
        self.calls.append((kind,) + what)
        if self.fault is not None and self.fault(kind, self):
            raise VentureError('injected at %s' % kind)

    # -- programs
    def set_mode(self, mode):
        assert mode in ('church_prime', 'venture_script'), mode
        self.mode = mode
        self.note('mode', mode)

    def execute_program(self, text):
        self.note('program', text, self.mode)
        self.programs.append((text, self.mode))
        m = re.search(r'shape (\d+) (\d+) (\d+)', text)
        if m:
            self.shape = [int(x) for x in m.groups()]

    def load_plugin(self, name):
        self.note('plugin', name)
        self.plugins.append(name)

    def assume(self, name, text, label=None):
        self.note('assume', name, text, label)
        if label in self.active or any(
                a.get('name') == name for a in self.active.values()):
            raise VentureError('%s is already assumed' % name)
        self.active[label] = dict(kind='assume', name=name, text=text)

    def infer(self, text):
        self.note('infer', sexp(text), self.table())

    def sample(self, text):
        if text.strip() == 'simulators':
            self.note('sample', 'simulators')
            return [object()] * self.shape[0]
        name, args = self.apply(text)
        self.note('sample', name, args)
        return Inline.sample(self, args)

    def observe(self, text, value, label=None):
        name, args = self.apply(text)
        self.note('observe', name, args, value, label)
        if label in self.active:
            raise VentureError('label %s is taken' % label)
        logp = Inline.logp(self, args, value)
        self.active[label] = dict(kind='observe', args=args, value=value)
        return [logp]

    def apply(self, text):
        m = re.match(r'^\s*(\w+)\s*\((.*)\)\s*$', text)
        if not m or not any(a.get('name') == m.group(1)
                            for a in self.active.values()):
            raise VentureError('cannot apply %r' % text)
        return m.group(1), [float(x) for x in m.group(2).split(',')
                            if x.strip()]

    def evaluate(self, text):
        e = sexp(text)
        if e in (['size', 'inputs'], ['size', 'observers']):
            self.note('evaluate', text)
            return self.shape[1 if e[1] == 'inputs' else 2]
        if len(e) == 1:
            self.note('create', e[0])
            self.sp = e[0]
            self.created += 1
            return None
        if e[0][:2] != ['lookup', 'observers']:
            raise VentureError('cannot evaluate %r' % text)
        i = int(e[0][2])
        row, args, value, label = (int(e[1]), [float(x) for x in e[2:-2]],
                                   float(e[-2]), e[-1])
        if not label.startswith("'"):
            raise VentureError('%s is not a symbol' % label)
        self.note('observe', i, row, args, value)
        self.shaped(i, args)
        if label[1:] in self.active:
            raise VentureError('label %s is taken' % label)
        for a in self.active.values():
            if (a['output'], a['row']) == (i, row) and same(
                    a['inputs'], args) and a['value'] != value:
                raise VentureError('impossible observation')
        self.active[label[1:]] = dict(kind='observe', output=i, row=row,
                                      inputs=args, value=value)

    def shaped(self, i, args):
        if not 0 <= i < self.shape[0] or len(args) != self.shape[1]:
            raise VentureError('no output %d of %d, or %r for %d inputs' % (
                i, self.shape[0], args, self.shape[1]))

    def predict(self, text, label=None):
        e = sexp(text)
        if e[0][:2] != ['lookup', 'simulators']:
            raise VentureError('cannot predict %r' % text)
        i, row = int(e[0][2]), int(e[1])
        args = [float(x) for x in e[2:]]
        self.note('predict', i, row, args, self.table())
        self.shaped(i, args)
        if label in self.active:
            raise VentureError('label %s is taken' % label)
        # Cells are memoised: what is observed or predicted stays.
        for a in self.active.values():
            if (a['output'], a['row']) == (i, row) and same(
                    a['inputs'], args):
                value = a['value']
                break
        else:
            self.serial += 1
            value = 1000. + self.serial
        self.active[label] = dict(kind='predict', output=i, row=row,
                                  inputs=args, value=value)
        self.calls[-1] += (value,)
        return value

    def forget(self, label):
        self.note('forget', label)
        if label not in self.active:
            raise VentureError('nothing has label %s' % label)
        del self.active[label]

    # -- storage
    def saves(self):
        return pickle.dumps((self.shape, self.sp, self.created, self.active,
                             self.serial))

    def loads(self, s):
        self.note('loads')
        (self.shape, self.sp, self.created, self.active,
         self.serial) = pickle.loads(s)

    # -- what a monitor sees
    def table(self):
        """Active observations {(output, row): (inputs, value)}."""
        out = {}
        for a in self.active.values():
            if a['kind'] == 'observe' and 'row' in a:
                out.setdefault((a['output'], a['row']), []).append(
                    (tuple(a['inputs']), a['value']))
        return out

    def others(self):
        return {k: a for k, a in self.active.items() if a['kind'] != 'observe'}


class Inline(object):
    """Meaning of the inline expression: a function of its arguments."""
    @staticmethod
    def sample(ripl, args):
        ripl.serial += 1
        return 1000. + ripl.serial

    @staticmethod
    def logp(ripl, args, value):
        if value < -5:
            raise VentureError('impossible observation')
        return float('-inf') if value > 5 else Inline.density(args, value)

    @staticmethod
    def density(args, value):
        return -sum((i + 1) * a for i, a in enumerate(args)) - value * value


def install():
    top, sub = types.ModuleType('venture'), types.ModuleType(
        'venture.shortcuts')
    sub.make_lite_ripl = lambda seed=None: Ripl(seed)
    top.shortcuts = sub
    sys.modules.update({'venture': top, 'venture.shortcuts': sub})
    Ripl.made = []


class Model(object):
    """A VsCGpm and the caller's own table of it."""

    def __init__(self, ctx, rng):
        from cgpm.venturescript.vscgpm import VsCGpm
        self.ctx, self.rng = ctx, rng
        n, m = int(rng.randint(1, 5)), int(rng.randint(0, 4))
        names = [int(x) for x in rng.choice(40, n + m, replace=False)]
        self.outputs, self.inputs = names[:n], names[n:]
        self.cls = VsCGpm
        mode = str(rng.choice(['church_prime', 'venture_script']))
        self.kw = dict(source='shape %d %d %d' % (n, m, n), mode=mode)
        if rng.rand() < .3:
            self.kw['plugins'] = 'a.py, b.py'
        if rng.rand() < .3:
            self.kw['sp'] = 'make_other'
        self.seed = int(rng.randint(2**31 - 1))
        self.cg = VsCGpm(self.outputs, self.inputs,
                         rng=np.random.RandomState(self.seed), **self.kw)
        self.rows = {}      # row -> dict(inputs, cells)
        self.log = []

    def ripl(self):
        return self.cg.ripl

    def args(self, inputs):
        return tuple(float(inputs[i]) for i in self.inputs)

    def expected(self, extra=None):
        out = {}
        for r, row in self.rows.items():
            for o, v in row['cells'].items():
                out[self.outputs.index(o), r] = [(self.args(row['inputs']),
                                                  float(v))]
        out.update(extra or {})
        return out

    def check(self, where):
        w = dict(log=self.log[-25:])
        ctx, ripl = self.ctx, self.ripl()
        ctx.true(ripl.table() == self.expected(), 'vs:observations',
                 '%s: observed %r, recorded %r' % (
                     where, ripl.table(), self.expected()), **w)
        ctx.true(not ripl.others(), 'vs:leftover', '%s: left %r' % (
            where, ripl.others()), **w)

    def value(self):
        r = self.rng
        return float([r.normal(), r.randint(5), -r.exponential() * 1e-6,
                      r.normal() * 1e12][r.randint(4)])

    def new_inputs(self):
        d = {i: self.value() for i in self.inputs}
        ks = list(d)
        self.rng.shuffle(ks)
        return {k: d[k] for k in ks}

    def some(self, of, least=0):
        of = list(of)
        if len(of) < least:
            return None
        k = int(self.rng.randint(least, len(of) + 1))
        return [of[i] for i in self.rng.permutation(len(of))[:k]]


def do_incorporate(m, fault=False):
    rng, ctx = m.rng, m.ctx
    known = sorted(m.rows)
    if known and rng.rand() < .5:
        r = int(known[rng.randint(len(known))])
    else:
        r = int(rng.randint(0, 8))
    row = m.rows.get(r)
    free = [o for o in m.outputs if row is None or o not in row['cells']]
    cols = m.some(free, 1)
    if not cols:
        return
    obs = {o: m.value() for o in cols}
    if row is None:
        inputs = m.new_inputs()
    else:
        inputs = [None, {}, dict(row['inputs'])][rng.randint(3)]
    given, given_obs = copy.deepcopy(inputs), dict(obs)
    m.log.append(('incorporate', r, obs, inputs, fault))
    if fault:
        at = [int(rng.randint(len(obs)))]

        def f(kind, ripl):
            if kind == 'observe':
                at[0] -= 1
                return at[0] == -1
        m.ripl().fault = f
        ctx.raises(VentureError, lambda: m.cg.incorporate(r, obs, inputs),
                   'vs:fault', 'an engine fault while observing')
        m.ripl().fault = None
        m.check('failed incorporate')
        ctx.count('faults')
        return
    m.cg.incorporate(r, obs, inputs)
    ctx.true(obs == given_obs and inputs == given, 'vs:arguments',
             'incorporate changed its arguments')
    if row is None:
        m.rows[r] = row = dict(inputs=dict(inputs), cells={})
    row['cells'].update(obs)
    m.check('incorporate')


def do_unincorporate(m):
    known = sorted(m.rows)
    if not known:
        return
    r = int(known[m.rng.randint(len(known))])
    m.log.append(('unincorporate', r))
    m.cg.unincorporate(r)
    del m.rows[r]
    m.check('unincorporate')
    m.ctx.raises(ValueError, lambda: m.cg.unincorporate(r), 'vs:twice',
                 'removing row %d twice' % r)
    m.check('second unincorporate')


def do_simulate(m, fault=False):
    rng, ctx = m.rng, m.ctx
    known = sorted(m.rows)
    if known and rng.rand() < .5:
        r = int(known[rng.randint(len(known))])
    else:
        r = int(rng.choice([-3, 11, 12, 13]))
        if rng.rand() < .5:
            r = int(rng.randint(0, 8))      # may be incorporated later
    row = m.rows.get(r)
    targets = m.some(m.outputs, 1)
    if row is None:
        inputs = m.new_inputs()
        real = inputs
    else:
        inputs = [None, {}, dict(row['inputs'])][rng.randint(3)]
        real = row['inputs']
    can = [o for o in m.outputs if o not in targets and (
        row is None or o not in row['cells'])]
    constraints = {o: m.value() for o in (m.some(can) or [])}
    if not constraints and rng.rand() < .5:
        constraints = None
    N = [None, None, 1, 3][rng.randint(4)]
    if fault:
        N = None
    m.log.append(('simulate', r, targets, constraints, inputs, N, fault))
    given = copy.deepcopy((targets, constraints, inputs))
    args = m.args(real)
    extra = {(m.outputs.index(o), r): [(args, v)]
             for o, v in (constraints or {}).items()}
    ripl = m.ripl()
    if fault:
        kinds = ['predict'] * len(targets) + \
            (['infer'] + ['observe'] * len(constraints) if constraints else [])
        kind = kinds[rng.randint(len(kinds))]
        at = [int(rng.randint(kinds.count(kind)))]

        def f(k, _ripl):
            if k == kind:
                at[0] -= 1
                return at[0] == -1
        ripl.fault = f
        ctx.raises(VentureError, lambda: m.cg.simulate(
            r, targets, constraints, inputs), 'vs:fault',
            'an engine fault in %s' % kind)
        ripl.fault = None
        m.log.append(('failed in', kind))
        m.check('query failed in %s' % kind)
        ctx.count('faults')
        return
    mark = len(ripl.calls)
    if N is None:
        got = [m.cg.simulate(r, targets, constraints, inputs)]
    else:
        got = m.cg.simulate(r, targets, constraints, inputs, N)
        ctx.true(isinstance(got, list) and len(got) == N, 'vs:samples',
                 '%r samples asked, got %r' % (N, got), log=m.log[-10:])
        if not isinstance(got, list):
            return
    w = dict(log=m.log[-20:])
    ctx.true((targets, constraints, inputs) == given, 'vs:arguments',
             'simulate changed its arguments', **w)
    calls = ripl.calls[mark:]
    predicted = [c for c in calls if c[0] == 'predict']
    ctx.true(len(predicted) == len(targets) * len(got), 'vs:predictions',
             '%d predictions of %d targets, %d times' % (
                 len(predicted), len(targets), len(got)), **w)
    for c in predicted:
        ctx.true(c[2] == r and tuple(c[3]) == args, 'vs:query',
                 'asked row %r given %r, engine asked %r' % (r, args, c), **w)
        ctx.true(c[4] == m.expected(extra), 'vs:constraints',
                 'during the query %r observed, %r meant' % (
                     c[4], m.expected(extra)), **w)
    # every sample is routed to the target that was asked for
    seen = {}
    for c in predicted:
        seen.setdefault(m.outputs[c[1]], []).append(c[5])
    for s, k in zip(got, range(len(got))):
        ctx.true(sorted(s) == sorted(targets) and all(
            seen.get(q, [None] * len(got))[k] == s[q] for q in s),
            'vs:routing', 'sample %r, engine gave %r' % (s, seen), **w)
        for q in s:
            if row and q in row['cells']:
                ctx.true(s[q] == row['cells'][q], 'vs:recorded',
                         'recorded cell %r of row %r simulated as %r' % (
                             q, r, s[q]), **w)
    # inference in the scope of the row, exactly when there are constraints
    ran = [c for c in calls if c[0] == 'infer']
    ctx.true(len(ran) == (len(got) if constraints else 0), 'vs:inference',
             '%d inferences for %d samples given %r' % (
                 len(ran), len(got), constraints), **w)
    for c in ran:
        ctx.true(c[2] == m.expected(extra), 'vs:inference',
                 'inference with %r observed, %r meant' % (
                     c[2], m.expected(extra)), **w)
        flat = repr(c[1])
        ctx.true("'%d'" % r in flat, 'vs:inference',
                 'inference of row %d is %s' % (r, flat), **w)
    order = [c[0] for c in calls if c[0] in ('observe', 'infer', 'predict')]
    want = (['observe'] * len(constraints) + ['infer'] if constraints
            else []) + ['predict'] * len(targets)
    ctx.true(order == want * len(got), 'vs:order', '%r' % (order,), **w)
    m.check('simulate')


def do_refused(m):
    """What the interface refuses; nothing may change."""
    rng, ctx, cg = m.rng, m.ctx, m.cg
    known = sorted(m.rows)
    fresh = 77
    inputs = m.new_inputs()
    v = m.value()
    o = m.outputs[rng.randint(len(m.outputs))]
    tries = [
        ('no observation', lambda: cg.incorporate(fresh, {}, inputs)),
        ('unknown output', lambda: cg.incorporate(
            fresh, {o: v, 99: 1.}, inputs)),
        ('nan observation', lambda: cg.incorporate(fresh, {o: NAN}, inputs)),
        ('unknown input', lambda: cg.incorporate(
            fresh, {o: v}, dict(inputs, **{}) | {98: 1.})),
        ('unknown input in a query', lambda: cg.simulate(
            fresh, [o], None, dict(inputs) | {98: 1.})),
        ('unknown target', lambda: cg.simulate(fresh, [o, 99], None, inputs)),
        ('unknown constraint', lambda: cg.simulate(
            fresh, [o], {99: 1.}, inputs)),
        ('nan constraint', lambda: cg.simulate(
            fresh, [], {o: NAN}, inputs)),
        ('overlap', lambda: cg.simulate(fresh, [o], {o: v}, inputs)),
        ('never incorporated', lambda: cg.unincorporate(fresh)),
    ]
    if m.inputs:
        i = m.inputs[rng.randint(len(m.inputs))]
        less = {k: x for k, x in inputs.items() if k != i}
        bad = dict(inputs)
        bad[i] = NAN
        tries += [
            ('missing input', lambda: cg.incorporate(fresh, {o: v}, less)),
            ('nan input', lambda: cg.incorporate(fresh, {o: v}, bad)),
            ('missing input in a query', lambda: cg.simulate(
                fresh, [o], None, less)),
            ('nan input in a query', lambda: cg.simulate(
                fresh, [o], None, bad)),
            ('no inputs', lambda: cg.simulate(fresh, [o])),
        ]
    if known:
        r = int(known[rng.randint(len(known))])
        row = m.rows[r]
        p = sorted(row['cells'])[0]
        tries += [('observed twice', lambda: cg.incorporate(r, {p: v})),
                  ('observed and constrained', lambda: cg.simulate(
                      r, [], {p: v}))]
        if len(m.outputs) > len(row['cells']):
            q = [x for x in m.outputs if x not in row['cells']][0]
            tries.append(('one observed twice', lambda: cg.incorporate(
                r, {q: v, p: v})))
            if m.inputs:
                i = m.inputs[rng.randint(len(m.inputs))]
                off = dict(row['inputs'])
                off[i] += 1. + abs(off[i])
                tries.append(('inputs that differ', lambda: cg.incorporate(
                    r, {q: v}, off)))
        if m.inputs:
            i = m.inputs[rng.randint(len(m.inputs))]
            off2 = dict(row['inputs'])
            off2[i] += 1. + abs(off2[i])
            tries.append(('inputs that differ in a query',
                          lambda: cg.simulate(r, [p], None, off2)))
    what, f = tries[rng.randint(len(tries))]
    m.log.append(('refused', what))
    ctx.raises(ValueError, f, 'vs:refused', what, log=m.log[-10:])
    ctx.count('refused')
    m.check('refused: ' + what)


def do_transition(m):
    rng, ctx = m.rng, m.ctx
    ripl = m.ripl()
    mark = len(ripl.calls)
    if rng.rand() < .3:
        m.cg.transition(program='do something')
        new = ripl.calls[mark:]
        ctx.true([c[:2] for c in new] == [('program', 'do something')],
                 'vs:transition', 'a program asked, engine told %r' % (new,))
    else:
        N = [None, 1, 7][rng.randint(3)]
        m.cg.transition(N=N)
        new = ripl.calls[mark:]
        ctx.true(len(new) == 1 and new[0][0] == 'infer' and new[0][1] == [
            'transition', str(N or 1)], 'vs:transition',
            'N=%r, engine told %r' % (N, new))
    m.log.append(('transition',))
    m.check('transition')


def do_metadata(m):
    """Store and restore; the model restored takes over."""
    ctx, rng = m.ctx, m.rng
    meta = m.cg.to_metadata()
    if rng.rand() < .6:
        meta = json.loads(json.dumps(meta))
    was = copy.deepcopy(meta)
    labels = sorted(m.ripl().active)
    old = m.cg
    new = m.cls.from_metadata(meta, rng=np.random.RandomState(3))
    again = m.cls.from_metadata(meta, rng=np.random.RandomState(3))
    ctx.true(meta == was, 'vs:metadata', 'restoring changed the metadata',
             log=m.log[-10:])
    for cg in (new, again):
        ctx.true(list(cg.outputs) == m.outputs and list(
            cg.inputs) == m.inputs, 'vs:metadata', 'columns %r of %r' % (
                cg.outputs, m.outputs))
        ctx.true(sorted(cg.ripl.active) == labels, 'vs:metadata',
                 'labels %r, were %r' % (sorted(cg.ripl.active), labels))
        ctx.true(cg.ripl.created == 1, 'vs:metadata',
                 'the model was created %d times' % cg.ripl.created)
        ctx.true(cg.ripl.mode == 'church_prime', 'vs:mode', cg.ripl.mode)
        ctx.true(cg.ripl.plugins == m.plugins(), 'vs:plugins',
                 repr(cg.ripl.plugins))
        # what it says of itself is what the original said
        said = cg.to_metadata()
        for k in meta:
            if k in ('binary', 'factory'):
                continue
            ctx.true(json.loads(json.dumps(said[k])) == json.loads(
                json.dumps(was[k])), 'vs:metadata', '%s: %r was %r' % (
                    k, said[k], was[k]))
    m.log.append(('metadata',))
    # the copies are independent of each other and of the original
    m.cg = again
    keep = copy.deepcopy(m.rows)
    for _ in range(3):
        [do_incorporate, do_unincorporate, do_simulate][rng.randint(3)](m)
    m.rows = keep
    m.cg = old
    m.check('after a copy changed')
    m.cg = new
    m.check('restored')


def plugins(self):
    return [p.strip() for p in self.kw.get('plugins', '').split(',')
            if p.strip()]


Model.plugins = plugins


@scenario(quick=900, thorough=3000)
def histories(ctx):
    install()
    rng = ctx.rng
    m = Model(ctx, rng)
    ripl = m.ripl()
    # the program was run in its own mode, then the model created once
    ctx.true((m.kw['source'], m.kw['mode']) in ripl.programs, 'vs:mode',
             'source run as %r' % (ripl.programs,))
    ctx.true(ripl.mode == 'church_prime' and ripl.created == 1 and ripl.sp ==
             m.kw.get('sp', 'make_cgpm') and ripl.plugins == m.plugins(),
             'vs:creation', '%r' % (ripl.calls,))
    ops = [do_incorporate] * 5 + [do_unincorporate] * 2 + [do_simulate] * 4 \
        + [do_refused] * 3 + [do_transition] + [do_metadata]
    faults = 0
    n = 25 if not ctx.thorough else 60
    most = 0
    for _ in range(n):
        op = ops[rng.randint(len(ops))]
        if op in (do_incorporate, do_simulate) and rng.rand() < .2:
            op(m, fault=True)
            faults += 1
        else:
            op(m)
        most = max(most, len(m.rows))
        if ctx.violations:
            break
    ctx.case(repr(m.log), most > 1 or faults)


@scenario(quick=60, thorough=100)
def creation(ctx):
    """What a model is, and the seed of its engine."""
    install()
    from cgpm.venturescript.vscgpm import VsCGpm
    rng = ctx.rng
    n, k = int(rng.randint(1, 5)), int(rng.randint(0, 4))
    names = [int(x) for x in rng.choice(40, n + k, replace=False)]
    outs, ins = names[:n], names[n:]
    src = 'shape %d %d %d' % (n, k, n)

    def make(o, i, s=src):
        return lambda: VsCGpm(o, i, source=s)
    bad = [
        ('repeated output', make(outs + outs[:1], ins)),
        ('too many outputs', make(outs + [51], ins)),
        ('too few outputs', make(outs[:-1], ins)),
        ('too many inputs', make(outs, ins + [51])),
        ('an output among the inputs', make(outs, ins + outs[:1])),
        ('fewer observers than outputs', make(
            outs, ins, 'shape %d %d %d' % (n, k, n - 1))),
        ('more observers than outputs', make(
            outs, ins, 'shape %d %d %d' % (n, k, n + 1))),
    ]
    if k:
        bad += [('repeated input', make(outs, ins + ins[:1])),
                ('too few inputs', make(outs, ins[:-1]))]
    for what, f in bad:
        ctx.raises(ValueError, f, 'vs:creation', what)
    # reproducible: equal generators seed the engine equally
    seed = int(rng.randint(2**31 - 1))
    got = []
    for s in (seed, seed, seed + 1):
        cg = VsCGpm(outs, ins, source=src, rng=np.random.RandomState(s))
        got.append(cg.ripl.seed)
    ctx.true(got[0] == got[1] and got[0] is not None, 'vs:seed',
             'equal generators seed the engine %r' % (got,))
    ctx.true(got[0] != got[2], 'vs:seed', 'different generators seed the '
             'engine equally: %r' % (got,))
    ctx.case(repr((outs, ins, seed)), True)


@scenario(quick=300, thorough=600)
def inline(ctx):
    install()
    from cgpm.venturescript.vsinline import InlineVsCGpm
    rng = ctx.rng
    k = int(rng.randint(0, 4))
    names = [int(x) for x in rng.choice(40, 1 + k, replace=False)]
    out, ins = names[:1], names[1:]
    args = ['a', 'bb', 'c_c', 'd', 'e']
    pad = lambda: ' ' * int(rng.randint(3))

    def expr(j):
        return '%s(%s) %s~>%s {normal(0, 1)}' % (
            pad(), ','.join(pad() + a + pad() for a in args[:j]), pad(),
            pad())
    text = expr(k)
    # creation
    for j in range(5):
        if j != k:
            ctx.raises(Exception, lambda: InlineVsCGpm(
                out, ins, expression=expr(j)), 'inline:arguments',
                '%d arguments for %d inputs' % (j, k))
    for what, f in (
            ('no expression', lambda: InlineVsCGpm(out, ins)),
            ('no output', lambda: InlineVsCGpm([], ins, expression=text)),
            ('two outputs', lambda: InlineVsCGpm(
                out + [50], ins, expression=text)),
            ('the output is an input', lambda: InlineVsCGpm(
                out, ins + out, expression=expr(k + 1)))):
        ctx.raises(ValueError, f, 'inline:creation', what)
    if k:
        ctx.raises(ValueError, lambda: InlineVsCGpm(
            out, ins + ins[:1], expression=expr(k + 1)), 'inline:creation',
            'repeated input')
    seeds = []
    s = int(rng.randint(2**31 - 1))
    for t in (s, s, s + 1):
        cg = InlineVsCGpm(out, ins, expression=text,
                          rng=np.random.RandomState(t))
        seeds.append(cg.ripl.seed)
    ctx.true(seeds[0] == seeds[1] != seeds[2] and seeds[0] is not None,
             'inline:seed', 'engine seeded %r' % (seeds,))
    log, faults = [], 0
    for _ in range(12):
        ripl = cg.ripl
        vals = {i: float(rng.normal()) for i in ins}
        ks = list(vals)
        rng.shuffle(ks)
        given = {i: vals[i] for i in ks}
        want = [vals[i] for i in ins]
        inputs = given if ins or rng.rand() < .5 else None
        was = copy.deepcopy(inputs)
        mark = len(ripl.calls)
        kind = ['logpdf', 'simulate', 'fault', 'json', 'data'][
            rng.choice(5, p=[.35, .3, .2, .05, .1])]
        log.append((kind, given))
        w = dict(log=log)
        if kind == 'logpdf':
            x = float([rng.normal(), 9., -9.][rng.choice(3, p=[.8, .1, .1])])
            if x < -5:
                ctx.raises(VentureError, lambda: cg.logpdf(
                    0, {out[0]: x}, None, inputs), 'inline:failure',
                    'the engine refused the observation', **w)
                faults += 1
            else:
                lp = cg.logpdf(int(rng.randint(5)), {out[0]: x},
                               None, inputs)
                ctx.close(lp, float('-inf') if x > 5 else Inline.density(
                    want, x), 'inline:density', 'density of %r given %r' % (
                        x, want), **w)
        elif kind == 'simulate':
            N = [None, 1, 3][rng.randint(3)]
            got = cg.simulate(0, [out[0]], None, inputs, N) \
                if rng.rand() < .5 else cg.simulate(
                    0, [out[0]], inputs=inputs, N=N)
            ran = [c for c in ripl.calls[mark:] if c[0] == 'sample']
            ctx.true(len(ran) == (N or 1) and all(
                same(c[2], want) for c in ran), 'inline:sample',
                'N=%r given %r: engine asked %r' % (N, want, ran), **w)
            got = [got] if N is None else got
            ctx.true(len(got) == (N or 1) and all(
                list(d) == out for d in got) and [
                    d[out[0]] for d in got] == [
                    1000. + ripl.serial - len(got) + 1 + j
                    for j in range(len(got))], 'inline:sample',
                'samples %r' % (got,), **w)
        elif kind == 'fault':
            what = ['sample', 'observe'][rng.randint(2)]
            ripl.fault = lambda kd, _r: kd == what
            ctx.raises(VentureError, (
                lambda: cg.simulate(0, [out[0]], None, inputs))
                if what == 'sample' else (
                lambda: cg.logpdf(0, {out[0]: 1.}, None, inputs)),
                'inline:failure', 'an engine fault', **w)
            ripl.fault = None
            faults += 1
            ctx.count('faults')
        elif kind == 'json':
            meta = json.loads(json.dumps(cg.to_metadata()))
            cg = InlineVsCGpm.from_metadata(meta, rng=np.random.RandomState(1))
            ripl = cg.ripl
            ctx.true(list(cg.outputs) == out and list(cg.inputs) == ins,
                     'inline:metadata', 'restored %r %r' % (
                         cg.outputs, cg.inputs), **w)
        else:
            cg.incorporate(0, {out[0]: 1.}, inputs)
            cg.transition(N=2)
            cg.unincorporate(0)
            ctx.true(not [c for c in ripl.calls[mark:]], 'inline:data',
                     'engine told %r' % (ripl.calls[mark:],), **w)
        texts = [c[2] for c in ripl.calls[mark:] if c[0] == 'assume'] \
            if ripl is cg.ripl and kind != 'json' else []
        ctx.true(all(t == text for t in texts), 'inline:expression',
                 'assumed %r' % (texts,), **w)
        ctx.true(not ripl.active, 'inline:leftover', 'after %s left %r' % (
            kind, ripl.active), **w)
        ctx.true(inputs == was, 'inline:inputs', 'inputs changed', **w)
        if ctx.violations:
            break
    ctx.case(repr((text, log)), k > 0 or faults)
