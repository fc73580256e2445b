"""Discrete conditional-table models, random acyclic networks of them, and
exact enumeration of the joint distribution."""

import itertools
import math

import numpy as np

INF = float('inf')


class Cpt(object):
    """outputs | inputs by table; every variable ranges over range(card[v]).
    table maps a tuple of input values to probabilities of the product of the
    outputs in order."""

    def __init__(self, outputs, inputs, card=None, table=None, rng=None,
                 distargs=None):
        self.outputs, self.inputs = list(outputs), list(inputs)
        self.card = {int(k): v for k, v in dict(card).items()}
        self.table = {tuple(int(i) for i in k): np.asarray(p, dtype=float)
                      for k, p in dict(table).items()}
        self.states = list(itertools.product(
            *[range(self.card[o]) for o in self.outputs]))
        self.rng = rng or np.random.RandomState(1)
        self.calls = []
        self.rows = {}
        self.transitions = 0

    # -- cgpm interface -----------------------------------------------------

    def _p(self, inputs):
        inputs = inputs or {}
        missing = [i for i in self.inputs if i not in inputs]
        if missing:
            raise ValueError('Cpt %r: missing inputs %r' % (
                self.outputs, missing))
        if set(inputs) - set(self.inputs):
            raise ValueError('Cpt %r: unknown inputs %r' % (
                self.outputs, inputs))
        return self.table[tuple(int(inputs[i]) for i in self.inputs)]

    def mass(self, values, inputs):
        idx = [(self.outputs.index(o), x) for o, x in values.items()]
        p = self._p(inputs)
        return math.fsum(p[j] for j, s in enumerate(self.states)
                         if all(s[i] == x for i, x in idx))

    def logpdf(self, rowid, targets, constraints=None, inputs=None):
        self.calls.append(('logpdf', rowid, dict(targets),
                           dict(constraints or {}), dict(inputs or {})))
        num = self.mass(dict(targets, **{}) | dict(constraints or {}), inputs)
        den = self.mass(constraints or {}, inputs)
        if den == 0:
            raise ValueError('Cpt: impossible constraints')
        return math.log(num / den) if num > 0 else -INF

    def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
        self.calls.append(('simulate', rowid, list(targets),
                           dict(constraints or {}), dict(inputs or {})))
        if N is not None:
            return [self.simulate(rowid, targets, constraints, inputs)
                    for _ in range(N)]
        p = np.array(self._p(inputs))
        idx = [(self.outputs.index(o), x)
               for o, x in (constraints or {}).items()]
        for j, s in enumerate(self.states):
            if not all(s[i] == x for i, x in idx):
                p[j] = 0.
        if p.sum() == 0:
            raise ValueError('Cpt: impossible constraints')
        s = self.states[self.rng.choice(len(p), p=p / p.sum())]
        return {t: s[self.outputs.index(t)] for t in targets}

    def incorporate(self, rowid, observation, inputs=None):
        self.rows[rowid] = (dict(observation), dict(inputs or {}))

    def unincorporate(self, rowid):
        del self.rows[rowid]

    def transition(self, **kwargs):
        self.transitions += 1

    def logpdf_score(self):
        return 0.

    def to_metadata(self):
        return dict(outputs=list(self.outputs), inputs=list(self.inputs),
                    card=list(self.card.items()),
                    table=[(list(k), p.tolist())
                           for k, p in self.table.items()],
                    factory=('nets', 'Cpt'))

    @classmethod
    def from_metadata(cls, m, rng=None):
        return cls(m['outputs'], m['inputs'], dict(m['card']),
                   {tuple(k): p for k, p in m['table']}, rng=rng)


def random_table(rng, outputs, inputs, card, zeros=0.):
    n = int(np.prod([card[o] for o in outputs]))
    t = {}
    for k in itertools.product(*[range(card[i]) for i in inputs]):
        w = rng.uniform(.15, 1., n)
        if zeros and rng.rand() < zeros and n > 1:
            w[rng.randint(n)] = 0.
        t[k] = w / w.sum()
    return t


def random_graph(rng, n_vars, max_out=3, exogenous=2, density=.4):
    """(outputs, inputs) of an acyclic network, models in shuffled order,
    variables with shuffled names; and the exogenous variable names."""
    names = [int(v) for v in rng.permutation(60)[:n_vars + exogenous]]
    exo, names = names[:exogenous], names[exogenous:]
    groups = []
    while names:
        k = int(rng.randint(1, max_out + 1))
        groups.append(names[:k])
        names = names[k:]
    out = []
    before = list(exo)
    for g in groups:
        ins = [v for v in before if rng.rand() < density][:3]
        ins = [ins[i] for i in rng.permutation(len(ins))]
        out.append((g, ins))
        before = before + g
    out = [out[i] for i in rng.permutation(len(out))]
    return out, exo


def random_network(rng, n_vars, zeros=0., exogenous=1, max_card=3, **kw):
    graph, exo = random_graph(rng, n_vars, exogenous=exogenous, **kw)
    card = {v: int(rng.randint(2, max_card + 1))
            for g, i in graph for v in g + i}
    for v in exo:
        card.setdefault(v, 2)
    models = [Cpt(g, i, card, random_table(rng, g, i, card, zeros),
                  rng=np.random.RandomState(rng.randint(2**31 - 1)))
              for g, i in graph]
    return models, card, [e for e in exo if any(e in m.inputs
                                                for m in models)]


class Exact(object):
    """The joint table of a network given its exogenous inputs."""

    def __init__(self, models, card, inputs):
        self.vars = [v for m in models for v in m.outputs]
        self.index = {v: i for i, v in enumerate(self.vars)}
        self.p = {}
        for vals in itertools.product(*[range(card[v]) for v in self.vars]):
            env = dict(inputs)
            env.update(zip(self.vars, vals))
            p = 1.
            for m in models:
                p *= m.mass({o: env[o] for o in m.outputs},
                            {i: env[i] for i in m.inputs})
                if p == 0:
                    break
            if p > 0:
                self.p[vals] = p

    def mass(self, values):
        idx = [(self.index[v], x) for v, x in values.items()]
        return math.fsum(p for s, p in self.p.items()
                         if all(s[i] == x for i, x in idx))

    def logpdf(self, targets, constraints=None):
        d = self.mass(constraints or {})
        n = self.mass(dict(targets) | dict(constraints or {}))
        if d == 0:
            return None
        return math.log(n / d) if n > 0 else -INF

    def distribution(self, targets, constraints=None):
        idx = [(self.index[v], x) for v, x in (constraints or {}).items()]
        t = [self.index[v] for v in targets]
        out = {}
        for s, p in self.p.items():
            if all(s[i] == x for i, x in idx):
                k = tuple(s[i] for i in t)
                out[k] = out.get(k, 0.) + p
        z = sum(out.values())
        return {k: p / z for k, p in out.items()}
