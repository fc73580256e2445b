"""C17: composite networks compute the product of their parts."""

import copy
import itertools
import math

import numpy as np

import mix
import nets
from vlib import chi2_pvalue, scenario

RULE = ('a case is one query of a network judged against exact enumeration, '
        'or one helper result judged against a graph search')

TECHNIQUE = ('monitor of every query of random discrete networks against '
             'exact enumeration of the joint table; graph helpers against an '
             'independent search; staged statistical tests for the estimates')


class Node(object):
    def __init__(self, outputs, inputs):
        self.outputs, self.inputs = list(outputs), list(inputs)


def reach(start, edges):
    seen, todo = set(), list(start)
    while todo:
        v = todo.pop()
        for w in edges.get(v, ()):
            if w not in seen:
                seen.add(w)
                todo.append(w)
    return seen


def as_set(ctx, xs, mech, what):
    xs = list(xs)
    return set(xs)


@scenario(quick=50, thorough=240)
def helpers(ctx):
    from cgpm.network import helpers as hu
    from cgpm.network.importance import ImportanceNetwork
    rng = ctx.rng
    for _ in range(25):
        n = int(rng.randint(1, 12))
        graph, exo = nets.random_graph(
            rng, n, max_out=int(rng.randint(1, 5)),
            exogenous=int(rng.randint(0, 4)),
            density=float(rng.choice([.15, .4, .9])))
        cg = [Node(o, i) for o, i in graph]
        before = [(list(c.outputs), list(c.inputs)) for c in cg]
        d = dict(graph=graph)
        v2c = hu.retrieve_variable_to_cgpm(cg)
        want = {v: i for i, c in enumerate(cg) for v in c.outputs}
        ctx.true(dict(v2c) == want, 'helpers:variable-to-cgpm',
                 '%r, expected %r' % (v2c, want), **d)
        adj = hu.retrieve_adjacency_list(cg, v2c)
        wadj = {i: {want[p] for p in c.inputs if p in want}
                for i, c in enumerate(cg)}
        ctx.true({k: set(v) for k, v in dict(adj).items()} == wadj and
                 all(len(set(v)) == len(v) for v in adj.values()),
                 'helpers:adjacency-list', '%r, expected %r' % (adj, wadj),
                 **d)
        M = np.asarray(hu.retrieve_adjacency_matrix(cg, v2c))
        W = np.zeros((len(cg), len(cg)))
        for i, ps in wadj.items():
            for p in ps:
                W[p, i] = 1
        ctx.true(M.shape == W.shape and bool((M == W).all()),
                 'helpers:adjacency-matrix', '%r, expected %r' % (
                     M.tolist(), W.tolist()), **d)
        ext = list(hu.retrieve_extraneous_inputs(cg, v2c))
        wext = [i for c in cg for i in c.inputs if i not in want]
        ctx.true(set(ext) == set(wext), 'helpers:extraneous',
                 '%r, expected %r' % (ext, wext), **d)
        # ancestors and descendants at the level of variables
        up, down = {}, {}
        for c in cg:
            for o in c.outputs:
                up[o] = set(c.inputs)
                for i in c.inputs:
                    down.setdefault(i, set()).add(o)
        for q in list(want):
            if n <= 9 or rng.rand() < .2:
                a = set(hu.retrieve_ancestors(cg, q))
                ctx.true(a == reach([q], up), 'helpers:ancestors',
                         'of %d: %r, expected %r' % (q, a, reach([q], up)),
                         **d)
                b = set(hu.retrieve_descendents(cg, q))
                ctx.true(b == reach([q], down), 'helpers:descendants',
                         'of %d: %r, expected %r' % (
                             q, b, reach([q], down)), **d)
        unknown = 777
        for f in (hu.retrieve_ancestors, hu.retrieve_descendents):
            ctx.raises(ValueError, lambda: f(cg, unknown), 'helpers:unknown',
                       'unknown variable')
            if wext:
                ctx.raises(ValueError, lambda: f(cg, wext[0]),
                           'helpers:unknown', 'variable that is no output')
        und = {}
        for i, ps in wadj.items():
            for p in ps:
                und.setdefault(i, set()).add(p)
                und.setdefault(p, set()).add(i)
        labels = list(hu.retrieve_weakly_connected_components(cg))
        ctx.true(len(labels) == len(cg) and all(
            (labels[i] == labels[j]) == (i == j or j in reach([i], und))
            for i in range(len(cg)) for j in range(len(cg))),
            'helpers:components', 'labels %r' % (labels,), **d)
        # topological order
        keep = copy.deepcopy(adj)
        topo = list(hu.topological_sort(adj))
        ctx.true(adj == keep, 'helpers:topo-argument', 'argument changed')
        pos = {v: i for i, v in enumerate(topo)}
        ctx.true(sorted(topo) == list(range(len(cg))) and all(
            pos[p] < pos[i] for i, ps in wadj.items() for p in ps),
            'helpers:topological', 'order %r of %r' % (topo, wadj), **d)
        # required inputs
        vs = list(want)
        perm = [vs[i] for i in rng.permutation(len(vs))]
        nt = int(rng.randint(0, len(vs) + 1))
        ne = int(rng.randint(0, len(vs) - nt + 1))
        targets = perm[:nt]
        cons = {v: 0 for v in perm[nt:nt + ne]}
        req = set()
        todo = list(targets) + list(cons)
        done = set()
        while todo:
            v = todo.pop()
            if v in done or v not in want:
                continue
            done.add(v)
            for i in cg[want[v]].inputs:
                req.add(i)
                todo.append(i)
        wreq = {v for v in req if v not in targets and v not in cons
                and v in want}
        got = list(hu.retrieve_required_inputs(cg, topo, targets, cons, ext))
        ctx.true(set(got) == wreq and len(set(got)) == len(got),
                 'helpers:required', 'required for %r | %r: %r, expected %r'
                 % (targets, cons, got, wreq), **d)
        net = ImportanceNetwork(cg, rng=np.random.RandomState(1))
        got = list(net.retrieve_required_inputs(targets, cons))
        ctx.true(set(got) == wreq and len(set(got)) == len(got),
                 'network:required', 'required for %r | %r: %r, expected %r'
                 % (targets, cons, got, wreq), **d)
        ctx.true([(c.outputs, c.inputs) for c in cg] == before,
                 'helpers:argument-changed', 'the models changed: %r' % (
                     [(c.outputs, c.inputs) for c in cg],), **d)
        ctx.case(dict(graph=graph, targets=targets, constraints=list(cons)),
                 len(cg) > 1)


@scenario(quick=20, thorough=80)
def order_and_cycles(ctx):
    """topological_sort of arbitrary labelled graphs; cycles and duplicate
    outputs refused."""
    from cgpm.network import helpers as hu
    from cgpm.network.importance import ImportanceNetwork
    rng = ctx.rng
    for _ in range(60):
        n = int(rng.randint(1, 10))
        names = [int(v) if rng.rand() < .7 else 'n%d' % v
                 for v in rng.permutation(40)[:n]]
        g = {}
        for i, v in enumerate(names):
            g[v] = [names[j] for j in range(i) if rng.rand() < .4]
            if rng.rand() < .2:
                g[v].append(99)            # not a node of the graph
        items = [(v, g[v]) for v in (names[i] for i in rng.permutation(n))]
        arg = dict(items) if rng.rand() < .5 else list(items)
        keep = copy.deepcopy(arg)
        topo = list(hu.topological_sort(arg))
        pos = {v: i for i, v in enumerate(topo)}
        ctx.true(len(topo) == n and set(topo) == set(g) and all(
            pos[p] < pos[v] for v in g for p in g[v] if p in g),
            'helpers:topological', 'order %r of %r' % (topo, g))
        ctx.true(arg == keep, 'helpers:topo-argument', 'argument changed')
        # close a cycle of a chosen length
        k = int(rng.randint(1, n + 1))
        cyc = [names[i] for i in rng.permutation(n)[:k]]
        g2 = copy.deepcopy(g)
        for a, b in zip(cyc, cyc[1:] + cyc[:1]):
            if b not in g2[a]:
                g2[a].append(b)
        ctx.raises(ValueError, lambda: hu.topological_sort(g2),
                   'helpers:cycle', 'cyclic graph %r' % g2)
        nodes = {v: 10 + i for i, v in enumerate(names)}
        nodes[99] = 99
        cg = [Node([nodes[v]], [nodes[p] for p in g2[v]]) for v in names]
        ctx.raises(ValueError, lambda: ImportanceNetwork(
            cg, rng=np.random.RandomState(1)), 'network:cycle',
            'cyclic network %r' % g2)
        cg = [Node([nodes[v]], [nodes[p] for p in g[v]]) for v in names]
        ctx.true(list(hu.validate_cgpms(cg)) == cg, 'helpers:validate',
                 'valid models refused or changed')
        i = int(rng.randint(n))
        dup = list(cg)
        dup.insert(int(rng.randint(n + 1)),
                   Node([200, cg[i].outputs[0]], []))
        for f in (hu.validate_cgpms, ImportanceNetwork):
            ctx.raises(ValueError, lambda: f(dup), 'helpers:duplicate',
                       'duplicate output')
            ctx.raises(ValueError, lambda: f(cg + [Node([], [])]),
                       'helpers:no-output', 'model without outputs')
        ctx.case(dict(g=g, cycle=cyc), n > 1)


def query(rng, models, card, exact, full=False):
    vs = [exact.vars[i] for i in rng.permutation(len(exact.vars))]
    nt = len(vs) if full else int(rng.randint(1, len(vs) + 1))
    ne = 0 if full else int(rng.randint(0, len(vs) - nt + 1))
    env = dict(zip(exact.vars, list(exact.p)[rng.randint(len(exact.p))]))
    return ({v: env[v] for v in vs[:nt]},
            {v: env[v] for v in vs[nt:nt + ne]})


def ancestral(models, cons):
    """Do the constraints include every ancestor of themselves?"""
    w = {v: m for m in models for v in m.outputs}
    need = set()
    for v in cons:
        need |= {i for i in w[v].inputs if i in w}
        # a multivariate model constrained in part is still exact
    return need <= set(cons)


@scenario(quick=50, thorough=240)
def fully_specified(ctx):
    """Sum of the parts, exactly, with a single sample."""
    from cgpm.network.importance import ImportanceNetwork
    rng = ctx.rng
    for _ in range(12):
        models, card, exo = nets.random_network(
            rng, int(rng.randint(1, 7)), zeros=.2,
            exogenous=int(rng.randint(0, 3)))
        inputs = {e: int(rng.randint(card[e])) for e in exo}
        exact = nets.Exact(models, card, inputs)
        net = ImportanceNetwork(models, rng=np.random.RandomState(
            rng.randint(2**31 - 1)))
        for _ in range(5):
            t, _ = query(rng, models, card, exact, full=True)
            if rng.rand() < .4:
                v = exact.vars[rng.randint(len(exact.vars))]
                t[v] = int(rng.randint(card[v]))
            keep = dict(t), dict(inputs)
            lp = net.logpdf(None if rng.rand() < .5 else 3, t, None, inputs)
            ctx.close(lp, exact.logpdf(t), 'network:product',
                      'density of %r given inputs %r' % (t, inputs),
                      1e-9, 1e-9)
            ctx.true((t, inputs) == keep, 'network:argument-changed',
                     'arguments changed')
            # condition on an ancestrally closed set: still exact
            order = []
            w = {v: m for m in models for v in m.outputs}
            left = list(exact.vars)
            while left:
                for v in list(left):
                    if all(i in order or i not in w for i in w[v].inputs):
                        order.append(v)
                        left.remove(v)
            k = int(rng.randint(0, len(order) + 1))
            cons = {v: t[v] for v in order[:k]}
            targ = {v: t[v] for v in order[k:]}
            if targ and exact.mass(cons) > 0:
                ctx.close(net.logpdf(None, targ, cons, inputs),
                          exact.logpdf(targ, cons), 'network:conditional',
                          'density of %r given %r' % (targ, cons), 1e-9, 1e-9)
            elif targ:
                ctx.raises(ValueError, lambda: net.logpdf(
                    None, targ, cons, inputs), 'network:impossible',
                    'density given impossible %r' % cons)
                ctx.raises(ValueError, lambda: net.simulate(
                    None, list(targ), cons, inputs), 'network:impossible',
                    'sample given impossible %r' % cons)
                ctx.raises(ValueError, lambda: net.simulate(
                    None, list(targ), cons, inputs, 3), 'network:impossible',
                    'samples given impossible %r' % cons)
            ctx.case(dict(t=t, cons=cons, inputs=inputs,
                          graph=[(m.outputs, m.inputs) for m in models]),
                     len(models) > 1)
        # every part is asked only about its own variables
        for m in models:
            for what, rowid, t, e, i in m.calls:
                ctx.true(set(t) <= set(m.outputs) and set(e) <= set(m.outputs)
                         and set(i) == set(m.inputs), 'network:part-query',
                         'model %r|%r asked %r' % (
                             m.outputs, m.inputs, (t, e, i)))
            ctx.count('part queries seen', len(m.calls))


@scenario(quick=20, thorough=80)
def missing_inputs(ctx):
    """A query that needs an exogenous input is not answered without it."""
    from cgpm.network.importance import ImportanceNetwork
    rng = ctx.rng
    for _ in range(15):
        models, card, exo = nets.random_network(
            rng, int(rng.randint(1, 6)), exogenous=2)
        if not exo:
            continue
        inputs = {e: int(rng.randint(card[e])) for e in exo}
        net = ImportanceNetwork(models, rng=np.random.RandomState(1))
        e = exo[rng.randint(len(exo))]
        user = next(m for m in models if e in m.inputs)
        part = {k: x for k, x in inputs.items() if k != e}
        v = user.outputs[0]
        ctx.raises(Exception, lambda: net.logpdf(None, {v: 0}, None, part),
                   'network:missing-input', 'density without input %r' % e)
        ctx.raises(Exception, lambda: net.simulate(None, [v], None, part),
                   'network:missing-input', 'sample without input %r' % e)
        ctx.case(dict(v=v, e=e))


def mean_pvalue(xs, mu):
    """Normal test of mean(xs) = mu; exact agreement when xs is constant."""
    from scipy import stats
    xs = np.asarray(xs, dtype=float)
    se = xs.std(ddof=1) / math.sqrt(len(xs))
    if se < 1e-12 * max(1., abs(mu)):
        return 1. if abs(xs.mean() - mu) < 1e-6 * max(1e-6, abs(mu)) else 0.
    return float(2 * stats.norm.sf(abs(xs.mean() - mu) / se))


@scenario(quick=60, thorough=240, timeout=300)
def estimates(ctx):
    """Density estimates with unobserved variables against enumeration."""
    from cgpm.network.importance import ImportanceNetwork
    rng = ctx.rng
    models, card, exo = nets.random_network(
        rng, int(rng.randint(2, 6)), exogenous=int(rng.randint(0, 2)))
    inputs = {e: int(rng.randint(card[e])) for e in exo}
    exact = nets.Exact(models, card, inputs)
    for _ in range(2):
        t, e = query(rng, models, card, exact)
        want = math.exp(exact.logpdf(t))
        net = ImportanceNetwork(models, accuracy=int(rng.randint(1, 6)),
                                rng=np.random.RandomState(
                                    rng.randint(2**31 - 1)))
        # without constraints the estimate is unbiased at any accuracy
        ctx.stat('network:estimate', 'mean density of %r, accuracy %d' % (
            t, net.accuracy), lambda n: mean_pvalue(
                [math.exp(net.logpdf(None, t, None, inputs))
                 for _ in range(n)], want), 250,
            graph=[(m.outputs, m.inputs) for m in models])
        if e:
            want = exact.logpdf(t, e)
            big = ImportanceNetwork(models, accuracy=1500,
                                    rng=np.random.RandomState(
                                        rng.randint(2**31 - 1)))

            def test(n):
                x = [math.exp(big.logpdf(None, t, e, inputs))
                     for _ in range(max(4, n))]
                # ratio bias at this accuracy is far below the slack
                m = float(np.mean(x))
                if abs(m - math.exp(want)) < .01 * math.exp(want):
                    return 1.
                return mean_pvalue(x, math.exp(want))
            ctx.stat('network:estimate', 'density of %r given %r' % (t, e),
                     test, 5, graph=[(m.outputs, m.inputs) for m in models])
            # the estimate sharpens as the accuracy grows
            def spread(accuracy, n):
                net = ImportanceNetwork(models, accuracy=accuracy,
                                        rng=np.random.RandomState(
                                            rng.randint(2**31 - 1)))
                return float(np.std([net.logpdf(None, t, e, inputs)
                                     for _ in range(n)]))
            rough, fine = spread(30, 30), spread(1500, 6)
            if rough > .005:
                # (expected: a seventh)
                ctx.count('estimates seen to sharpen')
                ctx.true(fine < .7 * rough, 'network:precision', 'density of '
                         '%r given %r: spread %.3g at accuracy 30, %.3g at '
                         '1500' % (t, e, rough, fine))
        ctx.case(dict(t=t, e=e, inputs=inputs,
                      graph=[(m.outputs, m.inputs) for m in models]),
                 len(models) > 1)


@scenario(quick=60, thorough=240, timeout=300)
def samples(ctx):
    """Samples against enumeration; counts and keys of what is returned."""
    from cgpm.network.importance import ImportanceNetwork
    rng = ctx.rng
    zeros = .6 if rng.rand() < .35 else 0.
    models, card, exo = nets.random_network(
        rng, int(rng.randint(2, 6)), exogenous=int(rng.randint(0, 2)),
        zeros=zeros)
    inputs = {e: int(rng.randint(card[e])) for e in exo}
    exact = nets.Exact(models, card, inputs)
    for _ in range(2):
        for _ in range(8 if zeros else 1):
            t, e = query(rng, models, card, exact)
            if e and exact.mass(e) >= .3:
                break
        t = list(t)[:3]
        acc = 1 if not e else 40
        if zeros:
            # (samples of no weight happen, samples of weight are certain)
            while e and exact.mass(e) < .3:
                e.popitem()
            acc = 1 if not e else 150
        net = ImportanceNetwork(models, accuracy=acc,
                                rng=np.random.RandomState(
                                    rng.randint(2**31 - 1)))
        want = exact.distribution(t, e)
        keep = list(t), dict(e), dict(inputs)
        one = net.simulate(None, t, e, inputs)
        ctx.true(isinstance(one, dict) and set(one) == set(t),
                 'network:sample-shape', 'one sample %r of %r' % (one, t))
        few = net.simulate(None, t, e, inputs, 3)
        ctx.true(isinstance(few, list) and len(few) == 3 and all(
            set(s) == set(t) for s in few), 'network:sample-shape',
            'three samples %r of %r' % (few, t))
        ctx.true((t, e, inputs) == keep, 'network:argument-changed',
                 'arguments changed')

        def test(n):
            seen = {}
            for s in net.simulate(None, t, e, inputs, n):
                k = tuple(s[v] for v in t)
                seen[k] = seen.get(k, 0) + 1
            return chi2_pvalue(seen, want)
        ctx.stat('network:samples', 'samples of %r given %r' % (t, e), test,
                 500 if not e else 60 if zeros else 120, stages=((1, 1e-3), (3, 1e-4),
                                                (6, 1e-7)),
                 graph=[(m.outputs, m.inputs) for m in models])
        ctx.case(dict(t=t, e=e, inputs=inputs,
                      graph=[(m.outputs, m.inputs) for m in models]),
                 len(models) > 1)


@scenario(quick=30, thorough=120, timeout=300)
def composite_state(ctx):
    """A crosscat state with discrete models hooked to its columns."""
    rng = ctx.rng
    n_cols = int(rng.randint(1, 4))
    st, X, specs = mix.random_state(
        rng, n_cols=n_cols, types=['bernoulli', 'categorical'],
        outputs=list(range(n_cols)), missing=.2)
    card = {c: int((specs[c]['distargs'] or {}).get('k', 2)) for c in X}
    models = []
    known = list(X)
    for j in range(int(rng.randint(1, 4))):
        outs = [40 + 2 * j] + ([41 + 2 * j] if rng.rand() < .4 else [])
        ins = [known[i] for i in rng.permutation(len(known))[
            :int(rng.randint(0, 3))]]
        for o in outs:
            card[o] = int(rng.randint(2, 4))
        models.append(nets.Cpt(
            outs, ins, card, nets.random_table(rng, outs, ins, card),
            rng=np.random.RandomState(rng.randint(2**31 - 1))))
        known += outs
    tokens = []
    for i in rng.permutation(len(models)):
        tokens.append(st.compose_cgpm(models[i]))
    ctx.true(len(set(tokens)) == len(tokens) and st.is_composite(),
             'composite:tokens', 'tokens %r' % tokens)
    ref = mix.RefState(st, X)
    foreign = [o for m in models for o in m.outputs]
    allv = list(X) + foreign

    # exact joint over one hypothetical row
    joint = {}
    for vals in itertools.product(*[range(card[v]) for v in allv]):
        env = dict(zip(allv, vals))
        lp = ref.logpdf({c: float(env[c]) for c in X})
        for m in models:
            lp += math.log(m.mass({o: env[o] for o in m.outputs},
                                  {i: env[i] for i in m.inputs}))
        joint[vals] = math.exp(lp)

    def mass(values):
        idx = [(allv.index(v), x) for v, x in values.items()]
        return math.fsum(p for s, p in joint.items()
                         if all(s[i] == x for i, x in idx))
    ctx.close(mass({}), 1., 'composite:total', 'reference', 1e-6, 1e-6)
    for _ in range(6):
        env = dict(zip(allv, list(joint)[rng.randint(len(joint))]))
        ctx.close(st.logpdf(None, env), math.log(mass(env)),
                  'composite:product', 'density of %r' % env, 1e-7, 1e-7,
                  X=X, specs=specs)
        ctx.case(dict(env=env, X=X,
                      graph=[(m.outputs, m.inputs) for m in models]))
    perm = [allv[i] for i in rng.permutation(len(allv))]
    env = dict(zip(allv, list(joint)[rng.randint(len(joint))]))
    nt = int(rng.randint(1, len(perm) + 1))
    t = {v: env[v] for v in perm[:nt]}
    want = mass(t)
    ctx.stat('composite:estimate', 'mean density of %r' % t,
             lambda n: mean_pvalue(
                 [math.exp(st.logpdf(None, t)) for _ in range(n)], want),
             120, X=X, specs=specs)
    tl = perm[:2]
    wd = {}
    for s, p in joint.items():
        k = tuple(s[allv.index(v)] for v in tl)
        wd[k] = wd.get(k, 0.) + p

    def test(n):
        seen = {}
        for s in st.simulate(None, tl, N=n):
            k = tuple(int(s[v]) for v in tl)
            seen[k] = seen.get(k, 0) + 1
        return chi2_pvalue(seen, wd)
    ctx.stat('composite:samples', 'samples of %r' % tl, test, 150)
    # refused compositions leave the state as it was
    tok = set(st.hooked_cgpms)
    dup = nets.Cpt([foreign[0]], [], card,
                   nets.random_table(rng, [foreign[0]], [], card))
    ctx.raises(ValueError, lambda: st.compose_cgpm(dup),
               'composite:duplicate', 'duplicate output composed')
    card[90] = 2
    m0 = nets.Cpt([90], [91], {90: 2, 91: 2}, {(0,): [.5, .5],
                                               (1,): [.2, .8]})
    m1 = nets.Cpt([91], [90], {90: 2, 91: 2}, {(0,): [.5, .5],
                                               (1,): [.2, .8]})
    t0 = st.compose_cgpm(m0)
    ctx.raises(ValueError, lambda: st.compose_cgpm(m1), 'composite:cycle',
               'cycle composed')
    st.decompose_cgpm(t0)
    ctx.true(set(st.hooked_cgpms) == tok, 'composite:refused-left-trace',
             'hooked %r, expected %r' % (set(st.hooked_cgpms), tok))
    env = dict(zip(allv, list(joint)[rng.randint(len(joint))]))
    ctx.close(st.logpdf(None, env), math.log(mass(env)),
              'composite:product', 'density of %r after refusals' % env,
              1e-7, 1e-7)
    for k in [tokens[i] for i in rng.permutation(len(tokens))]:
        st.decompose_cgpm(k)
    ctx.true(not st.is_composite(), 'composite:decomposed',
             'still composite after decomposing everything')
    mix.check_state(ctx, st, X, 'after decomposing', 'composite')


@scenario(quick=20, thorough=80, timeout=300)
def composite_rows(ctx):
    """For a recorded row, the row's own observed cells are inputs of the
    hooked models, and the remaining cells follow its clusters."""
    rng = ctx.rng
    st, X, specs = mix.random_state(
        rng, n_rows=6, n_cols=3, types=['bernoulli'], outputs=[0, 1, 2],
        missing=.3)
    card = {0: 2, 1: 2, 2: 2, 40: 2}
    ins = [int(c) for c in rng.permutation(3)[:2]]
    m = nets.Cpt([40], ins, card, nets.random_table(rng, [40], ins, card),
                 rng=np.random.RandomState(3))
    st.compose_cgpm(m)
    views = {v: mix.ref_view(st.views[v], X) for v in st.views}
    for r in range(6):
        known = {c: int(X[c][r]) for c in X if not mix.isnan(X[c][r])}
        free = [c for c in ins if c not in known]
        want = 0.
        for vals in itertools.product([0, 1], repeat=len(free)):
            env = dict(known)
            env.update(zip(free, vals))
            lp = sum(views[st.Zv(c)].row(
                views[st.Zv(c)].Zr[r], {c: float(env[c])}) for c in free)
            want += math.exp(lp) * m.mass({40: 1}, {i: env[i] for i in ins})
        if not free:
            ctx.close(st.logpdf(r, {40: 1}), math.log(want),
                      'composite:row', 'row %d: foreign column' % r,
                      1e-7, 1e-7, X=X)
        else:
            ctx.stat('composite:row', 'row %d: foreign column' % r,
                     lambda n: mean_pvalue(
                         [math.exp(st.logpdf(r, {40: 1}))
                          for _ in range(n)], want), 150, X=X)
        ctx.stat('composite:row-samples', 'row %d: foreign column' % r,
                 lambda n: chi2_pvalue(
                     count(s[40] for s in st.simulate(r, [40], N=n)),
                     {0: 1 - want, 1: want}), 120, X=X)
        ctx.case(dict(r=r, X=X, ins=ins))


def count(xs):
    out = {}
    for x in xs:
        out[int(x)] = out.get(int(x), 0) + 1
    return out


@scenario(quick=10, thorough=24)
def barebones(ctx):
    """The minimal model of the interface: stores what it is given, answers
    for its outputs, round trips."""
    from cgpm.dummy.barebones import BareBonesCGpm
    from cgpm.cgpm import CGpm
    rng = ctx.rng
    outs = [int(v) for v in rng.permutation(9)[:1 + rng.randint(3)]]
    ins = [10 + int(v) for v in rng.permutation(9)[:rng.randint(3)]]
    b = BareBonesCGpm(outs, ins)
    ctx.true(isinstance(b, CGpm) and b.outputs == outs and b.inputs == ins,
             'barebones:variables', '%r %r' % (b.outputs, b.inputs))
    s = b.simulate(None, outs, None, {i: 0 for i in ins})
    ctx.true(set(s) == set(outs), 'barebones:simulate', '%r' % (s,))
    for n in (0, 1, 3):
        ss = b.simulate(None, outs, None, {i: 0 for i in ins}, n)
        ctx.true(len(ss) == n and all(set(x) == set(outs) for x in ss),
                 'barebones:simulate', 'N=%d: %r' % (n, ss))
    ctx.close(b.logpdf(None, s, None, {}), 0., 'barebones:logpdf', 'density')
    m = b.to_metadata()
    import importlib
    f = getattr(importlib.import_module(m['factory'][0]), m['factory'][1])
    c = f.from_metadata(m)
    ctx.true(type(c) is BareBonesCGpm and c.outputs == outs and
             c.inputs == ins, 'barebones:metadata', '%r' % m)
    for name in ('incorporate', 'unincorporate', 'logpdf', 'simulate',
                 'logpdf_score', 'transition', 'to_metadata'):
        args = {'incorporate': (0, {}), 'unincorporate': (0,),
                'logpdf': (0, {}), 'simulate': (0, [])}.get(name, ())
        ctx.raises(NotImplementedError, lambda: getattr(
            CGpm.__new__(CGpm), name)(*args), 'barebones:abstract',
            'abstract %s' % name)
    ctx.case(dict(outs=outs, ins=ins))
