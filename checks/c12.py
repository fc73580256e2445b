"""C12: dependence constraints hold in every column partition, always."""

import copy
import itertools
import math

import numpy as np

import hist
import mix
from vlib import chi2_pvalue, scenario

RULE = ('a case is one partition judged against its constraint set, one '
        'constraint set accepted or refused, or one draw of a constrained '
        'simulator')

TECHNIQUE = ('runtime monitor after every operation and wrapped around every '
             'column move of random histories of constrained states; '
             'enumerated partitions as the oracle for the constrained density '
             'and simulators')


def gen_constraints(rng, n, dep=True, ind=True, density=.3):
    """Satisfiable: blocks are disjoint, enemies never share a block."""
    cols = [int(c) for c in rng.permutation(n)]
    Cd, Ci = [], []
    if dep:
        while len(cols) >= 2 and rng.rand() < .7:
            k = int(rng.randint(2, min(4, len(cols)) + 1))
            Cd.append([cols.pop() for _ in range(k)])
    block = {c: i for i, b in enumerate(Cd) for c in b}
    if ind:
        for i in range(n):
            for j in range(i):
                if rng.rand() < density and (
                        i not in block or block[i] != block.get(j)):
                    Ci.append((i, j) if rng.rand() < .5 else (j, i))
        Ci = [Ci[i] for i in rng.permutation(len(Ci))]
    return Cd, Ci


def a_partition(rng, n, Cd, Ci):
    """Some partition which meets the constraints."""
    block = {c: b for b in Cd for c in b}
    Z = {}
    for c in rng.permutation(n):
        group = block.get(int(c), [int(c)])
        if group[0] in Z:
            continue
        bad = {Z[b if a in group else a] for a, b in Ci
               if (a in group) != (b in group)
               and (b if a in group else a) in Z}
        z = int(rng.choice([k for k in range(n) if k not in bad][:3]))
        Z.update((m, z) for m in group)
    assert satisfied(Z, Cd, Ci)
    return [Z[c] for c in range(n)]


def satisfied(Z, Cd, Ci):
    return all(len({Z[c] for c in b}) == 1 for b in Cd) and \
        all(Z[a] != Z[b] for a, b in Ci)


def partitions(n):
    if n == 0:
        yield []
        return
    for p in partitions(n - 1):
        for k in range(max(p) + 2 if p else 1):
            yield p + [k]


def canonical(Z):
    m = {}
    return tuple(m.setdefault(z, len(m)) for z in Z)


def effective_logp(Z, alpha, Cd):
    seen, counts = set(), {}
    for b in Cd:
        counts[Z[b[0]]] = counts.get(Z[b[0]], 0) + 1
        seen |= set(b)
    for i, z in enumerate(Z):
        if i not in seen:
            counts[z] = counts.get(z, 0) + 1
    return mix.crp_logp(list(counts.values()), alpha)


# ---------------------------------------------------------------- utilities ---

@scenario(quick=40, thorough=160)
def density(ctx):
    """exp(logp) is a distribution over exactly the valid partitions."""
    from cgpm.utils import general as gu
    rng = ctx.rng
    for _ in range(12):
        n = int(rng.randint(1, 7))
        Cd, _ = gen_constraints(rng, n, ind=False)
        alpha = float(np.exp(rng.uniform(-3, 3)))
        total = []
        for Z in partitions(n):
            names = [int(v) for v in rng.permutation(20)[:max(Z) + 1]]
            lab = {i: names[z] for i, z in enumerate(Z)}
            order = [int(i) for i in rng.permutation(n)]
            arg = {i: lab[i] for i in order}
            lp = gu.logp_crp_constrained_dependent(arg, alpha, Cd)
            want = effective_logp(Z, alpha, Cd) if satisfied(Z, Cd, []) \
                else -mix.INF
            ctx.close(lp, want, 'density', 'logp of %r under %r alpha %r' % (
                arg, Cd, alpha), Z=arg, Cd=Cd, alpha=alpha)
            total.append(lp)
            ctx.case(dict(Z=arg, Cd=Cd, alpha=alpha), len(Cd) > 0)
        ctx.close(mix.lse(total), 0., 'density:total', 'total density over '
                  'partitions of %d under %r' % (n, Cd), 1e-7, 1e-7, Cd=Cd)


@scenario(quick=30, thorough=120)
def simulator_dependent(ctx):
    from cgpm.utils import general as gu
    rng = ctx.rng
    n = int(rng.randint(2, 6))
    Cd, _ = gen_constraints(rng, n, ind=False)
    alpha = float(np.exp(rng.uniform(-1.5, 1.5)))
    want = {}
    for Z in partitions(n):
        if satisfied(Z, Cd, []):
            want[canonical(Z)] = math.exp(effective_logp(Z, alpha, Cd))

    def test(m):
        seen = {}
        srng = np.random.RandomState(rng.randint(2**31 - 1))
        for _ in range(m):
            Z = gu.simulate_crp_constrained_dependent(n, alpha, Cd, rng=srng)
            ctx.true(len(Z) == n and satisfied(Z, Cd, []),
                     'simulator:invalid', 'drew %r under %r' % (Z, Cd))
            z = canonical(Z)
            seen[z] = seen.get(z, 0) + 1
            ctx.case(dict(Z=z, Cd=Cd))
        return chi2_pvalue(seen, want)
    ctx.stat('simulator:distribution', 'dependent CRP of %d under %r alpha %r'
             % (n, Cd, alpha), test, 600, Cd=Cd, alpha=alpha)


def sequential(n, alpha, Cd, Ci):
    """Friends sit down together; a table with an enemy is barred; otherwise
    proportional to customers seated, alpha for a new table."""
    friends = {c: b for b in Cd for c in b}
    enemies = {frozenset(p) for p in Ci}
    out = {}

    def go(i, Z, p):
        while i < n and Z[i] is not None:
            i += 1
        if i == n:
            k = canonical(Z)
            out[k] = out.get(k, 0.) + p
            return
        group = friends.get(i, [i])
        tables = sorted({z for z in Z if z is not None})
        w = {}
        for t in tables:
            seated = [c for c in range(n) if Z[c] == t]
            if not any(frozenset((a, b)) in enemies
                       for a in seated for b in group):
                w[t] = float(len(seated))
        w[len(tables)] = alpha
        s = sum(w.values())
        for t, x in w.items():
            Z2 = list(Z)
            for g in group:
                Z2[g] = t
            go(i + 1, Z2, p * x / s)
    go(0, [None] * n, 1.)
    return out


@scenario(quick=40, thorough=160)
def simulator_constrained(ctx):
    from cgpm.utils import general as gu
    rng = ctx.rng
    n = int(rng.randint(2, 6))
    Cd, Ci = gen_constraints(rng, n, density=.35)
    alpha = float(np.exp(rng.uniform(-1.5, 1.5)))
    want = sequential(n, alpha, Cd, Ci)

    def test(m):
        seen = {}
        srng = np.random.RandomState(rng.randint(2**31 - 1))
        for _ in range(m):
            Z = gu.simulate_crp_constrained(
                n, alpha, Cd, Ci, {}, {}, rng=srng)
            ctx.true(len(Z) == n and satisfied(Z, Cd, Ci),
                     'simulator:invalid', 'drew %r under %r %r' % (
                         Z, Cd, Ci), Cd=Cd, Ci=Ci)
            z = canonical(Z)
            seen[z] = seen.get(z, 0) + 1
            ctx.case(dict(Z=z, Cd=Cd, Ci=Ci))
        return chi2_pvalue(seen, want)
    ctx.stat('simulator:distribution', 'constrained CRP of %d under %r %r '
             'alpha %r' % (n, Cd, Ci, alpha), test, 400, Cd=Cd, Ci=Ci)


@scenario(quick=25, thorough=100)
def simulator_larger(ctx):
    """Only validity, for larger sets, including row constraints."""
    from cgpm.utils import general as gu
    rng = ctx.rng
    for _ in range(25):
        n = int(rng.randint(5, 16))
        Cd, Ci = gen_constraints(rng, n, density=float(
            rng.choice([.05, .3, .9])))
        alpha = float(np.exp(rng.uniform(-6, 6)))
        keep = copy.deepcopy((Cd, Ci))
        seed = int(rng.randint(2**31 - 1))
        Z = gu.simulate_crp_constrained(
            n, alpha, Cd, Ci, {}, {}, rng=np.random.RandomState(seed))
        ctx.true(len(Z) == n and satisfied(Z, Cd, Ci), 'simulator:invalid',
                 'drew %r under %r %r' % (Z, Cd, Ci), Cd=Cd, Ci=Ci)
        ctx.true((Cd, Ci) == keep, 'simulator:arguments-changed',
                 '%r became %r' % (keep, (Cd, Ci)))
        Z2 = gu.simulate_crp_constrained(
            n, alpha, Cd, Ci, {}, {}, rng=np.random.RandomState(seed))
        ctx.true(list(Z) == list(Z2), 'simulator:not-reproducible',
                 '%r then %r' % (Z, Z2))
        Z = gu.simulate_crp_constrained_dependent(
            n, alpha, Cd, rng=np.random.RandomState(seed))
        ctx.true(len(Z) == n and satisfied(Z, Cd, []), 'simulator:invalid',
                 'drew %r under %r' % (Z, Cd), Cd=Cd)
        ctx.case(dict(n=n, Cd=Cd, Ci=Ci, Z=Z))


@scenario(quick=15, thorough=60)
def simulator_row_constraints(ctx):
    """Columns with contradictory row constraints never share a table."""
    from cgpm.utils import general as gu
    from cgpm.utils import validation as vu
    rng = ctx.rng
    for _ in range(25):
        n = int(rng.randint(2, 8))
        Rd, Ri = {}, {}
        for c in range(n):
            if rng.rand() < .5:
                Rd[c] = [[0, 1]] if rng.rand() < .7 else [[0, 1], [2, 3]]
            elif rng.rand() < .5:
                Ri[c] = [(0, 1)] if rng.rand() < .7 else [(3, 2)]
        def clash(a, b):
            pairs = {frozenset(p) for c in (a, b) for p in Ri.get(c, [])}
            same = {frozenset(q) for c in (a, b) for q in Rd.get(c, [])}
            return bool(pairs & same)
        Z = gu.simulate_crp_constrained(
            n, 1., [], [], Rd, Ri, rng=np.random.RandomState(
                rng.randint(2**31 - 1)))
        for a, b in itertools.combinations(range(n), 2):
            ctx.true(Z[a] != Z[b] or not clash(a, b),
                     'simulator:row-constraints', 'columns %d and %d with '
                     'contradictory row constraints share a table: %r %r %r'
                     % (a, b, Z, Rd, Ri))
        # A dependent pair: refused exactly if its row constraints clash.
        a, b = (int(v) for v in rng.permutation(n)[:2])
        bad = clash(a, b)
        same = [0 if c in (a, b) else c + 1 for c in range(n)]
        got = vu.validate_crp_constrained_partition(same, [[a, b]], [], Rd,
                                                    Ri)
        ctx.true(bool(got) != bad, 'validate:row-constraints', 'partition %r '
                 'with dependent (%d, %d) under %r %r judged %r' % (
                     same, a, b, Rd, Ri, got))
        # Each column on its own is satisfiable by construction.
        if bad:
            ctx.raises(ValueError, lambda: vu.validate_crp_constrained_input(
                n, [[a, b]], [], Rd, Ri), 'validate:row-constraints',
                'dependent (%d, %d) under clashing %r %r' % (a, b, Rd, Ri))
            ctx.count('clashing row constraints refused')
        else:
            vu.validate_crp_constrained_input(n, [[a, b]], [], Rd, Ri)
            Z2 = gu.simulate_crp_constrained(
                n, 1., [[a, b]], [], Rd, Ri, rng=np.random.RandomState(
                    rng.randint(2**31 - 1)))
            ctx.true(Z2[a] == Z2[b], 'simulator:invalid',
                     'drew %r under dependent (%d, %d)' % (Z2, a, b))
        ctx.case(dict(Rd=Rd, Ri=Ri, Z=Z), len(Rd) and len(Ri))


@scenario(quick=20, thorough=80)
def validation(ctx):
    """Constraint sets accepted or refused; partitions judged."""
    from cgpm.utils import general as gu
    from cgpm.utils import validation as vu
    rng = ctx.rng
    for _ in range(60):
        n = int(rng.randint(2, 9))
        Cd, Ci = gen_constraints(rng, n)
        ok = vu.validate_dependency_constraints(n, Cd, Ci)
        ctx.true(ok is True, 'validate:refused', 'valid %r %r gave %r' % (
            Cd, Ci, ok))
        vu.validate_dependency_constraints(None, Cd, Ci)
        vu.validate_crp_constrained_input(n, Cd, Ci, {}, {})
        bad_Cd, bad_Ci = copy.deepcopy(Cd), list(Ci)
        how = int(rng.randint(7))
        if how == 0:
            used = {c for b in Cd for c in b}
            bad_Cd.insert(rng.randint(len(bad_Cd) + 1), [int(rng.choice(
                [c for c in range(n) if c not in used] or [0]))])
        elif how == 1 and bad_Cd:
            bad_Cd[rng.randint(len(bad_Cd))].append(
                n + int(rng.randint(0, 3)))
        elif how == 2 and bad_Cd:
            b = bad_Cd[rng.randint(len(bad_Cd))]
            c = b[rng.randint(len(b))]
            other = bad_Cd[rng.randint(len(bad_Cd))]
            other.append(c)
        elif how == 3 and bad_Cd:
            b = bad_Cd[rng.randint(len(bad_Cd))]
            i, j = rng.permutation(len(b))[:2]
            bad_Ci.insert(rng.randint(len(bad_Ci) + 1), (b[i], b[j]))
        elif how == 4:
            c = int(rng.randint(n))
            bad_Ci.insert(rng.randint(len(bad_Ci) + 1), (c, c))
        elif how == 5:
            p = [int(rng.randint(n)), n + int(rng.randint(0, 2))]
            bad_Ci.insert(rng.randint(len(bad_Ci) + 1),
                          tuple(p if rng.rand() < .5 else p[::-1]))
        else:
            bad_Ci.insert(rng.randint(len(bad_Ci) + 1),
                          (0,) if rng.rand() < .5 else (0, 1, n - 1))
        if (bad_Cd, bad_Ci) != (Cd, Ci):
            ctx.raises(ValueError, lambda: vu.validate_dependency_constraints(
                n, bad_Cd, bad_Ci), 'validate:accepted',
                'contradictory constraints n=%d %r %r' % (n, bad_Cd, bad_Ci))
            ctx.raises(ValueError, lambda: gu.simulate_crp_constrained(
                n, 1., bad_Cd, bad_Ci, {}, {}), 'validate:accepted',
                'simulating n=%d under %r %r' % (n, bad_Cd, bad_Ci))
        Z = [int(z) for z in rng.randint(0, 3, n)]
        arg = Z if rng.rand() < .5 else {
            int(i): Z[i] for i in rng.permutation(n)}
        got = vu.validate_crp_constrained_partition(arg, Cd, Ci, {}, {})
        ctx.true(bool(got) == satisfied(Z, Cd, Ci), 'validate:partition',
                 '%r under %r %r judged %r' % (arg, Cd, Ci, got))
        # effective counts
        ne = gu.get_crp_constrained_num_effective(n, Cd)
        ctx.true(ne == n - sum(len(b) - 1 for b in Cd),
                 'effective-number', 'n=%d %r: %r' % (n, Cd, ne))
        if satisfied(Z, Cd, []):
            counts = dict(gu.get_crp_constrained_partition_counts(
                {i: z for i, z in enumerate(Z)}, Cd))
            tab = {}
            reps = [b[0] for b in Cd] + [
                i for i in range(n) if not any(i in b for b in Cd)]
            for i in reps:
                tab[Z[i]] = tab.get(Z[i], 0) + 1
            ctx.true({k: v for k, v in counts.items() if v} == tab,
                     'effective-counts', '%r under %r: %r' % (Z, Cd, counts))
        a, b = (int(v) for v in rng.permutation(n)[:2])
        got = vu.check_compatible_customers(Cd, Ci, {}, {}, a, b)
        ctx.true(bool(got) == ((a, b) not in Ci and (b, a) not in Ci),
                 'compatible', '%d and %d under %r: %r' % (a, b, Ci, got))
        Cd2, Ci2 = gen_constraints(rng, n)
        clash = any(x in blk and y in blk for x, y in Ci for blk in Cd2) or \
            any(x in blk and y in blk for x, y in Ci2 for blk in Cd)
        got = vu.check_compatible_constraints(Cd, Ci, Cd2, Ci2)
        joint = any(
            all(len({Zp[c] for c in blk}) == 1 for blk in Cd + Cd2) and
            all(Zp[x] != Zp[y] for x, y in Ci + Ci2)
            for Zp in partitions(n)) if n <= 5 else None
        if clash:
            ctx.true(got is False, 'compatible', '%r and %r judged '
                     'compatible' % ((Cd, Ci), (Cd2, Ci2)))
        elif joint:
            ctx.true(got is True, 'compatible', '%r and %r judged '
                     'incompatible' % ((Cd, Ci), (Cd2, Ci2)))
        ctx.case(dict(n=n, Cd=Cd, Ci=Ci, bad=[bad_Cd, bad_Ci], Z=Z))


# -------------------------------------------------------------------- states ---

class MoveMonitor(object):
    """Judges the column partition at every method boundary of the state that
    can move columns."""

    NAMES = ['_gibbs_transition_dim', '_migrate_dim', 'transition_dims',
             'incorporate_dim', 'unincorporate_dim', 'transition']

    def __init__(self, ctx, Cd, Ci):
        from cgpm.crosscat.state import State
        self.ctx, self.Cd, self.Ci = ctx, Cd, Ci
        self.saved = {}
        for n in self.NAMES:
            f = getattr(State, n, None)
            if f is None:
                continue
            self.saved[n] = f
            setattr(State, n, self.wrap(n, f))

    def wrap(self, name, f):
        def g(state, *a, **k):
            r = f(state, *a, **k)
            self.check(state, 'after ' + name)
            return r
        return g

    def check(self, state, where):
        Z = dict(state.Zv())
        Cd = [[c for c in b if c in Z] for b in self.Cd]
        Cd = [b for b in Cd if len(b) > 1]
        Ci = [p for p in self.Ci if p[0] in Z and p[1] in Z]
        self.ctx.count('column partitions judged')
        self.ctx.true(satisfied(Z, Cd, Ci), 'state:violated',
                      '%s: partition %r under %r %r' % (where, Z, Cd, Ci),
                      Z=Z, Cd=Cd, Ci=Ci)
        return Cd, Ci

    def close(self):
        from cgpm.crosscat.state import State
        for n, f in self.saved.items():
            setattr(State, n, f)


def norm(Cd, Ci):
    return ({frozenset(b) for b in Cd}, {frozenset(p) for p in Ci})


def drive(ctx, Cd, Ci, n, steps, ops, engine_reload=True):
    rng = ctx.rng
    outputs, Zv = list(range(n)), None
    if ctx.index % 3 == 2:
        # columns of any number, in views of any number
        outputs = [int(c) for c in rng.permutation(40)[:n]]
        Zv = mix.relabel(rng, dict(zip(outputs, a_partition(rng, n, Cd, Ci))))
        Cd = [[outputs[c] for c in b] for b in Cd]
        Ci = [tuple(outputs[c] for c in p) for p in Ci]
    X, specs = mix.gen_table(rng, int(rng.randint(2, 8)), n, None, .1,
                             outputs)
    srng = mix.RecordingRng(rng.randint(2**31 - 1))
    if rng.rand() < .5:
        srng.steer = ctx.newrng()
    mon = MoveMonitor(ctx, Cd, Ci)
    try:
        st = mix.make_state(rng, X, specs, Cd=copy.deepcopy(Cd), Zv=Zv,
                            Ci=copy.deepcopy(Ci), state_rng=srng)
        mon.check(st, 'initially')
        h = hist.StateHistory(ctx, st, X, specs, ops=ops)
        removed = set()
        for i in range(steps):
            h.step()
            removed |= set(outputs) - set(h.X)
            # a constraint on a removed column is gone for good
            mon.Cd = [[c for c in b if c not in removed] for b in mon.Cd]
            mon.Cd = [b for b in mon.Cd if len(b) > 1]
            mon.Ci = [p for p in mon.Ci
                      if p[0] not in removed and p[1] not in removed]
            Cd2, Ci2 = mon.check(h.state, 'after ' + h.log[-1])
            ctx.true(norm(h.state.Cd, h.state.Ci) == norm(Cd2, Ci2),
                     'state:constraints-changed', 'constraints %r, expected '
                     '%r after %s' % ((h.state.Cd, h.state.Ci), (Cd2, Ci2),
                                      h.log), log=h.log)
            ctx.case(dict(Z=dict(h.state.Zv()), Cd=Cd2, Ci=Ci2, log=h.log),
                     bool(Cd2 or Ci2))
            if ctx.violations:
                return
        if mon.Cd and not mon.Ci:
            ref = mix.RefState(h.state, h.X)
            ctx.close(h.state.logpdf_score_crp(), ref.crp_score(),
                      'state:crp-score', 'column CRP score under %r' % mon.Cd,
                      1e-7, 1e-7, log=h.log)
        if h.state.Cd:
            Z = dict(h.state.Zv())
            try:
                h.state.transition(N=1, kernels=['columns'], progress=False)
                ctx.count('column kernels run under Cd')
            except ValueError:
                ctx.true(dict(h.state.Zv()) == Z, 'state:refused-but-moved',
                         'refused column transition moved %r to %r' % (
                             Z, dict(h.state.Zv())))
                ctx.count('column kernels refused under Cd')
            mix.check_state(ctx, h.state, h.X, 'after the column kernel',
                            'state')
    finally:
        mon.close()


OPS = [('transition', 4), ('rows_some', 1), ('columns_some', 4),
       ('incorporate', 1), ('unincorporate', 1), ('incorporate_dim', 3),
       ('unincorporate_dim', 1), ('force_cell', 1), ('update_cctype', 1),
       ('reload', 1)]


@scenario(quick=40, thorough=200, timeout=240)
def independent(ctx):
    n = int(ctx.rng.randint(2, 7) if ctx.index % 8 else 12)
    _, Ci = gen_constraints(ctx.rng, n, dep=False, density=float(
        ctx.rng.choice([.2, .5, 1.])))
    drive(ctx, [], Ci, n, 15, OPS)


@scenario(quick=40, thorough=200, timeout=240)
def dependent(ctx):
    n = int(ctx.rng.randint(2, 7) if ctx.index % 8 else 12)
    Cd, _ = gen_constraints(ctx.rng, n, ind=False)
    drive(ctx, Cd, [], n, 12, OPS)


@scenario(quick=40, thorough=200, timeout=240)
def both(ctx):
    n = int(ctx.rng.randint(3, 7) if ctx.index % 8 else 12)
    Cd, Ci = gen_constraints(ctx.rng, n)
    drive(ctx, Cd, Ci, n, 12, OPS)


@scenario(quick=20, thorough=100, timeout=240)
def members(ctx):
    """Every member of an engine keeps the constraints: those it starts with,
    those added, those read back, after inference and schema changes."""
    from cgpm.crosscat.engine import Engine
    rng = ctx.rng
    n = int(rng.randint(3, 7))
    Cd, Ci = gen_constraints(rng, n, dep=rng.rand() < .6)
    X, specs = mix.gen_table(rng, int(rng.randint(2, 6)), n, None, 0.)
    mp = lambda: dict(multiprocess=int(rng.rand() < .3))
    e = Engine(np.asarray([X[c] for c in range(n)], dtype=float).T,
               num_states=int(rng.randint(1, 3)),
               cctypes=[specs[c]['cctype'] for c in range(n)],
               distargs=[specs[c]['distargs'] for c in range(n)],
               Cd=copy.deepcopy(Cd), Ci=copy.deepcopy(Ci),
               rng=ctx.newrng(), **mp())
    log = ['start']

    def look():
        for i, s in enumerate(e.states):
            ctx.true(norm(s.Cd, s.Ci) == norm(Cd, Ci),
                     'members:constraints-changed', 'state %d: constraints '
                     '%r, expected %r' % (i, (s.Cd, s.Ci), (Cd, Ci)), log=log)
            ctx.true(satisfied(s.Zv(), Cd, Ci), 'members:violated',
                     'state %d: %r violates %r %r' % (
                         i, dict(s.Zv()), Cd, Ci), log=log)
        ctx.case(dict(Z=[dict(s.Zv()) for s in e.states], Cd=Cd, Ci=Ci,
                      log=log), bool(Cd or Ci))
    look()
    for _ in range(5):
        k = rng.randint(5)
        if k == 0:
            e.add_state(count=int(rng.randint(1, 4)), **mp())
        elif k == 1:
            e = Engine.from_metadata(e.to_metadata(), rng=ctx.newrng(),
                                     **mp())
        elif k == 2:
            e.transition(N=1, progress=False, kernels=[
                'alpha', 'rows', 'view_alphas'] + [
                    'columns'] * (not Cd), **mp())
        elif k == 3 and e.num_states() > 1:
            e.drop_state(0)
        elif n < 8 and not Cd:
            e.incorporate_dim(
                [1.] * e.states[0].n_rows(), [e.states[0].n_cols()],
                cctype='normal', **mp())
        else:
            continue
        log.append(['add', 'reload', 'transition', 'drop', 'dim'][k])
        look()
        if ctx.violations:
            return


@scenario(quick=15, thorough=60, timeout=240)
def released(ctx):
    """Once the last constrained column of a block goes, columns move."""
    rng = ctx.rng
    X, specs = mix.gen_table(rng, 4, 4, None, 0.)
    a, b = (int(v) for v in rng.permutation(4)[:2])
    st = mix.make_state(rng, X, specs, Cd=[[a, b]])
    st.unincorporate_dim(a)
    ctx.true(not st.Cd, 'state:constraints-changed',
             'Cd %r after removing %d' % (st.Cd, a))
    st.transition(N=2, kernels=['columns'], progress=False)
    del X[a]
    mix.check_state(ctx, st, X, 'after release', 'state')
    ctx.case(dict(a=a, b=b, Z=dict(st.Zv())))


@scenario(quick=20, thorough=80, timeout=240)
def accepted_or_refused(ctx):
    """State constructor: satisfiable sets accepted, contradictory ones and
    partitions that violate them refused."""
    from cgpm.crosscat.state import State
    rng = ctx.rng
    for _ in range(8):
        n = int(rng.randint(2, 6))
        X, specs = mix.gen_table(rng, 3, n, ['normal', 'bernoulli'], 0.)
        Cd, Ci = gen_constraints(rng, n)
        mix.make_state(rng, X, specs, Cd=copy.deepcopy(Cd),
                       Ci=copy.deepcopy(Ci))
        Z = {c: int(rng.randint(0, 3)) for c in range(n)}
        if satisfied(Z, Cd, Ci):
            st = mix.make_state(rng, X, specs, Cd=copy.deepcopy(Cd),
                                Ci=copy.deepcopy(Ci), Zv=Z)
            ctx.true(dict(st.Zv()) == Z, 'state:Zv', 'given %r, has %r' % (
                Z, dict(st.Zv())))
        else:
            ctx.raises(ValueError, lambda: mix.make_state(
                rng, X, specs, Cd=copy.deepcopy(Cd), Ci=copy.deepcopy(Ci),
                Zv=Z), 'state:violating-Zv', 'Zv %r under %r %r' % (
                    Z, Cd, Ci))
        bad = None
        if Cd:
            bad = (Cd, Ci + [tuple(Cd[0][:2])])
        elif Ci:
            bad = ([list(Ci[0])], Ci)
        if bad:
            ctx.raises(ValueError, lambda: mix.make_state(
                rng, X, specs, Cd=copy.deepcopy(bad[0]),
                Ci=copy.deepcopy(bad[1])), 'state:contradiction',
                'contradictory %r' % (bad,))
        ctx.case(dict(n=n, Cd=Cd, Ci=Ci, Z=Z), bool(Cd or Ci))


@scenario(quick=7, thorough=24, timeout=300)
def initial_distribution(ctx):
    """The initial partition of a constrained state."""
    rng = ctx.rng
    n = int(rng.randint(3, 5))
    dep_only = rng.rand() < .5
    while True:
        Cd, Ci = gen_constraints(rng, n, ind=not dep_only)
        if Cd or Ci:
            break
    alpha = float(np.exp(rng.uniform(-1, 1)))
    if Ci:
        want = sequential(n, alpha, Cd, Ci)
    else:
        want = {}
        for Z in partitions(n):
            if satisfied(Z, Cd, []):
                want[canonical(Z)] = math.exp(effective_logp(Z, alpha, Cd))
    X, specs = mix.gen_table(rng, 2, n, ['bernoulli'], 0.)

    def test(m):
        seen = {}
        for _ in range(m):
            st = mix.make_state(rng, X, specs, Cd=Cd, Ci=Ci, alpha=alpha)
            z = canonical([st.Zv(c) for c in range(n)])
            seen[z] = seen.get(z, 0) + 1
        return chi2_pvalue(seen, want)
    ctx.stat('state:initial-distribution', 'initial partition under %r %r '
             'alpha %r' % (Cd, Ci, alpha), test, 120, Cd=Cd, Ci=Ci)
    ctx.case(dict(Cd=Cd, Ci=Ci, alpha=alpha))
