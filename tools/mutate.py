"""Mutation testing of the checks: which small changes of /repo/src do they miss?

  python mutate.py OUT.jsonl [--n N] [--par P] [--seed S] [--files GLOB]

Works on copies of /repo/src and of /verif's committed tree under /tmp; nothing here is run
by a registered check. Mutants are made on the lib2to3 token tree, so that
Python 2 sources can be mutated as they are.
"""
import argparse, fnmatch, glob, json, os, random, shutil, subprocess, sys, tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor
warnings.simplefilter('ignore')
from lib2to3 import pygram, pytree
from lib2to3.pgen2 import driver, token

CHECKS = {
    'src/primitives/crp.py': 'C02 C01 C03 C04 C06 C10 C09 C12 C20 C13',
    'src/primitives/*': 'C01 C02 C04 C03 C10 C20 C31 C13 C14',
    'src/mixtures/dim.py': 'C06 C05 C03 C07 C10 C26 C20 C13 C09 C25 C11',
    'src/mixtures/relevance.py': 'C19 C11 C20',
    'src/mixtures/view.py':
        'C06 C05 C07 C03 C08 C09 C20 C19 C11 C26 C10 C13 C25 C14',
    'src/crosscat/state.py': 'C12 C05 C06 C17 C07 C18 C19 C08 C26 C20 C09 '
        'C11 C13 C25 C10 C27 C16 C14',
    'src/crosscat/statedoc.py': 'C25 C13 C16',
    'src/crosscat/sampling.py': 'C07 C08 C11 C14',
    'src/crosscat/engine.py': 'C16 C25 C19 C18 C13 C27 C30 C14',
    'src/crosscat/lovecat.py': 'C27', 'src/crosscat/loomcat.py': 'C27',
    'src/network/*': 'C17 C11 C13 C14 C20',
    'src/regressions/*': 'C23 C31 C03 C13 C20 C14 C17',
    'src/kde/*': 'C24 C31 C03 C13 C20 C14', 'src/knn/*': 'C24 C31 C03 C13 C20 C14',
    'src/factor/*': 'C24 C31 C03 C13 C20 C14', 'src/dummy/*': 'C24 C14 C17 C13',
    'src/uncorrelated/*': 'C24 C14',
    'src/utils/general.py': 'C21 C12 C09 C01 C07',
    'src/utils/validation.py': 'C21 C12 C20 C07',
    'src/utils/config.py': 'C21', 'src/utils/data.py': 'C21 C23',
    'src/utils/timer.py': 'C21', 'src/utils/mvnormal.py': 'C22',
    'src/utils/sampling.py': 'C28', 'src/utils/entropy_estimators.py': 'C18',
    'src/utils/parallel_map.py': 'C15', 'src/venturescript/*': 'C29',
    'src/cgpm.py': 'C24',
}

OPS = {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='],
       '!=': ['=='], '+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'],
       '**': ['*'], '+=': ['-='], '-=': ['+='], '//': ['*'],
       '*=': ['/='], '/=': ['*=']}
WORDS = {'and': ['or'], 'or': ['and'], 'True': ['False'], 'False': ['True'],
         'max': ['min'], 'min': ['max'], 'any': ['all'], 'all': ['any'],
         'break': ['pass'], 'continue': ['pass'], 'is': ['is not'],
         'sum': ['max'], 'sorted': ['list'], 'copy': ['__lt_copy__'],
         'log': ['log1p'], 'deepcopy': ['copy']}


def parse(text):
    for g in (pygram.python_grammar,
              pygram.python_grammar_no_print_statement):
        try:
            return driver.Driver(g, convert=pytree.convert).parse_string(text)
        except Exception as e:
            err = e
    raise err


def mutants(text):
    """Yield (lineno, description, new text)."""
    tree = parse(text)
    syms = pygram.python_symbols
    out, starts = [], {}

    def emit(node, f, undo, what):
        f()
        new = str(tree)
        undo()
        if new != text:
            top = node
            while top.parent is not None and top.type != syms.simple_stmt:
                top = top.parent
            starts[node.get_lineno()] = top.get_lineno() if \
                top.type == syms.simple_stmt else node.get_lineno()
            out.append((node.get_lineno(), what, new))

    def in_doc(leaf):
        return leaf.type == token.STRING

    for node in list(tree.pre_order()):
        if isinstance(node, pytree.Leaf):
            v = node.value
            if in_doc(node):
                continue
            alts = []
            par = node.parent.type if node.parent else None
            if node.type == token.NUMBER:
                try:
                    x = eval(v)
                    alts = [repr(x + 1)] + ([repr(x * 2)] if isinstance(
                        x, float) and x else []) + (['0'] if x == 1 else [])
                except Exception:
                    pass
            elif v in OPS and par not in (
                    syms.parameters, syms.typedargslist, syms.arglist,
                    syms.argument, syms.import_from):
                if not (v in ('*', '**') and par in (
                        syms.typedargslist, syms.arglist, syms.argument,
                        syms.parameters)):
                    alts = OPS[v]
            elif node.type == token.NAME and v in WORDS and not (
                    node.prev_sibling and node.prev_sibling.type ==
                    token.DOT and v not in ('sum', 'copy', 'log', 'max',
                                            'min', 'any', 'all')):
                alts = [a for a in WORDS[v] if not a.startswith('__')]
            elif v == 'not' and par == syms.not_test:
                alts = ['']
            elif v == 'in' and par == syms.comparison:
                alts = ['not in']
            for a in alts:
                def f(node=node, a=a):
                    node.value = a
                def u(node=node, v=v):
                    node.value = v
                emit(node, f, u, '%s -> %s' % (v, a or '(nothing)'))
            continue
        if node.type == syms.simple_stmt:
            s = node.children[0]
            st = str(s).strip()
            if s.type in (syms.import_from, syms.import_name) or \
                    st.startswith(('"', "'", 'r"', 'pass', 'break',
                                   'continue', 'print', 'assert')):
                continue
            p = s.prefix
            rep = pytree.Leaf(token.NAME, 'pass', prefix=p)
            if s.type == syms.return_stmt:
                rep = pytree.Leaf(token.NAME, 'return None', prefix=p)
                if st == 'return None' or st == 'return':
                    continue
            def f(s=s, rep=rep):
                s.replace(rep)
            def u(s=s, rep=rep):
                rep.replace(s)
            ln = s.get_lineno()
            f()
            new = str(tree)
            u()
            out.append((ln, 'drop: ' + ' '.join(st.split())[:70], new))
        elif node.type in (syms.if_stmt, syms.while_stmt):
            for i, c in enumerate(node.children):
                if isinstance(c, pytree.Leaf) and c.value in ('if', 'elif'):
                    cond = node.children[i + 1]
                    for b in ('True', 'False'):
                        rep = pytree.Leaf(token.NAME, b, prefix=' ')
                        ln = cond.get_lineno()
                        st = ' '.join(str(cond).split())
                        cond.replace(rep)
                        new = str(tree)
                        rep.replace(cond)
                        out.append((ln, 'if %s -> %s' % (st[:60], b), new))
        elif node.type == syms.comp_if or node.type == getattr(
                syms, 'old_comp_if', -1):
            cond = node.children[1]
            st = ' '.join(str(cond).split())
            ln = cond.get_lineno()
            rep = pytree.Leaf(token.NAME, 'True', prefix=' ')
            cond.replace(rep)
            new = str(tree)
            rep.replace(cond)
            out.append((ln, 'comp-if %s -> True' % st[:60], new))
        elif node.type == syms.arglist:
            a = [c for c in node.children if not (
                isinstance(c, pytree.Leaf) and c.value == ',')]
            pos = [c for c in a if c.type != syms.argument]
            if len(pos) >= 2 and str(pos[0]).strip() != str(pos[1]).strip():
                x, y = pos[0], pos[1]
                xs, ys = x.clone(), y.clone()
                ln = x.get_lineno()
                px, py = x.prefix, y.prefix
                xs.prefix, ys.prefix = py, px
                x.replace(ys)
                y.replace(xs)
                new = str(tree)
                ys.replace(x)
                xs.replace(y)
                out.append((ln, 'swap args %s' % ' '.join(
                    str(node).split())[:60], new))
    assert str(tree) == text
    return [(ln, what, new, starts.get(ln, ln)) for ln, what, new in out]


def checks_for(f):
    for k, v in CHECKS.items():
        if fnmatch.fnmatch(f, k):
            return v.split()


def covering(cov, f, ln, start):
    """{check: scenarios} which execute that line (or the start of the
    statement it belongs to)."""
    hit = {}
    for n in range(start, ln + 1):
        for c, d in cov.items():
            for sc in d.get(f[4:], {}).get(str(n), ()):
                hit.setdefault(c, set()).add(sc)
    return hit


def skip_line(lines, ln):
    """Inside a rendering, plotting or reporting function?"""
    import re
    for i in range(min(ln, len(lines)) - 1, -1, -1):
        m = re.match(r'\s*def (\w+)', lines[i])
        if m:
            return m.group(1) in (
                'plot', 'plot_dist', '__repr__', 'render', '_progress',
                '_increment_profile', 'enumerate_partitions')
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=400)
    ap.add_argument('--par', type=int, default=4)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--files', default='*')
    ap.add_argument('--lines', default='/tmp/mut', help='directory of '
                    'lines-Cxx.json, made with VERIF_LINES')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    rng = random.Random(a.seed)
    files = subprocess.check_output(
        ['git', '-C', '/repo', 'ls-files', 'src'], text=True).split()
    todo = []
    for f in files:
        if not fnmatch.fnmatch(f, a.files) or not f.endswith('.py'):
            continue
        if not checks_for(f) or f.endswith('__init__.py'):
            continue
        text = open('/repo/' + f).read()
        lines = text.split('\n')
        ms = [m for m in mutants(text) if not skip_line(lines, m[0])]
        # One mutant per line at most, to spread the sample.
        by = {}
        for m in ms:
            by.setdefault(m[0], []).append(m)
        todo += [(f,) + rng.choice(v) for v in by.values()]
    rng.shuffle(todo)
    cov = {}
    for p in glob.glob(a.lines + '/lines-*.json'):
        cov[p[-8:-5]] = json.load(open(p))
    print(len(todo), 'lines with mutants')
    todo = todo[:a.n]
    if a.list:
        for t in todo:
            print(t[0], t[1], t[2])
        return
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what']))
    base = tempfile.mkdtemp(prefix='mut-')
    jobs = max(1, 8 // a.par)

    def one(t):
        f, ln, what, new, start = t
        if (f, ln, what) in done:
            return
        w = tempfile.mkdtemp(dir=base)
        try:
            subprocess.check_call('git -C /verif archive HEAD lib checks bin '
                                  'tools known_findings.json | tar x -C ' + w,
                                  shell=True)
            shutil.copytree('/repo/src', w + '/src')
            with open(os.path.join(w, f), 'w') as g:
                g.write(new)
            env = dict(os.environ, CGPM_SRC=w + '/src', VERIF_SEED='1',
                       VERIF_JOBS=str(jobs), VERIF_FAILFAST='1', VERIF_BUDGET='200')
            got, by, info = 'SURVIVED', None, []
            hit = covering(cov, f, ln, start)
            if 'parallel_map' in f:
                hit = {'C15': ()}
            cs = [c for c in checks_for(f) if c in hit]
            for c in [c for c in cs if c != 'C14'][:8] or cs:
                p = subprocess.run(
                    ['bash', w + '/bin/check', c, 'quick'] + (
                        ['--only', ','.join(sorted(hit[c]))] if hit[c] else []),
                    env=env,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    timeout=900)
                if p.returncode == 1:
                    got, by = 'killed', c
                    break
                if p.returncode != 0:
                    info.append(c + ': ' + p.stdout.decode()[-150:])
            if not hit:
                got = 'NOT COVERED'
            if got != 'killed' and info:
                got = 'INCONCLUSIVE'
            with open(a.out, 'a') as g:
                g.write(json.dumps(dict(file=f, line=ln, what=what, got=got,
                                        by=by, info=info)) + '\n')
        except Exception as e:
            print('error', f, ln, what, e)
        finally:
            shutil.rmtree(w, ignore_errors=True)

    with ThreadPoolExecutor(a.par) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
