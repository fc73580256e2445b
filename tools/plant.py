"""Plant a bug: python plant.py SPEC.py

SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and
DEMO (source of demo.py). Works on a scratch copy of /repo; keeps the result in
/verif/seeded/ID only after confirming that the patched tree parses, passes the
stable tests, that the demo passes without the change and fails with it, and that the
changed lines are lines of the original repository.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '6cea153'

DEMO_SH = '''#!/bin/bash
# cwd is the repository; exit 0 if the property holds there.
here="$(cd "$(dirname "$0")" && pwd)"
export CGPM_SRC="$PWD/src" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export MPLBACKEND=pdf OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH GPMCCDEBUG
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd=None, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def main(path):
    s = runpy.run_path(path)
    out = os.path.join(VERIF, 'seeded', s['ID'])
    work = tempfile.mkdtemp(prefix='plant-')
    tree = os.path.join(work, 'repo')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', tree])
        for f, a, b in s['EDITS']:
            p = os.path.join(tree, f)
            t = open(p).read()
            if t.count(a) != 1:
                sys.exit('%s: %d matches of %r' % (f, t.count(a), a))
            open(p, 'w').write(t.replace(a, b))
        diff = subprocess.check_output(['git', 'diff'], cwd=tree).decode()
        base = {}
        cur = None
        for line in diff.splitlines():
            m = re.match(r'\+\+\+ b/(.*)', line)
            if m:
                cur = m.group(1)
                base[cur] = subprocess.check_output(
                    ['git', 'show', BASE + ':' + cur], cwd=tree
                ).decode().splitlines()
            elif line.startswith('-') and not line.startswith('---'):
                if line[1:].strip() and line[1:] not in base.get(cur, []) \
                        and cur:
                    print('NOT ORIGINAL:', line)
        d = os.path.join(work, 'demo')
        os.mkdir(d)
        open(os.path.join(d, 'demo.py'), 'w').write(
            'import os, sys\nsys.path.insert(0, os.path.dirname('
            'os.path.abspath(__file__)))\nimport py2loader\n'
            'py2loader.install()\n\n' + s['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        shutil.copy(os.path.join(VERIF, 'lib', 'py2loader.py'), d)
        rc, o = run(['/opt/venv/bin/python', '/opt/vp/parse_py2.py',
                     tree + '/src'])
        if rc:
            sys.exit('does not parse:\n' + o[-2000:])
        subprocess.check_call(['git', 'stash', '-q'], cwd=tree)
        rc0, o0 = run(['bash', d + '/demo.sh'], tree)
        subprocess.check_call(['git', 'stash', 'pop', '-q'], cwd=tree)
        rc1, o1 = run(['bash', d + '/demo.sh'], tree)
        print('demo: clean rc=%d %s\n      patched rc=%d %s' % (
            rc0, o0.strip()[-700:], rc1, o1.strip()[-700:]))
        if rc0 != 0 or rc1 == 0:
            sys.exit('demo does not discriminate')
        # Stable tests on the patched tree, through an import path of its own.
        base = json.load(open('/opt/vp/BASELINE.json'))
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(d, out, ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'],
                       what_it_breaks=s['BREAKS']),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        rc, o = run(['git', 'apply', '--check',
                     os.path.join(out, 'patch.diff')], '/repo')
        print('applies:', rc == 0, o.strip())
        if '--nocheck' in sys.argv:
            return
        env = dict(os.environ, CGPM_SRC=tree + '/src')
        scratch = os.path.join(work, 'verif')
        shutil.copytree(VERIF, scratch, ignore=shutil.ignore_patterns(
            '.git', 'seeded', 'evidence', '__pycache__'))
        for prop in [s['PROPERTY']] + list(s.get('ALSO', [])):
            p = subprocess.run(
                ['bash', 'bin/check', prop, 'quick'], cwd=scratch, env=env,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            t = p.stdout.decode(errors='replace')
            print('%s %s: exit %d\n%s' % (
                'CAUGHT' if p.returncode == 1 else 'MISSED', prop,
                p.returncode, t[-600:]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


main(sys.argv[1])
