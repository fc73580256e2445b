"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib.util
import json
import os
import re

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
reasons = {}
checks, na = [], []
for p in props:
    f = os.path.join(V, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason=reasons.get(
            p['id'], 'no check has been built for it yet')))
        continue
    src = open(f).read()
    tech = re.search(r"^TECHNIQUE = \(?((?:\s*'[^\n]*'\n?)+)\)?", src, re.M)
    tech = eval('(' + tech.group(1) + ')') if tech else \
        'runtime monitors on the real code under random and hostile workloads'
    note = re.search(r"^NOTE = \(((?:\s*'[^\n]*'\n?)+)\)", src, re.M)
    note = eval('(' + note.group(1) + ')') if note else (
        'Held on every execution the monitors observed; says nothing about '
        'executions not generated. ')
    note += (' Trusts the Python 2 loader (lib/py2loader.py) and the '
             'reference computations in lib/ and the check itself.')
    checks.append(dict(
        property=p['id'],
        quick_cmd='bash bin/check %s quick' % p['id'],
        thorough_cmd='bash bin/check %s thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=tech, level='exploration', level_note=note))
m = dict(
    version=1,
    setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.insert(0, '
              '\'lib\'); import py2loader; py2loader.install(); '
              'import cgpm.crosscat.engine; print(\'loaded\')"',
    checks=checks, not_applicable=na,
    notes='No hooks in /repo: the monitors wrap the real classes from '
          'outside, so there is no guard variable to set.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
