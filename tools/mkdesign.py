"""DESIGN.md = design_head.md + the table of planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(V + '/tools/design_head.md').read()
rows = []
for m in glob.glob(V + '/seeded/*/meta.json'):
    d = json.load(open(m))
    rows.append((d['property'], os.path.basename(os.path.dirname(m)),
                 d['what_it_breaks'].replace('\n', ' '),
                 d['needs'].replace('\n', ' ')))
notes = json.load(open(V + '/tools/seed_notes.json'))
out += ('## Planted bugs, and what catches them\n\n'
        'Each was written from the property and the code, and confirmed in a '
        'scratch clone by `tools/plant.py` (parses, stable tests pass, the '
        'demonstration passes without and fails with it). The quick check of '
        'the property named catches every one listed, except where noted.\n\n'
        '| bug | caught by | breaks | needs |\n|---|---|---|---|\n')
for p, i, b, n in sorted(rows):
    out += '| %s | %s%s | %s | %s |\n' % (
        i, p, ' (%s)' % notes[i] if i in notes else '', b, n)
out += open(V + '/tools/design_tail.md').read() if os.path.exists(
    V + '/tools/design_tail.md') else ''
open(V + '/DESIGN.md', 'w').write(out)
