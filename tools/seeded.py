"""Rewrites the table of planted bugs in DESIGN.md"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, 'DESIGN.md')
HEAD = '## Planted bugs\n'
text = open(path).read().split(HEAD)[0].rstrip() + '\n\n'
rows = []
base = os.path.join(here, 'seeded')
for name in sorted(os.listdir(base)):
    with open(os.path.join(base, name, 'meta.json')) as f:
        m = json.load(f)
    rows.append('* `%s`: %s. Needs: %s.' % (
        name, m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.')))
text += HEAD + '''
Written from the texts of the properties. Each one is caught by the quick check
of the property which is named at the start of its id; those which were missed
at first led to stronger checks: comparing complete training histories
(p06-planstwice), a scalar parameter in the tiny model (p06-looseload), dark
images with NaN pixels and several of them (p10-darkstack), and a warm-up which
ignores failures of cdtools (p03-keeploader).

''' + '\n'.join(rows) + '\n'
with open(path, 'w') as f:
    f.write(text)
