"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs | what breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| {} | {} | {} | {} |'.format(f.split('/')[-2], d['property'], *(d[k].replace('|', '\\|') for k in ('needs', 'what_it_breaks'))))
p = HERE + '/DESIGN.md'
t = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = t.index(a) + len(a), t.index(b)
open(p, 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[j:])
