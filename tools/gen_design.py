"""Writes /verif/DESIGN.md: the text below plus the bounds and assumptions
that the harnesses of props/*.py declare."""
import importlib
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
text = open(os.path.join(here, 'tools', 'design.md')).read()
out = []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    f = os.path.join(here, 'props', p['id'] + '.py')
    if not os.path.exists(f):
        continue
    m = importlib.import_module('props.' + p['id'])
    q, t = m.configs('quick'), m.configs('thorough')
    out.append('* **%s** %s. Bounds: %s. %d configurations (quick), %d '
               '(thorough).%s' % (
                   p['id'], p['title'], ' '.join(m.BOUNDS.split()),
                   len(q), len(t),
                   ' Assumed: %s.' % '; '.join(m.ASSUMPTIONS)
                   if m.ASSUMPTIONS else ''))
rows = ['## 5. Planted bugs', '',
        'Each was written from a property\'s text, passes the 107 tests, and '
        'is kept in `seeded/` with a demonstration. Last result of the '
        'property\'s own check:', '',
        '| bug | property | what breaks | caught |', '|---|---|---|---|']
caught = json.load(open(os.path.join(here, 'tools', 'caught.json')))
sd = os.path.join(here, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (
        d, m['property'], m['what_it_breaks'], caught.get(d, '?')))
text = text.replace('@SEEDED@', '\n'.join(rows))
open(os.path.join(here, 'DESIGN.md'), 'w').write(
    text.replace('@BOUNDS@', '\n'.join(out)))
