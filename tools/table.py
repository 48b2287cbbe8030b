"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
MARK = '<!-- generated by tools/table.py -->\n'

path = os.path.join(HERE, 'DESIGN.md')
with open(path) as f:
    head = f.read().split(MARK)[0]
rows = ['| change | caught by | what it breaks; what it needs |',
        '|---|---|---|']
for bug in sorted(os.listdir(SEEDED)):
    with open(os.path.join(SEEDED, bug, 'meta.json')) as f:
        meta = json.load(f)
    rows.append('| %s | %s | %s; needs %s |' % (
        bug, meta['property'], meta['what_it_breaks'].rstrip('.'),
        meta['needs'].rstrip('.')))
with open(path, 'w') as f:
    f.write(head + MARK + '\n' + '\n'.join(rows) + '\n')
