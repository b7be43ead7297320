"""Write the table of planted bugs at the end of DESIGN.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
head, tail = text.split('| bug | check | needs |\n', 1)
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
open(path, 'w').write(head + '| bug | check | needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
