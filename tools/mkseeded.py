"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'n03', 'n11', 'n18', 'n21', 'q03', 'q05', 'h04', 'i01', 'i02', 'k06', 'x02', 'x03', 'c03', 'd05', 'm08'}
path = os.path.join(VERIF, 'tools', 'missed.txt')
if os.path.exists(path):
    MISSED |= set(open(path).read().split())
rows = ['| bug | property (catching check) | what it breaks | needs | |', '|---|---|---|---|---|']
metas = []
for f in glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json')):
    m = json.load(open(f))
    metas.append((m['property'], os.path.basename(os.path.dirname(f)), m))
for p, i, m in sorted(metas, key=lambda t: t[:2]):
    rows.append('| %s | %s | %s | %s | %s |' % (i, p, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'),
                                              'first missed' if i in MISSED else ''))
d = os.path.join(VERIF, 'DESIGN.md')
s = open(d).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n%s\n<!-- /seeded -->' % '\n'.join(rows), s, flags=re.S)
open(d, 'w').write(s)
