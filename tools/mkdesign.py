"""Rewrites the table of planted bugs in DESIGN.md."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | check | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], d['property'], d['needs'], d['what_it_breaks']))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
s = s.replace('SEEDTABLE\n', '<!-- seeds -->\n<!-- /seeds -->\n')
s = re.sub(r'<!-- seeds -->\n.*?<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
