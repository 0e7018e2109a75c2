#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | what it needs |', '|---|---|---|']
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % n))
    rows.append('| %s | %s | %s |' % (n, m['property'], m['needs']))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda m: m[1] + '\n'.join(rows) + '\n' + m[2], s, flags=re.S)
open(p, 'w').write(s)
