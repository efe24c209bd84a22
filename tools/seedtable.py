#!/usr/bin/env python3
"""rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs']))
rows.sort()
out = ['| check that catches it | planted bug | what it breaks | what it needs |', '|---|---|---|---|']
out += ['| %s | %s | %s | %s |' % tuple(' '.join(x.split()).replace('|', '/') for x in r) for r in rows]
p = ROOT + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->', '<!-- /seeds -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:])
