#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md (section 6) from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], ' '.join(d['needs'].split())))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(\| bug \| property \| needs \|\n\|[-|]+\n)(?:\|.*\n)*', lambda m: m.group(1) + '\n'.join(rows) + '\n', s)
open(p, 'w').write(s)
