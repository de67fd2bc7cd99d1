#!/usr/bin/env python3
"""Rewrites section 7 of DESIGN.md from seeded/*/meta.json and CAUGHT below."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(V, 'tools', 'caught.txt')
for l in open(p):
    k, c = l.split(maxsplit=1)
    res[k] = c.strip()
s = open(os.path.join(V, 'DESIGN.md')).read()
s = s.split('\n## 7.')[0].rstrip() + '\n\n## 7. Which checks catch which planted bugs\n\n'
s += '| bug | needs | caught by (quick tier) |\n|---|---|---|\n'
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    s += f"| {i} | {d['needs']} | {res.get(i, '?')} |\n"
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
