#!/usr/bin/env python3
"""table of the planted bugs for DESIGN.md; input: output of tools/seeds.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | manifests with | caught by (quick, seed 1) |', '|---|---|---|']
for line in open(sys.argv[1]):
    b, p, res, *k = line.split()
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    kind = ' '.join(k).strip('[]').split('(')[0]
    rows.append(f"| {b} | {m['needs']} | {p} {kind if res == 'caught' else '**' + res + '**'} |")
s = open(V + '/DESIGN.md').read()
a, z = s.index('<!-- seeds -->') + 14, s.index('<!-- /seeds -->')
open(V + '/DESIGN.md', 'w').write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[z:])
