#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md (results: tools/plant_results.txt, "id: checks or -")."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(l.strip().split(': ', 1) for l in open(f'{root}/tools/plant_results.txt') if ': ' in l)
s = open(f'{root}/DESIGN.md').read()
head = '| change | property | needs | caught by |\n|---|---|---|---|\n'
s = s[:s.index(head)] + head
for f in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    i = f.split('/')[-2]
    m = json.load(open(f))
    s += f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'not run')} |\n"
open(f'{root}/DESIGN.md', 'w').write(s)
