#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
p = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(f'{p}/DESIGN.md').read()
h = '| planted change | property | needs | caught by |\n|---|---|---|---|\n'
head, old = s.split(h)
rest = old[old.index('\n\n'):] if '\n\n' in old else '\n'
caught = {r.split('|')[1].strip(): r.split('|')[4].strip() for r in old.splitlines() if r.count('|') >= 5}
rows = []
for m in sorted(glob.glob(f'{p}/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    rows.append(f'| {n} | {j["property"]} | {j["needs"]} | {caught.get(n, j["property"])} |')
open(f'{p}/DESIGN.md', 'w').write(head + h + '\n'.join(rows) + rest)
