#!/usr/bin/env python3
"""Fills the tables of planted bugs into DESIGN.md from tools/DESIGN.in.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    by.setdefault(d['property'], []).append(os.path.basename(os.path.dirname(m)))
rows = ['| property and catching check | planted bugs |', '|---|---|']
rows += [f'| {k} | {", ".join(v)} |' for k, v in sorted(by.items())]
miss = open(V + '/tools/missed.md').read().strip()
t = open(V + '/tools/DESIGN.in.md').read()
t = t.replace('CATCHTABLE', '\n'.join(rows)).replace('MISSTABLE', miss)
open(V + '/DESIGN.md', 'w').write(t)
