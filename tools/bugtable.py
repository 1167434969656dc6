#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and a result file.
usage: bugtable.py RESULTS  (lines: id property rc=N Ns [...])"""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) >= 4:
            res[w[0]] = (w[1], w[2], w[3])
rows = ['| bug | property | what it breaks | needs | caught by (time) |', '|---|---|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    p, rc, t = res.get(d, (m['property'], '?', '?'))
    by = f'{p} ({t})' if rc == 'rc=1' else ('missed' if rc == 'rc=0' else '?')
    esc = lambda s: s.replace('|', '\\|')
    rows.append(f"| {d} | {m['property']} | {esc(m['what_it_breaks'])} | {esc(m['needs'])} | {by} |")
s = open(root + '/DESIGN.md').read()
i = s.index('## Planted bugs')
s = s[:i] + '## Planted bugs\n\n`seeded/<id>/` holds patch, demonstration and meta data. Quick tier, seed 1:\n\n' + '\n'.join(rows) + '\n'
open(root + '/DESIGN.md', 'w').write(s)
