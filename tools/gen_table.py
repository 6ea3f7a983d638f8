#!/usr/bin/env python3
"""Rewrites the detection table at the end of DESIGN.md from seeded/*/meta.json and tools/detections.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
det = json.load(open(root + '/tools/detections.json'))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = m.split('/')[-2]
    d = json.load(open(m))
    one = lambda s: ' '.join(s.split()).replace('|', '/')
    rows.append(f"| {i} | {d['property']} | {one(d['needs'])} | {', '.join(det.get(i, [])) or 'not caught'} |")
p = root + '/DESIGN.md'
s = open(p).read()
mark = '## Planted bugs'
if 'SEEDED_TABLE' in s:
    s = s.replace('SEEDED_TABLE', mark)
s = s[:s.index(mark)]
s += mark + '''

Each was written from the property text and the code, passes the repository's tests, and
has a demonstration. "Caught by" lists checks (quick tier, seed 1) seen to report it; only
the property's own check was systematically run.

| id | property | needs | caught by |
|----|----------|-------|-----------|
''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
