#!/usr/bin/env python3
"""Refresh the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(root, 'DESIGN.md')
s = open(f).read()
rows = []
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    one = lambda t: re.sub(r'\s+', ' ', t).replace('|', '/')
    rows.append((m['property'], os.path.basename(os.path.dirname(d)), one(m['what_it_breaks']), one(m['needs'])))
rows.sort()
mark = '<!-- planted -->\n'
head = s.split(mark)[0] if mark in s else s.rsplit('TABLE', 1)[0]
s = head + mark + '| caught by | id | what it breaks | needs |\n|---|---|---|---|\n' + ''.join(f'| {p} | {i} | {b} | {n} |\n' for p, i, b, n in rows)
open(f, 'w').write(s)
