#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(os.path.join(R, 'tools', 'initially_missed.txt')).read().split())
rows = []
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*'))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, 'meta.json')))
    rows.append('| %s%s | %s | %s |' % (i, ' †' if i in missed else '', m['property'], m['needs'].replace('|', '/')))
p = os.path.join(R, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted -->', '<!-- /planted -->'
t = '| change | caught by the check of | needs |\n|---|---|---|\n' + '\n'.join(rows)
s = s[:s.index(a) + len(a)] + '\n\n' + t + '\n\n' + s[s.index(b):]
open(p, 'w').write(s)
print(len(rows))
