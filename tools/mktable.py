#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
h = '| change | caught by | what breaks | needs |\n|---|---|---|---|\n'
head = s[:s.index(h)]
rows = ''
for m in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    j = json.load(open(m))
    rows += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(m)), j['property'], j['what_it_breaks'], j['needs'])
open(p, 'w').write(head + h + rows)
