#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['needs'], d.get('caught_by', d['property'])))
p = ROOT + '/DESIGN.md'
s = open(p).read()
h = '| change | needs | caught by |\n|---|---|---|\n'
i = s.index(h) + len(h)
j = s.index('\n\n', i)
open(p, 'w').write(s[:i] + '\n'.join(rows) + s[j:])
