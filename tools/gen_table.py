#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| %s | %s |' % (os.path.basename(os.path.dirname(m)), json.load(open(m))['needs']) for m in sorted(glob.glob(root + '/seeded/*/meta.json'))]
p = root + '/DESIGN.md'
ls = open(p).read().split('\n')
i = ls.index('|---|---|') + 1
j = i
while ls[j].startswith('|'):
    j += 1
open(p, 'w').write('\n'.join(ls[:i] + rows + ls[j:]))
print(len(rows))
