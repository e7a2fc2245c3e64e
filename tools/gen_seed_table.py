#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
r = '| Bug | Needs | Caught by |\n|---|---|---|\n'
for base in ('seeded', 'extra_seeds'):
    for d in sorted(os.listdir(os.path.join(V, base))):
        m = json.load(open(os.path.join(V, base, d, 'meta.json')))
        r += '| %s%s | %s | %s |\n' % (d, '' if base == 'seeded' else ' (extra)', m['needs'].replace('|', '/'), m['property'])
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- seeds -->\n.*?<!-- end -->', lambda _: '<!-- seeds -->\n' + r + '<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
