#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in os.listdir(d + '/seeded'):
    m = json.load(open(f'{d}/seeded/{b}/meta.json'))
    rows.append((m['property'], b, m['needs']))
s = open(d + '/DESIGN.md').read()
h = '| caught by | planted bug | needs |\n|---|---|---|\n'
i = s.index(h)
assert '\n\n' not in s[i:], 'text after the table'
s = s[:i] + h + ''.join('| %s | %s | %s |\n' % r for r in sorted(rows))
open(d + '/DESIGN.md', 'w').write(s)
print(len(rows))
