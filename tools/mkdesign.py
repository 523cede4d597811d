#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md (development only)."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + '/DESIGN.md'
mark = '## Planted bugs and what detects them\n'
s = open(p).read()
s = s[:s.index(mark)] + mark + '\n'
det = json.load(open(root + '/tools/detected.json'))
s += '| change | property | needs | detected by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(root + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    s += '| %s | %s | %s | %s |\n' % (n, m['property'], m['needs'].replace('|', '/'), det.get(n, '?'))
s += '\n' + open(root + '/tools/design_tail.md').read()
open(p, 'w').write(s)
