#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read(); mark = '<!-- planted bugs -->\n'
s = s[:s.index(mark)] + mark + '| id | caught by | needs | breaks |\n|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f)); s += '| %s | %s | %s | %s |\n' % (f.split('/')[-2], d.get('caught_by', d['property']), d['needs'], d['what_it_breaks'])
open(V + '/DESIGN.md', 'w').write(s)
