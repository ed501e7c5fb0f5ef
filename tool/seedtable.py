#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read(); h = s[:s.index('<!-- seeds -->')]
rows = ['<!-- seeds -->', '', '| change | property and check that catches it | needs |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
open(V + '/DESIGN.md', 'w').write(h + '\n'.join(rows) + '\n')
