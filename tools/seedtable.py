# -*- coding: utf-8 -*-
"""Prints the table of planted bugs for DESIGN.md (development tool)."""
import json
import os
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
rows = []
for n in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, n, 'meta.json'), encoding='utf8'))
    rows.append((m['property'], n, m['needs'].strip().replace('|', '/')))
for p, n, w in sorted(rows):
    print('| %s | %s | %s |' % (p, n, w))
