#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
i = s.index('## Planted bugs')
notes = ''
s = s[:i] + '''## Planted bugs
Each was written from a property's text and the code, validated with `tools/plant.py` (builds, passes the 434 tests, the
demonstration tells the trees apart) and is caught by the quick check of its property. Those a check first missed are what
the giant arrays, long texts, detached wrappers, self operands, repeated/cold calls and re-entrant objects were added for.

| seeded | caught by | what it breaks |
|---|---|---|
''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
