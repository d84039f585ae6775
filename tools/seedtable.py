#!/usr/bin/env python3
"""Rewrites the table of the planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded'), key=lambda d: (json.load(open(V + '/seeded/%s/meta.json' % d))['property'], d)):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|')))
s = open(V + '/DESIGN.md').read()
head = '## Planted bugs'
text = s[:s.index(head)] if head in s else s.rstrip('\n') + '\n\n'
tail = re.search(r'\n## (?!Planted bugs).*', s[s.index(head) + 3:], re.S) if head in s else None
open(V + '/DESIGN.md', 'w').write(text + head + '''

Each was tried with `tools/seeds.py try`: it passes the stable tests, its demonstration fails with it, and the check of its property
reports it in the quick tier (several are reported by others, too).

''' + '\n'.join(rows) + '\n' + (tail.group(0) if tail else ''))
