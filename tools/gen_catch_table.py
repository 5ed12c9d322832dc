#!/usr/bin/env python3
"""Rewrites the table between the CATCH markers of DESIGN.md from seeded/*/meta.json and seeded/missed.txt (ids the
property's quick check does not report)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(V + '/seeded/missed.txt').read().split()) if os.path.exists(V + '/seeded/missed.txt') else set()
rows = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); rows.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['needs']))
out = ['| check | planted bug | what it needs | reported |', '|---|---|---|---|']
for p in sorted(rows):
    for i, n in rows[p]: out.append('| %s | `%s` | %s | %s |' % (p, i, n.replace('|', '/').replace('\n', ' '), 'no' if i in missed else 'yes'))
s = open(V + '/DESIGN.md').read()
a, b = '<!-- CATCH -->\n', '<!-- /CATCH -->'
i, j = s.index(a) + len(a), s.index(b)
open(V + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(out) + '\n' + s[j:])
print(sum(len(x) for x in rows.values()), 'planted bugs,', len(missed), 'missed')
