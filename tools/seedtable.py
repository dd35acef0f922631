#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = collections.defaultdict(list)
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows[m['property']].append(d)
t = ['| check | planted bugs it catches |', '|---|---|']
for p in sorted(rows):
    t.append(f"| {p} | {', '.join(d.split('-', 1)[1] for d in rows[p])} |")
n = sum(map(len, rows.values()))
text = open(f'{root}/DESIGN.md').read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = text.index(a) + len(a), text.index(b)
text = text[:i] + f'{n} changes, in `seeded/<property>-<name>` (names below without the prefix).\n\n' + '\n'.join(t) + '\n' + text[j:]
open(f'{root}/DESIGN.md', 'w').write(text)
