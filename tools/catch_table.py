#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for name in sorted(os.listdir(f'{root}/seeded')):
    meta = json.load(open(f'{root}/seeded/{name}/meta.json'))
    by.setdefault(meta['property'], []).append(name)
total = sum(map(len, by.values()))
rows = ['| caught by the check of | planted bugs |', '|---|---|']
for p in sorted(by):
    rows.append(f"| {p} | {', '.join(n.removeprefix(p + '-') for n in by[p])} |")
text = f"{total} planted bugs, named `<property>-<name>` in `seeded/`; each is caught by the quick check of its own property (seed 1):\n\n" + '\n'.join(rows)
path = f'{root}/DESIGN.md'
s = open(path).read()
s = re.sub(r'<!-- table -->.*<!-- end of table -->', lambda _: f'<!-- table -->\n{text}\n<!-- end of table -->', s, flags=re.S)
open(path, 'w').write(s)
