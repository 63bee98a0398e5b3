#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = {'b22': 'C25', 'b57': 'C09', 'b62': 'C13, C14', 'b67': 'C06', 'b84': 'C16', 'b86': 'C15', 'b29': 'C11'}
late = {'b73', 'b90', 'b36', 'b45', 'b39', 'b57', 'b59'} | set(json.load(open(V + '/tools/late.json')) if os.path.exists(V + '/tools/late.json') else [])
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    k = d.split('-')[0]
    p = m['property'] + (', ' + extra[k] if k in extra else '')
    rows.append(f"| {d}{' *' if k in late else ''} | {p} | {m['what_it_breaks'].strip()} | {m['needs'].strip()} |")
text = f'''## Planted bugs

Each directory of `seeded/` holds one; `tools/plant.py` verifies and keeps them,
`tools/run_seeded.py` runs the checks on them.  All {len(rows)} are caught by the quick
check of their own property (second column; others that were seen to catch it
follow).  A star marks those that were missed at first, for which the check was
strengthened.

| bug | caught by | what it breaks | what it needs |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
s = open(V + '/DESIGN.md').read()
i = s.index('## Planted bugs')
open(V + '/DESIGN.md', 'w').write(s[:i] + text)
