#!/usr/bin/env python3
"""Development aid (no check reads it): rewrites the table of planted bugs at the end of DESIGN.md.

    table.py [OUTPUT OF 'plant.py detect' ...]    later outputs overrule earlier ones; they are kept in tools/detected.json
"""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REC = os.path.join(ROOT, 'tools', 'detected.json')
rec = json.load(open(REC)) if os.path.exists(REC) else {}
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        m = re.match(r'([a-z0-9-]+) (P\d\d) (CAUGHT|MISSED)', l)
        if m:
            rec.setdefault(m[1], {})[m[2]] = m[3] == 'CAUGHT'
ids = sorted(d for d in os.listdir(os.path.join(ROOT, 'seeded')))
rec = {i: rec[i] for i in ids if i in rec}
json.dump(rec, open(REC, 'w'), indent=0, sort_keys=True)
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for i in ids:
    m = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
    by = ' '.join(p for p, v in sorted(rec.get(i, {}).items()) if v) or 'not caught'
    rows.append(f"| {i} | {m['needs'].replace('|', '/')} | {by} |")
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
k = s.index('## Planted bugs')
n = sum(any(rec.get(i, {}).values()) for i in ids)
s = s[:k] + f"""## Planted bugs

{len(ids)} changes under `seeded/`, written from the statements and the code (`tools/plants/*.py`), each confirmed (builds, stable tests pass,
demonstration fails with it and passes without). {n} of them are caught by the quick check of their property (seed 1); where a check
missed one at first, the workloads were widened until the *condition* it needs comes about, never for the change itself.

""" + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
print(len(ids), 'bugs', n, 'caught', [i for i in ids if not any(rec.get(i, {}).values())])
