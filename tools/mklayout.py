#!/usr/bin/env python3-vt
"""Writes vc/layout.json: the names and types of the fields that the specifications speak of (read from the current source)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import ast as A
A.LAYOUT = '/nonexistent'
p = A.export(A.sources())
out = {}
for n, r in sorted(p.records.items()):
    if not n.startswith('modbus::') or r['union'] or not r['fields'] or 'lambda' in n or '(' in n: continue
    k = A.plain(n)
    fs = [[f['n'], A.fieldtype(f['t'], r)] for f in r['fields'] if f['n']]
    if k in out and out[k] != fs: out[k] = None
    elif k not in out: out[k] = fs
out = {k: v for k, v in out.items() if v}
json.dump(out, open(os.path.join(A.VERIF, 'vc', 'layout.json'), 'w'), indent=1)
print(len(out))
