#!/usr/bin/env python3
"""Fills the lists of findings and of planted bugs into DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = H + '/DESIGN.md'; s = open(p).read()
f = ['- %s (%s, commit %s)' % (m.group(3), m.group(1), m.group(2)) for m in re.finditer(r'^fixed: property=(\S+) (\S+) (.*)$', open(H + '/known_findings.txt').read(), re.M)]
k = ['- not repaired: ' + l[7:] for l in open(H + '/known_findings.txt').read().splitlines() if l.startswith('known: ')]
b = ['| planted bug | property | what it breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % d))
    b.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m.get('caught', 'check of %s: proof and failing input' % m['property'])))
def put(s, tag, ls): return re.sub(r'<!-- %s -->.*?<!-- end -->' % tag, lambda _: '<!-- %s -->\n%s\n<!-- end -->' % (tag, '\n'.join(ls)), s, flags=re.S)
s = s.replace('{FINDINGS}', '<!-- findings -->\n<!-- end -->').replace('{BUGS}', '<!-- bugs -->\n<!-- end -->')
s = put(put(s, 'findings', f + k), 'bugs', b)
open(p, 'w').write(s)
