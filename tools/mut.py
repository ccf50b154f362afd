#!/usr/bin/env python3-vt
"""mut.py FILE PATTERN...: edits of the source, each tried in a scratch copy against the units (development aid).
FILE defines M = [(name, 'bug' | 'same', [(file, old, new), ...]), ...]; a bug has to fail a unit, an equivalent edit must not."""
import sys, os, subprocess, shutil, tempfile
src = {}
exec(open(sys.argv[1]).read(), src)
only = os.environ.get('ONLY')
here = os.path.dirname(os.path.abspath(__file__))
def one(m):
    name, kind, edits = m
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree(os.environ.get("VERIF_REPO", "/repo") + "/lib", d + '/lib')
        for f, old, new in edits:
            p = d + '/lib/' + f
            s = open(p).read()
            import re
            if s.count(old) == 0:
                rx = re.sub(r'(?:\\\n|\n)', lambda m: r'\n(?:[ \t]*\n)*', re.escape(old))
                hits = re.findall(rx, s)
                if len(hits) == 1: old = hits[0]
            if s.count(old) != 1: return name, kind, 'EDIT DOES NOT APPLY (%d): %s' % (s.count(old), old[:50])
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run(['python3-vt', here + '/prove.py', '-l', '250'] + sys.argv[2:], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        ok = 'proved %d of' in r.stdout
        last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
        w = last.split()
        allp = len(w) > 3 and w[0] == 'proved' and w[1] == w[3] and 'EXPORT ERROR' not in r.stdout
        bad = '\n'.join('      ' + l[:230] for l in r.stdout.splitlines() if l.startswith('==') or 'FAIL' in l or 'EXPORT' in l)[:int(os.environ.get('CH', '500'))]
        verdict = 'ok' if (kind == 'same') == allp else 'WRONG'
        return name, kind, verdict + ' ' + last + ('\n' + bad if bad else '')
    finally: shutil.rmtree(d)
from concurrent.futures import ThreadPoolExecutor
ms = [m for m in src['M'] if not only or only in m[0]]
with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
    for r in ex.map(one, ms): print('%-40s %-5s %s' % r, flush=True)
