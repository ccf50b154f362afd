#!/usr/bin/env python3
"""newbug.py DIR: DIR holds bug.py with: prop, needs, breaks, edits=[(file, old, new)], demo (C++ source of main), sources (globs of /repo/lib/src), flags, shim (bool).
Writes seeded/<id>/ and confirms it in a scratch copy: builds, existing tests pass, demo distinguishes."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = sys.argv[1]
g = {}
exec(open(src).read(), g)
bid = g['id']
dst = os.path.join(V, 'seeded', bid)
os.makedirs(dst, exist_ok=True)
scr = tempfile.mkdtemp(prefix='bug_')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
try:
    repo = scr + '/repo'
    sh('git clone -q /repo %s' % repo)
    for f, old, new in g['edits']:
        p = os.path.join(repo, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = sh('git -C %s diff' % repo).stdout
    open(dst + '/patch.diff', 'w').write(d)
    json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['breaks']), open(dst + '/meta.json', 'w'), indent=1)
    open(dst + '/demo.cpp', 'w').write(g['demo'])
    if g.get('shim'):
        if os.path.exists(dst + '/shim'): shutil.rmtree(dst + '/shim')
        shutil.copytree(V + '/shim', dst + '/shim')
    inc = '-I"$here/shim/light" -I"$here/shim" ' if g.get('shim') else ''
    open(dst + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds in this scenario; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
pids=
i=0
for f in "$here/demo.cpp" %s; do
  i=$((i + 1))
  g++ -std=c++14 -w -O0 -DASIO_STANDALONE %s %s-Ilib/include -Ilib/src -c "$f" -o "$tmp/$i.o" & pids="$pids $!"
done
for p in $pids; do wait $p || exit 2; done
g++ %s -o "$tmp/demo" "$tmp"/*.o -lpthread || exit 2
cd "$tmp" && timeout 60 ./demo
''' % (' '.join(g.get('sources', ['lib/src/server/db/*.cpp', 'lib/src/messages/ExceptionType.cpp'])), g.get('flags', ''), inc, g.get('flags', '')))
    os.chmod(dst + '/demo.sh', 0o755)
    r0 = sh('bash %s/demo.sh' % dst, cwd='/repo')
    r1 = sh('bash %s/demo.sh' % dst, cwd=repo)
    print('unchanged:', r0.returncode, (r0.stdout + r0.stderr)[-600:]); print('patched:', r1.returncode, (r1.stdout + r1.stderr)[-600:])
    # existing tests, in place
    assert sh('git -C /repo status --porcelain').stdout.strip() == ''
    a = sh('git -C /repo apply %s/patch.diff' % dst); assert a.returncode == 0, a.stderr
    try:
        t = sh('bash /opt/vp/test.sh /tmp/bugtest.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open('/tmp/bugtest.json'))
        want = base.get('stable', base.get('passed', base if isinstance(base, list) else []))
        missing = [x for x in want if x not in res['passed']]
        print('tests passed', len(res['passed']), 'missing', missing[:5])
        if '--check' in sys.argv:
            c = sh('python3-vt check.py %s' % g['prop'], cwd=V)
            print('check:', c.returncode, c.stdout[-500:])
    finally:
        sh('git -C /repo checkout -- .')
    print('OK' if r0.returncode == 0 and r1.returncode not in (0, 2) and not missing else 'NOT OK')
finally:
    shutil.rmtree(scr)
