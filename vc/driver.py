"""Builds the real library with a driver that looks for an input on which a property fails, and runs it."""
import os, subprocess, tempfile, shutil, glob, concurrent.futures as cf, time
from . import ast as A

DRV = os.path.join(A.VERIF, 'drivers')
GROUPS = {}
for g, ps in dict(db='C08 C09 C10 C11', codec='C01 C03 C04 C05 C06 C07 C23', parser='C02', misc='C17 C22', client='C12 C13 C14 C18 C19',
                  server='C15 C16 C24', tcp='C21 C20').items():
    for p in ps.split(): GROUPS[p] = g


def run(prop, seed, budget, quick):
    src = os.path.join(DRV, GROUPS.get(prop, '?') + '.cpp')
    if not os.path.exists(src): return dict(ran=False, findings=[], note='no driver')
    out = tempfile.mkdtemp(prefix='vc_driver_')
    try:
        fl = ['-std=c++14', '-w', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined', '-DASIO_STANDALONE',
              '-I' + A.VERIF + '/shim/light', '-I' + A.VERIF + '/shim', '-I' + A.REPO + '/lib/include', '-I' + A.REPO + '/lib/src', '-I' + DRV]
        jobs = [(s, os.path.join(out, '%d.o' % i)) for i, s in enumerate([src] + A.sources())]

        def one(j):
            return subprocess.run(['g++'] + fl + ['-c', j[0], '-o', j[1]], capture_output=True, text=True)
        with cf.ThreadPoolExecutor(8) as ex:
            for r, j in zip(ex.map(one, jobs), jobs):
                if r.returncode: return dict(ran=False, findings=[], note='driver build failed: %s\n%s' % (j[0], r.stderr[:1200]))
        exe = os.path.join(out, 'driver')
        r = subprocess.run(['g++', '-fsanitize=address,undefined', '-o', exe] + [j[1] for j in jobs] + ['-lpthread'], capture_output=True, text=True)
        if r.returncode: return dict(ran=False, findings=[], note='driver link failed: ' + r.stderr[:1200])
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66', UBSAN_OPTIONS='print_stacktrace=1:exitcode=66')
        try:
            p = subprocess.run([exe, prop, str(seed), str(budget)], capture_output=True, text=True, errors='replace', env=env, timeout=budget + 60, cwd=out)
            so, se, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as x:
            so = (x.stdout or b'').decode(errors='replace'); se = 'the code does not terminate on the last input tried'; rc = -99
        f = []
        last = ''
        cases = 0
        for l in so.splitlines():
            if l.startswith('FAIL '): f.append(dict(text=l[5:]))
            elif l.startswith('TRY '): last = l[4:]
            elif l.startswith('CASES '): cases = int(l.split()[1])
        if rc != 0 and not f:
            f.append(dict(text='%s: ended with %d: %s' % (last, rc, se[:3000])))
        return dict(ran=True, cases=cases, found=len(f), findings=f, cmd='drivers/%s.cpp %s seed %d' % (GROUPS[prop], prop, seed), note='%d cases' % cases)
    finally:
        shutil.rmtree(out)
