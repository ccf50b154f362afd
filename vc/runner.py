"""Runs the units of one property in parallel on the current source, each in a process of its own."""
import os, sys, time, json, pickle, signal, select, traceback
from . import ast as A


def load_program(extra=()):
    t = time.time()
    prog = A.export(A.sources(), extra)
    return prog, time.time() - t


def run_unit(prog, u, limit):
    from .verify import Verifier
    E = Verifier(prog)
    E.deadline = time.time() + limit
    try:
        r = u.run(E)
        if r is None: r = E.results[-1] if E.results else dict(unit=u.name, status='unsupported', why='no result')
        if len(E.results) > 1:   # a unit made of several verified functions
            rs = E.results
            r = dict(rs[0]); r['unit'] = u.name
            for x in rs[1:]:
                for k in ('obligations', 'discharged', 'time', 'queries', 'solver', 'paths', 'loops', 'simplified'): r[k] = r.get(k, 0) + x.get(k, 0)
                for k in ('inlined', 'contracts', 'lib', 'labels'): r[k] = sorted(set(r[k]) | set(x[k]))
                r['failures'] = r['failures'] + x['failures']
                if r['status'] == 'proved' and x['status'] != 'proved': r['status'] = x['status']; r['why'] = x.get('why')
        for o in r.get('failures', []): o.setdefault('unit', u.name)
    except Exception as x:
        r = dict(unit=u.name, status='unsupported', why='%s: %s' % (type(x).__name__, x), trace=traceback.format_exc()[-3000:])
    r['name'] = u.name
    for k in ('obligations', 'discharged', 'queries', 'loops', 'paths', 'simplified'): r.setdefault(k, 0)
    for k in ('time', 'solver'): r.setdefault(k, 0.0)
    for k in ('failures', 'inlined', 'contracts', 'lib', 'labels'): r.setdefault(k, [])
    return r


def run_units(prog, units, limit=300, jobs=8, total=None, quiet=True):
    """[(unit result)] in the order of the units; a unit that does not end in time is reported as such."""
    todo = sorted(range(len(units)), key=lambda i: (-units[i].slow, i))
    res = [None] * len(units)
    live = {}
    t0 = time.time()
    buf = {}
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    sys.setrecursionlimit(20000)
                    lim = limit if total is None else max(10, min(limit, total - (time.time() - t0)))
                    out = run_unit(prog, units[i], lim)
                    with os.fdopen(w, 'wb') as f: pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (pid, i, time.time()); buf[r] = b''
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in rs:
            d = os.read(r, 1 << 20)
            if d: buf[r] += d; continue
            pid, i, ts = live.pop(r)
            os.close(r); os.waitpid(pid, 0)
            try: res[i] = pickle.loads(buf.pop(r))
            except Exception: res[i] = dict(unit=units[i].name, name=units[i].name, status='unsupported', why='the prover process ended')
            if not quiet: print('%-12s %6.1fs  %s %s' % (res[i]['status'], time.time() - ts, units[i].name, res[i].get('why', '') or ''), flush=True)
        for r, (pid, i, ts) in list(live.items()):
            if time.time() - ts > limit + 45 or (total is not None and time.time() - t0 > total + 45):
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
                live.pop(r); os.close(r); buf.pop(r)
                res[i] = dict(unit=units[i].name, name=units[i].name, status='timeout', why='stopped after %d s' % (time.time() - ts))
                if not quiet: print('killed', units[i].name, flush=True)
    for i, r in enumerate(res):
        for k in ('obligations', 'discharged', 'queries', 'loops', 'paths', 'simplified'): r.setdefault(k, 0)
        for k in ('time', 'solver'): r.setdefault(k, 0.0)
        for k in ('failures', 'inlined', 'contracts', 'lib', 'labels'): r.setdefault(k, [])
    return res
