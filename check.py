#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: proves the property's obligations on the current source of /repo.

Exit 0: every obligation discharged. Exit 1 and a VIOLATION line: an obligation is not discharged; a driver then looks for
a failing input on the real code, and the line ends with no-failing-input-found when there is none to show."""
import sys, os, time, json, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vc import runner, driver, ast as A
from vc.registry import UNITS
import specs.all
from specs import assumptions


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    units = [u for u in UNITS if prop in u.props]
    if not units: print('no units for', prop); sys.exit(2)
    known = known_findings(prop)
    prog, texp = runner.load_program(specs.all.EXTRA)
    quick = tier == 'quick'
    res = runner.run_units(prog, units, limit=240 if quick else 900, total=420 if quick else 3600)
    bad = [r for r in res if r['status'] != 'proved']
    tprove = time.time() - t0
    obl = sum(r['obligations'] for r in res); dis = sum(r['discharged'] for r in res)
    fns = sorted({r['unit'] for r in res})
    cov = dict(obligations=obl, discharged=dis,
               checker_cmd='python3-vt check.py %s --tier %s (z3 %s; exporter build/export on clang 18 ASTs of %s)' % (prop, tier, z3ver(), A.REPO),
               trusted_base=assumptions.trusted(res, prop),
               backend={'z3': obl - sum(r['simplified'] for r in res), 'z3 simplifier': sum(r['simplified'] for r in res)},
               functions_under_contract=fns, inlined_functions=sorted({x for r in res for x in r['inlined']}),
               contracts_used=sorted({x for r in res for x in r['contracts']}),
               units=[dict(unit=r['name'], status=r['status'], paths=r.get('paths', 0), obligations=r['obligations'], discharged=r['discharged'], loops=r['loops'],
                           solver_queries=r['queries'], solver_s=r['solver'], wall_s=r['time'], **({'why': r['why']} if r.get('why') else {})) for r in res],
               solver_s=round(sum(r['solver'] for r in res), 2), solver_queries=sum(r['queries'] for r in res),
               samples=[dict(unit=r['name'], obligations=r['labels'][:6]) for r in res[:4]],
               bounded=assumptions.BOUNDED.get(prop, []))
    violation = None
    drv = None
    if bad or not quick:
        budget = (60 if quick else 300)
        drv = driver.run(prop, seed, budget, quick)
        cov['driver'] = {k: drv[k] for k in ('ran', 'cases', 'found', 'note') if k in drv}
    new = []
    for fnd in (drv or {}).get('findings', []):
        k = [x for x in known if x['match'] and x['match'] in fnd['text']]
        if not k: new.append(fnd)
    if bad or new:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'replay', '%s.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s\n' % prop)
            if new:
                f.write('failing input on the real code (rerun: %s):\n' % drv.get('cmd'))
                for x in sorted(new, key=lambda x: len(x['text']))[:5]: f.write(x['text'].rstrip() + '\n')
                f.write('\n')
            for e in prog.errors: f.write('source does not parse: %s\n%s\n' % e)
            for r in bad:
                f.write('%s: %s %s\n' % (r['name'], r['status'], r.get('why') or ''))
                for o in r['failures'][:10]:
                    f.write('  failed obligation: %s (line %s): %s\n' % (o['label'], o['line'], o['why'] or 'not valid'))
                    f.write('    goal: %s\n' % o.get('goal', ''))
                    if o.get('model'): f.write('    counterexample: %s\n' % o['model'])
                if r.get('trace'): f.write(r['trace'] + '\n')
            if drv: f.write('driver: %s\n' % drv.get('note', ''))
        violation = path
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=assumptions.assumed(prop), wall_s=round(time.time() - t0, 2),
              violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in known:
        if k['kind'] == 'known': print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    for r in bad:
        print('not proved: %s: %s %s' % (r['name'], r['status'], r.get('why') or '; '.join(sorted({o['label'] for o in r['failures']}))[:300]))
    print('%s: %d of %d obligations discharged in %d units, %.1f s proving' % (prop, dis, obl, len(units), tprove))
    if violation:
        print('VIOLATION property=%s replay=%s%s' % (prop, violation, '' if new else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


def z3ver():
    import z3
    return z3.get_version_string()


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                t = l.split(' ', 2)[2]
                m = ''
                if ' match=' in t: t, m = t.rsplit(' match=', 1)
                out.append(dict(kind='known', text=t, match=m))
    return out


if __name__ == '__main__': main()
