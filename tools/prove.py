#!/usr/bin/env python3-vt
"""prove.py [-v] [-l SECONDS] PATTERN...: runs the units whose property or name contains a pattern (development aid)."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import runner
from vc.registry import UNITS
import specs.all
args = sys.argv[1:]
verb = '-v' in args
limit = 300
if '-l' in args: limit = int(args[args.index('-l') + 1]); del args[args.index('-l'):args.index('-l') + 2]
pats = [a for a in args if not a.startswith('-')]
us = [u for u in UNITS if any(p in u.props or (len(p) > 3 and p in u.name) for p in pats)]
prog, dt = runner.load_program(specs.all.EXTRA)
for e in prog.errors: print('EXPORT ERROR', e)
print('%d units, export %.1fs' % (len(us), dt))
t = time.time()
rs = runner.run_units(prog, us, limit, quiet=False)
for r in rs:
    if r['status'] != 'proved' or verb:
        print('==', r['name'], r['status'], r.get('why'), 'paths', r.get('paths'), 'obl', r['obligations'], 'q', r['queries'])
        if r.get('trace'): print(r['trace'])
        for f in r['failures'][:6]:
            print('   FAIL', f['label'], f['why'], 'line', f['line'])
            if verb: print('      goal', f.get('goal')); print('      model', f.get('model')); print('      path', f.get('path'))
print('proved %d of %d in %.1fs; obligations %d' % (sum(r['status'] == 'proved' for r in rs), len(rs), time.time() - t, sum(r['obligations'] for r in rs)))
