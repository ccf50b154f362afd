"""Runs contracts: the body of a function against its specification, for all inputs, path by path."""
import time, traceback, os, sys, json, multiprocessing as mp
import z3
from .values import *
from .engine import *
from .interp import Interp, stripq
from . import ast as A, lib, loops, net
from .loops import eqv, NoMatch

QUIET_EVENTS = ('lock', 'unlock', 'logclone', 'table')


def outcome(E, fn):
    try: return ('ret', fn())
    except RetX as x: return ('ret', x.v)
    except ThrowX as x: return ('throw', x.v)


def collect_hints(E, vals):
    out = []; seen = set()
    def walk(v, d=0):
        if id(v) in seen or d > 8: return
        seen.add(id(v))
        if isinstance(v, (Vec, Buf, MapV)): out.append(v); return
        if isinstance(v, LV):
            if v.cell in E.st.cells: walk(E.read(v), d + 1)
            return
        if isinstance(v, (Rseq, Wseq)):
            if v.buf is not None: walk(v.buf, d + 1)
            return
        if isinstance(v, V) and not isinstance(v, (FnV, Opaque)):
            for n, p in v.parts(): walk(p, d + 1)
        if isinstance(v, (tuple, list)):
            for x in v: walk(x, d + 1)
    for v in vals: walk(v)
    return out


class Verifier(Interp):
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.results = []; self.spechints = []

    # ---- comparing
    def prove_eq(self, a, b, label, excid=False):
        try: g = eqv(self, a, b, '', excid)
        except NoMatch as x:
            self.oblige(F(), '%s (%s)' % (label, x)); return
        parts = g.children() if z3.is_and(g) else [g]
        for c in parts: self.oblige(c, label)

    def filtered(self, log, keep=None):
        return [e for e in log if (e[0] in keep if keep is not None else e[0] not in QUIET_EVENTS)]

    def prove_events(self, spec, body, label, handlers=None):
        """The same events, in the same order."""
        if len(spec) != len(body):
            self.oblige(F(), '%s: specified %s, found %s' % (label, [e[0] for e in spec], [e[0] for e in body])); return
        for i, (x, y) in enumerate(zip(spec, body)):
            self.prove_event(x, y, '%s: event %d (%s)' % (label, i + 1, x[0]))

    def prove_event(self, x, y, label):
        if x[0] != y[0] or len(x) != len(y):
            self.oblige(F(), '%s: specified %s, found %s' % (label, x[:2], y[:2])); return
        if x[0] == 'foreach':
            self.oblige(x[1] == y[1], label + ': number of iterations')
            j = loops.skolem(self, 'it')
            st = self.st
            pc = list(st.pc)
            st.pc.append(z3.ULT(j, x[1]))
            self.prove_events(x[2](j), y[2](j), label)
            st.pc = pc
            return
        if x[0] == 'eachkey':
            if x[1] != y[1]: self.oblige(F(), label + ': other map'); return
            j = loops.skolem(self, 'key')
            st = self.st
            pc = list(st.pc)
            st.pc.append(z3.And(z3.ULT(j, x[2].END), x[2].pres(j)))
            self.prove_events(x[3](j), y[3](j), label)
            st.pc = pc
            return
        for a, b in zip(x[1:], y[1:]):
            if isinstance(a, FnV) and a.kind == 'spec' and a.check is not None:
                a.check(self, b, label); continue
            if isinstance(a, str):
                if a != b: self.oblige(F(), '%s: %s / %s' % (label, a, b))
                continue
            self.prove_eq(a, b, label)

    # ---- running
    def find(self, q, pred=None):
        """Definitions with the qualified name (template arguments stripped unless given)."""
        r = list(self.prog.byq.get(q, []))
        if not r: r = [f for n, fs in self.prog.byq.items() if stripq(n) == q for f in fs]
        if pred: r = [f for f in r if pred(f)]
        return r

    def unit(self, name, path, maxpaths=3000):
        """One verified function: path() builds the pre-state, runs specification and body and compares."""
        self.cur = name
        t0 = time.time(); n0 = len(self.obls); f0 = len(self.failures); q0 = self.queries; s0 = self.solver_time
        self.st = State(); self.dec = Dec([]); self.memo = {}; self.maps = {}; self.hints = []
        self.inlined, self.used_contracts, self.libused = set(), set(), set()
        self.loopcount = 0
        res = dict(unit=name, status='proved', paths=0)
        self.vac = False; self.laters = {}
        try:
            def go():
                path()
                # the path is possible: the contract is not vacuous
                if not self.vac:
                    r, _ = self.smt(self.st.pc, level=1, timeout=2000)
                    if r == z3.sat: self.vac = True
                return True
            rs = self.explore(go, State(), maxpaths)
            res['paths'] = len(rs)
            for kind, v, st in rs:
                if kind != 'ok': raise Unsupported('path ended with %s' % kind)
            if not rs: raise Unsupported('no feasible path')
            for l, ok in self.laters.items():
                if not ok and not self.failures[f0:]: raise Unsupported('%s: no later state shown possible (vacuous)' % l)
            if not self.vac and not self.failures[f0:]: raise Unsupported('no path shown possible (vacuous)')
        except (Unsupported, TooDeep, NoMatch) as x:
            res['status'] = 'unsupported'; res['why'] = '%s (near line %s)' % (x, self.line)
        except TimeoutError:
            res['status'] = 'timeout'; res['why'] = 'deadline reached'
        except (AttributeError, KeyError, TypeError, IndexError, z3.Z3Exception, AssertionError, RecursionError, ValueError) as x:
            res['status'] = 'unsupported'; res['why'] = 'internal: %s: %s' % (type(x).__name__, x)
            res['trace'] = traceback.format_exc()[-3000:]
        fails = self.failures[f0:]
        if fails and res['status'] == 'proved': res['status'] = 'failed'
        res.update(obligations=len(self.obls) - n0, discharged=sum(1 for o in self.obls[n0:] if o['ok']), failures=fails,
                   time=round(time.time() - t0, 2), queries=self.queries - q0, solver=round(self.solver_time - s0, 2), loops=self.loopcount,
                   inlined=sorted(self.inlined), contracts=sorted(self.used_contracts), lib=sorted(self.libused),
                   simplified=sum(1 for o in self.obls[n0:] if o['by'] == 'simplifier'), labels=sorted({o['label'] for o in self.obls[n0:]}))
        self.results.append(res)
        return res

    def against(self, name, setup, spec, body, compare=None, events=True, excid=False, keep=None, ret=True, cells=True, post=None):
        """setup(E) -> context; spec(E, ctx) and body(E, ctx) run from the same state; what they return, throw, change and do must agree."""
        E = self
        def path():
            ctx = setup(E)
            s0 = E.st.copy()
            nlog = len(E.st.log)
            E.spechints = []
            sk, sv = outcome(E, lambda: spec(E, ctx))
            scells = E.st.cells; slog = E.st.log[nlog:]
            E.hints = collect_hints(E, [sv] + [scells[c] for c in s0.cells] + [e[1:] for e in slog] + E.spechints)
            cells = dict(s0.cells)
            for c, v in scells.items():
                if c not in cells: cells[c] = v
            E.st.cells = cells; E.st.log = list(s0.log); E.st.frames = [f.copy() for f in s0.frames]
            bk, bvv = outcome(E, lambda: body(E, ctx))
            E.hints = []
            if sk != bk:
                E.oblige(F(), '%s: specified to %s, but it %s' % (name, {'ret': 'return', 'throw': 'throw'}[sk], {'ret': 'returns', 'throw': 'throws'}[bk]))
                return
            rl = '%s: %s' % (name, 'result' if sk == 'ret' else 'exception thrown')
            if callable(ret) and sk == 'ret': ret(E, sv, bvv, rl)
            elif ret: E.prove_eq(sv, bvv, rl, excid)
            if compare: compare(E, ctx, scells, E.st.cells)
            elif True:
                for c in s0.cells:
                    if scells[c] is E.st.cells[c]: continue
                    E.prove_eq(scells[c], E.st.cells[c], '%s: final state of %s' % (name, ctx.get('names', {}).get(c, 'the objects')) if isinstance(ctx, dict) else '%s: final state' % name)
            if events: E.prove_events(E.filtered(slog, keep), E.filtered(E.st.log[nlog:], keep), name + ': calls made')
            if post: post(E, ctx)
        return self.unit(name, path)

    def call_body(self, f, this, args):
        """Run the real body of f (its own contract is not used)."""
        d = self.prog.funcs.get(f.m)
        if d is None or d.body is None: raise Unsupported('no body of %s' % f.q)
        return self.inline(d, this, args)

    def newobject(self, cls, args, pick=None):
        """An object built by the real constructor; args: values or locations."""
        cands = [g for g in self.prog.funcs.values() if g.cls is not None and g.cls.n == cls and g.ctor and g.ctor not in ('copy', 'move') and len(g.ps) == len(args)]
        if pick: cands = [g for g in cands if pick(g)]
        if len(cands) != 1: raise Unsupported('%d constructors of %s' % (len(cands), cls))
        g = cands[0]
        lv = self.alloc(None)
        a = []
        for x, p in zip(args, g.ps):
            if p.k == 'ref': a.append(x if isinstance(x, LV) else self.alloc(x))
            else: a.append(self.read(x) if isinstance(x, LV) else x)
        self.ctor(g, g.cls, lv, a)
        return lv
