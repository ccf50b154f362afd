"""Path-wise symbolic execution of the exported functions; every path condition and obligation goes to z3."""
import os, time, z3
from .values import *
from . import ast as A


SLOW = os.environ.get('VC_SLOW')


class Infeasible(Exception): pass
class TooDeep(Exception): pass
class RetX(Exception):
    def __init__(s, v): s.v = v
class BrkX(Exception): pass
class ContX(Exception): pass
class ThrowX(Exception):
    def __init__(s, v): s.v = v
class LoopDone(Exception): pass


class QFact:
    """For all j: body(j). pats: (decl, argument index, offset) such that instantiating j := arg - offset is useful."""
    def __init__(self, body, name=''):
        self.name = name
        self.j = z3.Const('j!q', BV64)
        self.body = simp(body(self.j)) if callable(body) else body
        self.pats = []
        seen = set()
        def walk(e):
            if e.get_id() in seen: return
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                for i in range(e.num_args()):
                    a = e.arg(i)
                    if a.sort() == BV64 and contains(a, self.j):
                        c = simp(a - self.j)
                        if not contains(c, self.j): self.pats.append((e.decl().name(), i, c))
                        else: self.pats.append((e.decl().name(), i, None))
            for ch in e.children(): walk(ch)
        walk(self.body)
        self.done = set()

    def inst(self, t): return z3.substitute(self.body, (self.j, t))


def contains(e, x):
    seen = set()
    todo = [e]
    while todo:
        a = todo.pop()
        if a.get_id() in seen: continue
        seen.add(a.get_id())
        if a.eq(x): return True
        todo += a.children()
    return False


def ground_apps(es):
    """Applications of uninterpreted functions in the terms: name -> set of argument tuples."""
    seen = set(); out = {}
    todo = list(es)
    keep = []
    while todo:
        a = todo.pop()
        if a.get_id() in seen: continue
        seen.add(a.get_id()); keep.append(a)
        if z3.is_quantifier(a): continue
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args() > 0:
            out.setdefault(a.decl().name(), {})[a.get_id()] = a
        todo += a.children()
    return out


class Frame:
    __slots__ = ('vars', 'this', 'scopes', 'fn', 'rty')
    def __init__(self, vars=None, this=None, fn=None):
        self.vars, self.this, self.scopes, self.fn = vars or {}, this, [[]], fn
    def copy(self):
        f = Frame(dict(self.vars), self.this, self.fn)
        f.scopes = [list(s) for s in self.scopes]
        return f


class State:
    def __init__(self):
        self.cells = {}; self.pc = []; self.qf = []; self.log = []; self.frames = []; self.idx = (); self.terms = []; self.ghost = {}
    def copy(self):
        s = State()
        s.cells = dict(self.cells); s.pc = list(self.pc); s.qf = list(self.qf); s.log = list(self.log)
        s.frames = [f.copy() for f in self.frames]; s.idx = self.idx; s.terms = list(self.terms); s.ghost = dict(self.ghost)
        return s


class Dec:
    def __init__(self, prefix):
        self.prefix, self.pos, self.taken, self.alts = prefix, 0, [], []


class Engine:
    def __init__(self, prog, timeout=20000):
        self.prog = prog
        self.st = State(); self.dec = Dec([])
        self.ctr = 0; self.memo = {}; self.trial = 0; self.depth = 0
        self.obls = []       # discharged/failed obligations: dict
        self.failures = []
        self.hints = []
        self.solver_time = 0.0; self.queries = 0
        self.timeout = timeout
        self.strs = {}
        self.idents = {}
        self.contracts = {}  # key -> contract
        self.no_contract = set()
        self.ext = None      # handler of calls on external objects
        self.inlined = set()
        self.used_contracts = set()
        self.libused = set()
        self.decpath = ()
        self.loopcount = 0
        self.cur = ''
        self.maxpaths = 4000
        self.deadline = None
        self.line = 0
        self.mapaxioms = True
        self.known_exc = []
        self.spec_mode = False
        self.rawaccess = None

    # ---- names and fresh values
    def name(self, base):
        self.ctr += 1
        return '%s!%d' % (base, self.ctr)

    def fconst(self, sort, base):
        """A fresh constant of the sort; inside a loop body, a fresh function of the loop counters."""
        if self.st.idx:
            f = z3.Function(self.name(base), *([i.sort() for i in self.st.idx] + [sort]))
            return f(*self.st.idx)
        return z3.Const(self.name(base), sort)

    def ffun(self, args, sort, base):
        idx = self.st.idx
        f = z3.Function(self.name(base), *([i.sort() for i in idx] + list(args) + [sort]))
        return lambda *a: f(*(list(idx) + list(a)))

    def strlit(self, s):
        if s not in self.strs:
            self.strs[s] = z3.Const('str!%d' % len(self.strs), StrSort)
        return StrV(self.strs[s])

    def ident(self, base): return self.fconst(IdSort, base)

    def alloc(self, v):
        self.ctr += 1
        c = 'c%d' % self.ctr
        self.st.cells[c] = v
        return LV(c)

    # ---- locations
    def read(self, lv):
        v = self.st.cells[lv.cell]
        for p in lv.path: v = self.step(v, p)
        return v

    def step(self, v, p):
        if isinstance(p, str):
            if p == '*':
                if isinstance(v, UPtr): return v.val
                raise Unsupported('dereference of %r' % (v,))
            if isinstance(v, SV):
                if p not in v.f: raise Unsupported('no field %s in %s' % (p, v.cls))
                return v.f[p]
            return getattr(v, p)
        k, t = p
        if k == 'i': return v.at(t)
        if k == 'm': return v.val(t)
        raise Unsupported('path %r' % (p,))

    def write(self, lv, v):
        self.st.cells[lv.cell] = self.put(self.st.cells[lv.cell], lv.path, v)

    def put(self, old, path, v):
        if not path: return v
        p, rest = path[0], path[1:]
        if isinstance(p, str):
            if p == '*': return old.with_part('val', self.put(old.val, rest, v))
            return old.with_part(p, self.put(self.step(old, p), rest, v) if rest else v)
        k, t = p
        if k == 'i':
            new = self.put(old.at(t), rest, v) if rest else v
            at = old.at
            r = old.with_part('at', lambda i: ite(i == t, new, at(i)))
            return r
        if k == 'm':
            new = self.put(old.val(t), rest, v) if rest else v
            val = old.val
            return old.with_part('val', lambda i: ite(i == t, new, val(i)))
        raise Unsupported('path %r' % (p,))

    # ---- assumptions, decisions, obligations
    def assume(self, c, check=False):
        c = simp(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise Infeasible()
        self.st.pc.append(c)

    def qassume(self, body, name=''):
        self.st.qf.append(QFact(body, name))

    def check(self, cs, timeout):
        self.queries += 1
        s = z3.Solver()
        s.set('timeout', int(timeout)); s.set('relevancy', 0)
        s.add(*cs)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.solver_time += dt
        if SLOW and dt > 0.5:
            open('/tmp/slow/%d_%s_%.1f.smt2' % (self.queries, r, dt), 'w').write('(set-logic ALL)\n' + s.to_smt2())
        if self.deadline and time.time() > self.deadline: raise TimeoutError('deadline')
        return r, s

    def smt(self, cs, level=2, timeout=None):
        """Satisfiability of the formulas together with the quantified facts, instantiated step by step until that is enough."""
        cs = [c for c in cs if not z3.is_true(c)]
        timeout = timeout or self.timeout
        r, s = self.check(cs, timeout if not self.st.qf and not self.maps else min(timeout, 3000))
        if r == z3.unsat or level == 0 or (not self.st.qf and not self.maps): return r, s
        prev = None
        for lv in range(1, level + 1):
            full = self.instantiate(cs, lv)
            if len(full) == len(cs) or (prev is not None and len(full) == prev): continue
            prev = len(full)
            r, s = self.check(full, timeout if lv == level else max(3000, timeout // 2))
            if r == z3.unsat: break
        return r, s

    def instantiate(self, cs, level):
        """level 1: pattern instances only; 2: also at the skolem constants and their neighbours; 3: one more round."""
        out = list(cs); seen = set(c.get_id() for c in out); known = {}
        keep = []
        extra = list(self.st.terms)
        done = {}
        for rnd in range({1: 1, 2: 2, 3: 3}[level]):
            apps = ground_apps(out + extra)
            added = []
            for q in self.st.qf:
                d = done.setdefault(id(q), set())
                ts = {}
                if rnd == 0:
                    for t in extra:
                        for u in ((t,) if level == 1 else (t, simp(t - 1), simp(t + 1))): ts[u.get_id()] = u; keep.append(u)
                for (nm, i, c) in q.pats:
                    for a in apps.get(nm, {}).values():
                        t = a.arg(i)
                        if c is not None: t = simp(t - c); keep.append(t)
                        ts[t.get_id()] = t
                if len(ts) > 60: ts = dict(list(ts.items())[:60])
                for t in ts.values():
                    if t.get_id() in d: continue
                    d.add(t.get_id()); keep.append(t)
                    f = simp(q.inst(t))
                    if z3.is_true(f) or f.get_id() in seen: continue
                    seen.add(f.get_id()); added.append(f); keep.append(f)
            # order axioms of maps
            for m in list(self.maps.values()):
                ap = apps.get(m['nxt'], {})
                for a in ap.values():
                    key = ('nx', a.get_id())
                    if key in known: continue
                    known[key] = 1; keep.append(a)
                    t = a.arg(a.num_args() - 1)
                    b = simp(t + 1)
                    added += [m['axiom'](t, a), m['between'](t, a, b)]
                if level == 1: continue
                pa = [x.arg(x.num_args() - 1) for x in apps.get(m['pres'], {}).values()]
                for a in ap.values():
                    t = a.arg(a.num_args() - 1)
                    for b in pa:
                        key = ('bt', a.get_id(), b.get_id())
                        if key in known: continue
                        known[key] = b; keep.append(b)
                        added.append(m['between'](t, a, b))
            if not added: break
            out += added
        return out

    maps = {}

    def feasible(self, c):
        r, _ = self.smt(self.st.pc + [c], level=1, timeout=2000)
        return r != z3.unsat

    def valid(self, c, timeout=None):
        """Whether c follows from the path condition."""
        c = simp(c)
        if z3.is_true(c): return True
        r, _ = self.smt(self.st.pc + [z3.Not(c)], level=2, timeout=timeout)
        return r == z3.unsat

    def branch(self, c):
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        d = self.dec
        if d.pos < len(d.prefix):
            v = d.prefix[d.pos]; d.pos += 1
            d.taken.append(v)
            self.st.pc.append(c if v else simp(z3.Not(c)))
            return v
        nc = simp(z3.Not(c))
        ft, ff = self.feasible(c), self.feasible(nc)
        if not ft and not ff: raise Infeasible()
        if ft and ff: d.alts.append(d.taken + [False])
        v = ft
        d.taken.append(v); d.pos += 1; d.prefix = list(d.taken)
        self.st.pc.append(c if v else nc)
        return v

    def choose(self, n):
        """A demonic choice among n alternatives, none of them guarded."""
        for i in range(n - 1):
            d = self.dec
            if d.pos < len(d.prefix):
                v = d.prefix[d.pos]; d.pos += 1; d.taken.append(v)
            else:
                d.alts.append(d.taken + [False]); v = True
                d.taken.append(v); d.pos += 1; d.prefix = list(d.taken)
            if v: return i
        return n - 1

    def oblige(self, c, label):
        """A proof obligation; afterwards it may be used."""
        c = simp(c)
        if z3.is_true(c):
            if not self.trial: self.note(label, True, 0.0, 'simplifier')
            return
        if not self.trial:
            t = time.time()
            ok = False; model = None; why = ''
            r, s = self.smt(self.st.pc + [z3.Not(c)], level=3)
            if r == z3.unsat: ok = True
            else:
                why = str(r)
                if r == z3.sat: model = s.model()
            self.note(label, ok, time.time() - t, 'z3', c, model, why)
        if label != 'no signed overflow': self.st.pc.append(c)

    def note(self, label, ok, dt, by, goal=None, model=None, why=''):
        o = dict(fn=self.cur, label=label, ok=ok, t=dt, by=by, line=self.line)
        self.obls.append(o)
        if not ok:
            o['goal'] = str(goal)[:1500] if goal is not None else ''
            o['why'] = why
            if model is not None:
                try: o['model'] = str(model)[:3000]
                except Exception: o['model'] = '?'
            o['path'] = [str(c)[:300] for c in self.st.pc[-40:]]
            self.failures.append(o)

    def holds_for_all(self, n, body, name=''):
        """Decide (one path each way) whether body(j) holds for every j < n."""
        if as_int(n) is not None and as_int(n) <= 1:
            return True if as_int(n) == 0 else self.branch(body(bv(0)))
        if self.choose(2) == 0:
            self.qassume(lambda j: z3.Implies(z3.ULT(j, n), body(j)), name)
            return True
        w = self.fconst(BV64, 'w')
        self.st.terms.append(w)
        self.assume(z3.And(z3.ULT(w, n), z3.Not(body(w))))
        return False

    # ---- exploration
    def explore(self, fn, snapshot=None, maxpaths=None):
        """Run fn once per feasible path from the snapshot; returns [(kind, value, state)]."""
        base = snapshot if snapshot is not None else self.st
        saved = (self.st, self.dec, self.decpath)
        outer = self.decpath + (tuple(self.dec.taken),)
        work = [[]]; res = []; ctr0 = self.ctr; ctrmax = self.ctr
        try:
            while work:
                p = work.pop()
                if len(res) > (maxpaths or self.maxpaths): raise Unsupported('too many paths')
                self.st = base.copy(); self.dec = Dec(p); self.decpath = outer
                self.ctr = ctr0
                try:
                    out = ('ok', fn())
                except Infeasible: out = None
                except RetX as x: out = ('ret', x.v)
                except BrkX: out = ('brk', None)
                except ContX: out = ('cont', None)
                except ThrowX as x: out = ('throw', x.v)
                except LoopDone: out = ('done', None)
                ctrmax = max(ctrmax, self.ctr)
                work += self.dec.alts
                if out: res.append((out[0], out[1], self.st))
        finally:
            self.st, self.dec, self.decpath = saved
            self.ctr = ctrmax
        return res

    def memoised(self, key, fn):
        k = (self.decpath, tuple(self.dec.taken), key)
        if k in self.memo:
            r, self.ctr = self.memo[k]
            if isinstance(r, Exception): raise r
            return r
        try:
            r = fn()
        except Unsupported as x:
            self.memo[k] = (x, self.ctr)
            raise
        self.memo[k] = (r, self.ctr)
        return r
