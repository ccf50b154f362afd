"""Loops without annotations: closed-form invariants are guessed, then proved inductively in the iteration counter.

Every invariant used is an obligation: base case, preservation on every continuing path of one arbitrary iteration, and
termination. A guess that is not proved is dropped; what is left without a closed form is an arbitrary value."""
import z3
from .values import *
from .engine import *
from .interp import Interp

import os
DEBUG = os.environ.get('VC_DEBUG')
KMAX = 1 << 33
UNROLL = 9


class NoMatch(Exception): pass


def isleaf(v): return isz(v) or v is None or isinstance(v, (LV, FnV, Opaque, ExtV, str)) or not v.parts()


def samev(a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b) or (a.sort() == b.sort() and simp(a).eq(simp(b)))
    if isinstance(a, LV) and isinstance(b, LV): return a.key() == b.key()
    if isinstance(a, ExtV) and isinstance(b, ExtV): return a.id.eq(b.id)
    return False


def diff(a, b, path=()):
    """Paths of the parts in which the values differ."""
    if samev(a, b): return []
    if isz(a) and isz(b): return [path]
    if type(a) is not type(b): return [path]
    if isinstance(a, Vec): return ([path + ('n',)] if not samev(a.n, b.n) else []) + ([path + ('at',)] if a.at is not b.at else [])
    if isinstance(a, Buf): return [path + ('at',)] if a.at is not b.at else []
    if isinstance(a, MapV): return ([path + ('pres',)] if a.pres is not b.pres else []) + ([path + ('val',)] if a.val is not b.val else [])
    if isinstance(a, ItV) and a.lv is not None and b.lv is not None and a.lv.key() == b.lv.key(): return [path + ('key',)]
    if isinstance(a, (Rseq, Wseq)):
        if (a.buf is None) != (b.buf is None) or (a.buf is not None and a.buf.key() != b.buf.key()): return [path]
    elif isinstance(a, SV):
        if a.cls != b.cls or set(a.f) != set(b.f): return [path]
    elif not isinstance(a, (UPtr, ShPtr, WkPtr, Ptr, ExpV, ExcV, StrV, MutexV, TimerV)): return [path]
    out = []
    for n, x in a.parts():
        y = b.f[n] if isinstance(b, SV) else getattr(b, n)
        out += diff(x, y, path + (n,))
    return out


def eqv(E, a, b, name='', excid=False, n=None):
    """The values are equal (indices and keys skolemised: to be proved, never assumed). Returns a formula."""
    if a is b: return T()
    if isz(a) and isz(b):
        if a.sort() != b.sort(): raise NoMatch('%s: sorts %s and %s' % (name, a.sort(), b.sort()))
        return a == b
    if (a is None) != (b is None): raise NoMatch('%s: %r and %r' % (name, a, b))
    if a is None: return T()
    if isinstance(a, (Ptr, ShPtr, WkPtr)) and isinstance(b, (Ptr, ShPtr, WkPtr)):
        if isinstance(a.tgt, LV) or isinstance(b.tgt, LV):
            if isinstance(a.tgt, LV) and isinstance(b.tgt, LV) and a.tgt.key() == b.tgt.key(): return a.null == b.null
            return z3.And(a.null, b.null)
        return E.ptreq(Ptr(a.null, a.tgt), Ptr(b.null, b.tgt))
    if isinstance(a, FnV) and isinstance(b, FnV):
        if a.kind == b.kind == 'opaque': return a.id == b.id
        if a.kind == b.kind == 'null': return T()
        raise NoMatch('%s: callables' % name)
    if type(a) is not type(b): raise NoMatch('%s: %r and %r' % (name, a, b))
    if isinstance(a, Vec):
        j = skolem(E, 'ix')
        return z3.And(a.n == b.n, z3.Implies(z3.ULT(j, a.n), eqv(E, a.at(j), b.at(j), name + '[]', excid)))
    if isinstance(a, Buf):
        j = skolem(E, 'ix')
        return z3.And(a.n == b.n, z3.Implies(z3.ULT(j, a.n), a.at(j) == b.at(j)))
    if isinstance(a, MapV):
        j = skolem(E, 'key')
        return z3.Implies(z3.ULT(j, a.END), z3.And(a.pres(j) == b.pres(j), z3.Implies(a.pres(j), eqv(E, a.val(j), b.val(j), name + '{}', excid))))
    if isinstance(a, (Rseq, Wseq)):
        same = a.buf is not None and b.buf is not None and a.buf.key() == b.buf.key()
        if same: return z3.And(a.off == b.off, a.n == b.n)
        if a.buf is None and b.buf is None: return a.n == b.n
        if isinstance(a, Rseq):
            j = skolem(E, 'ix')
            from .lib import byte_at
            return z3.And(a.n == b.n, z3.Implies(z3.ULT(j, a.n), byte_at(E, a, j) == byte_at(E, b, j)))
        raise NoMatch(name + ': views')
    if isinstance(a, ItV):
        if a.lv.key() != b.lv.key(): raise NoMatch(name + ': iterators')
        return a.key == b.key
    if isinstance(a, UPtr):
        if a.val is None or b.val is None: return z3.And(a.null == b.null, a.null) if not (a.val is None and b.val is None) else a.null == b.null
        return z3.And(a.null == b.null, z3.Implies(z3.Not(a.null), eqv(E, a.val, b.val, name + '*', excid)))
    if isinstance(a, ExpV):
        cs = [a.valid == b.valid]
        if a.val is None or b.val is None:
            if (a.val is None) != (b.val is None): cs += [z3.Not(a.valid)]
        else: cs.append(z3.Implies(a.valid, eqv(E, a.val, b.val, name + '.value', excid)))
        cs.append(z3.Implies(z3.Not(a.valid), eqv(E, a.exc, b.exc, name + '.exception', excid)))
        return z3.And(cs)
    if isinstance(a, ExcV):
        mt = E.exctag('modbus::ModbusException')
        return z3.And(a.tagv == b.tagv, z3.Implies(a.tagv == bv(mt, 8), a.mtype == b.mtype), a.id == b.id if excid else T())
    if isinstance(a, SV):
        if a.cls != b.cls: raise NoMatch('%s: classes %s and %s' % (name, a.cls, b.cls))
        if set(a.f) != set(b.f): raise NoMatch('%s: fields %s and %s' % (name, sorted(a.f), sorted(b.f)))
        return z3.And([eqv(E, a.f[n], b.f[n], name + '.' + n, excid) for n in a.f] or [T()])
    if isinstance(a, ExtV): return a.id == b.id
    if isinstance(a, StrV): return a.s == b.s
    if isinstance(a, MutexV): return a.held == b.held
    if isinstance(a, TimerV): return z3.And(a.null == b.null, z3.Or(a.null, a.id == b.id))
    if isinstance(a, LV):
        if a.key() == b.key(): return T()
        raise NoMatch(name + ': locations')
    if isinstance(a, Opaque):
        if a.desc == b.desc: return T()
    if hasattr(a, 'eqv'): return a.eqv(E, b, name)
    raise NoMatch('%s: %r' % (name, a))


def skolem(E, base):
    s = E.fconst(BV64, base)
    E.st.terms.append(s)
    return s


def genlike(E, v, base, sorts=()):
    """A function of the sorts giving an arbitrary value of the shape of v."""
    sorts = list(sorts)
    if isz(v):
        f = E.ffun(sorts, v.sort(), base); return lambda *a: f(*a)
    if v is None or isinstance(v, LV): return lambda *a: v
    if isinstance(v, Vec):
        nf = E.ffun(sorts, BV64, base + '.n'); el = genlike(E, v.at(bv(0)), base + '[]', sorts + [BV64])
        return lambda *a: Vec(v.ety, nf(*a), lambda i: el(*(a + (i,))))
    if isinstance(v, Buf):
        el = E.ffun(sorts + [BV64], z3.BitVecSort(8), base + '[]')
        return lambda *a: Buf(v.n, lambda i: el(*(a + (i,))))
    if isinstance(v, ExtV):
        f = E.ffun(sorts, IdSort, base); return lambda *a: ExtV(v.cls, f(*a))
    if isinstance(v, FnV) and v.kind == 'opaque':
        f = E.ffun(sorts, IdSort, base); return lambda *a: FnV('opaque', id=f(*a), fty=v.fty)
    if isinstance(v, (Rseq, Wseq, MapV, FnV, Opaque)): raise Unsupported('an arbitrary %r' % v)
    gs = [(n, genlike(E, p, base + '.' + n, sorts)) for n, p in v.parts()]
    def mk(*a):
        r = v
        for n, g in gs: r = r.with_part(n, g(*a))
        return r
    return mk


class Leaf:
    def __init__(self, cell, path, x0): self.cell, self.path, self.x0 = cell, path, x0; self.cands = []; self.pick = 0; self.hav = None; self.proved = False
    @property
    def lv(self): return LV(self.cell, self.path)
    @property
    def kind(self): return self.path[-1] if self.path and self.path[-1] in ('at', 'pres', 'val') and callable(self.x0) and not isz(self.x0) else 'value'
    def form(self): return self.cands[self.pick][1] if self.pick < len(self.cands) else None
    def value(self, k):
        f = self.form()
        return f(k) if f is not None else self.hav(k)
    def __repr__(self): return '%s.%s=%s' % (self.cell, '.'.join(self.path), self.cands[self.pick][0] if self.pick < len(self.cands) else 'any')


class Loop:
    """One execution of a loop from the state at its head."""
    def __init__(self, E, once, label):
        self.E, self.once, self.label = E, once, label
        self.base = E.st.copy()
        self.k = E.fconst(BV64, 'k')
        self.idx = E.st.idx
        self.leaves = {}
        self.facts = []

    # one iteration, every path: (kind, state)
    def iterate(self, st):
        E = self.E
        E.trial += 1
        try:
            st = st.copy(); st.idx = self.idx + (self.k,)
            return E.explore(self.once, st, maxpaths=600)
        finally:
            E.trial -= 1

    def setleaves(self, st, k, only=None):
        E = self.E
        old = E.st; E.st = st
        try:
            for l in self.leaves.values():
                E.write(l.lv, l.value(k))
            self.fixmaps(st)
        finally: E.st = old

    def fixmaps(self, st):
        """A map whose key set changed has no known successor function."""
        E = self.E
        for l in self.leaves.values():
            if l.kind == 'pres':
                lv = LV(l.cell, l.path[:-1]); m = E.read(lv)
                if isinstance(m, MapV): E.write(lv, MapV(m.vty, m.kw, m.pres, m.val, None, m.ordered))

    def havoc(self, l):
        E = self.E; v = l.x0
        st, E.st = E.st, self.base.copy()
        E.st.idx = self.idx
        try:
            base = 'h_' + '_'.join(str(p) for p in l.path)
            if l.kind == 'value': l.hav = genlike(E, v, base, [BV64])
            else:
                g = genlike(E, v(bv(0)), base, [BV64, BV64])
                l.hav = lambda k, g=g: (lambda i: g(k, i))
        finally: E.st = st

    def modified(self, st0, res):
        out = {}
        for kind, _, st in res:
            if kind != 'ok': continue
            for c, v in self.base.cells.items():
                if st.cells[c] is st0.cells[c]: continue
                for p in diff(st0.cells[c], st.cells[c]):
                    if (c, p) not in self.leaves: out[(c, p)] = 1
        return out

    def at(self, k):
        st = self.base.copy()
        self.setleaves(st, k)
        return st

    def discover(self):
        E = self.E
        for rnd in range(12):
            st = self.at(self.k)
            self.guard(st)
            res = self.iterate(st)
            new = self.modified(st, res)
            if not new: return res
            for (c, p) in new:
                # a leaf inside a leaf already known, or above one
                for (c2, p2) in list(self.leaves):
                    if c2 == c and p2[:len(p)] == p and len(p2) > len(p): del self.leaves[(c2, p2)]
                v = self.base.cells[c]
                for s in p: v = E.step(v, s) if not isinstance(v, (Vec, Buf, MapV)) else getattr(v, s)
                l = Leaf(c, p, v); self.havoc(l); self.leaves[(c, p)] = l
        raise Unsupported('loop at %s: its effects do not settle' % self.label)

    def guard(self, st):
        """What holds of an arbitrary iteration."""
        st.pc.append(z3.ULT(self.k, bv(KMAX)))
        for l, name, f in self.facts:
            if l.pick == 0 and l.form() is not None: st.pc.append(f(self.k))
        for l in self.leaves.values():
            if l.path and l.path[-1] == 'n' and l.form() is None: st.pc.append(z3.ULE(l.hav(self.k), bv(1 << 33)))

    # ---- candidates
    def consts(self):
        """Lengths that may bound a counter."""
        out = []
        def walk(v, d=0):
            if isinstance(v, Vec): out.append(v.n)
            elif isinstance(v, V) and not isinstance(v, (Buf, MapV)) and d < 6:
                for n, p in v.parts():
                    if isinstance(p, V): walk(p, d + 1)
        for c, v in self.base.cells.items():
            if isinstance(v, V): walk(v)
        for h in self.E.hints:
            if isinstance(h, Vec): out.append(h.n)
        r = []
        for n in out:
            n = simp(n)
            if z3.is_bv_value(n): continue
            if not any(n.eq(m) for m in r): r.append(n)
        return r[:12]

    def scalar_cands(self, l):
        x0 = l.x0
        if z3.is_bool(x0):
            return [('const', lambda k: x0), ('first', lambda k: z3.If(k == 0, x0, z3.Not(x0)))]
        if not z3.is_bv(x0): return []
        w = x0.size()
        def K(k): return k if w == 64 else z3.Extract(w - 1, 0, k)
        out = []
        for c in (1, 8, 2, -1, -8, -2):
            out.append(('x0%+dk' % c, lambda k, c=c: simp(x0 + bv(c, w) * K(k)) if c != 1 else simp(x0 + K(k))))
        z = simp(x0)
        if w == 64:
            out.append(('x0+k/8', lambda k: x0 + z3.LShR(k, 3)))
            out.append(('x0-k/8', lambda k: x0 - z3.LShR(k, 3)))
        else: out.append(('x0+k/8', lambda k: x0 + K(z3.LShR(k, 3))))
        out.append(('k%8', lambda k: K(k & 7) if z3.is_bv_value(z) else (x0 + K(k)) & bv(7, w)))
        out.append(('1<<k%8', lambda k: K(bv(1) << (k & 7))))
        up = lambda k: z3.LShR(k + 7, 3)
        out.append(('x0+up(k/8)', lambda k: x0 + K(up(k))))
        if w == 64: out.append(('x0-up(k/8)', lambda k: x0 - K(up(k))))
        for N in self.consts():
            # the last byte is completed by the last of N steps
            out.append(('x0+k/8, up at N', lambda k, N=N: x0 + K(z3.If(z3.ULT(k, N), z3.LShR(k, 3), up(k)))))
            if w == 64: out.append(('x0-k/8, up at N', lambda k, N=N: x0 - K(z3.If(z3.ULT(k, N), z3.LShR(k, 3), up(k)))))
            for c in (8, 16):
                out.append(('min(x0+%dk,N)' % c, lambda k, c=c, N=N: simp(K(z3.If(z3.ULE(ext(x0) + bv(c) * k, N), ext(x0) + bv(c) * k, N)))))
                out.append(('x0+min(%dk,N)' % c, lambda k, c=c, N=N: simp(x0 + K(z3.If(z3.ULE(bv(c) * k, N), bv(c) * k, N)))))
                out.append(('max(x0-%dk,0)' % c, lambda k, c=c: K(z3.If(z3.UGE(ext(x0), bv(c) * k), ext(x0) - bv(c) * k, bv(0)))))
        return out

    def iter_cands(self, l, itv):
        x0 = l.x0
        out = [('x0+k', lambda k: simp(x0 + k)), ('x0-k', lambda k: simp(x0 - k))]
        if itv.kind == 'seq':
            m = self.E.read_in(self.base, itv.lv)
            for c in (8, 2):
                out.append(('x0+%dk' % c, lambda k, c=c: simp(x0 + bv(c) * k)))
                if isinstance(m, Vec): out.append(('min(x0+%dk,N)' % c, lambda k, c=c: simp(z3.If(z3.ULE(x0 + bv(c) * k, m.n), x0 + bv(c) * k, m.n))))
        if itv.kind == 'map':
            m = self.E.read_in(self.base, itv.lv)
            if m.ordered and m.nxt is None: self.E.regmap(m)
            if m.nxt is not None:
                nx = m.nxt
                z = simp(x0)
                if z3.is_app(z) and z.decl().eq(nx):
                    a = z.arg(0); out.insert(0, ('nxt(a+k)', lambda k: nx(simp(a + k))))
                out.append(('lag', lambda k: z3.If(k == 0, x0, nx(simp(x0 + k - 1)))))
        return out

    def progress(self):
        """(low, high(k)) index ranges that the loop may have processed after k iterations."""
        out = [(bv(0), lambda k: k)]
        for l in self.leaves.values():
            if l.kind == 'value' and isz(l.x0) and z3.is_bv(l.x0) and l.x0.size() == 64 and l.form() is not None:
                out.append((l.x0, l.form()))
                if l.path and l.path[-1] == 'off': out.insert(0, out.pop())
        return out

    def hint_ats(self, sample, cls):
        out = []
        for h in self.E.hints:
            if not isinstance(h, cls): continue
            try:
                s = h.val(bv(0)) if isinstance(h, MapV) else h.at(bv(0))
                shape(s, sample)
            except (NoMatch, Unsupported): continue
            out.append(h)
        return out

    def content_cands(self, l):
        E = self.E
        lv = LV(l.cell, l.path[:-1])
        st, E.st = E.st, self.base
        try: cont = E.read(lv)
        finally: E.st = st
        out = []
        if l.kind == 'at':
            at0 = l.x0
            if isinstance(cont, Vec):
                n0 = cont.n
                for h in self.hint_ats(at0(bv(0)), Vec):
                    out.append(('append hint', lambda k, h=h: (lambda i: ite(z3.ULT(i, n0), at0(i), h.at(i)))))
                    out.append(('append hint, shifted', lambda k, h=h: (lambda i: ite(z3.ULT(i, n0), at0(i), h.at(simp(i - n0))))))
            for h in self.hint_ats(at0(bv(0)), Vec if isinstance(cont, Vec) else Buf):
                for lo, hi in self.progress():
                    out.append(('hint on %s' % simp(lo), lambda k, h=h, lo=lo, hi=hi: (lambda i: ite(z3.And(z3.ULE(lo, i), z3.ULT(i, hi(k))), h.at(i), at0(i)))))
                    out.append(('hint shifted on %s' % simp(lo), lambda k, h=h, lo=lo, hi=hi: (lambda i: ite(z3.And(z3.ULE(lo, i), z3.ULT(i, hi(k))), h.at(simp(i - lo)), at0(i)))))
            out.append(('shift', lambda k: (lambda i: at0(simp(i + k)))))
            e0 = at0(bv(0))
            if isinstance(cont, Vec) and z3.is_bv(e0) and e0.size() == 8:
                # bytes assembled from bits outside of the buffer they are written to later
                offs = []
                for v in self.base.cells.values():
                    if isinstance(v, Wseq) and not any(simp(v.off).eq(o) for o in offs): offs.append(simp(v.off))
                for h in self.E.hints:
                    if not isinstance(h, Buf): continue
                    for lo in offs[:4]:
                        def part(k, h=h, lo=lo):
                            b, m = z3.LShR(k, 3), z3.Extract(7, 0, (bv(1) << (k & 7)) - 1)
                            return lambda i: ite(z3.ULT(i, b), h.at(simp(lo + i)), ite(i == b, h.at(simp(lo + i)) & m, at0(i)))
                        out.append(('bytes being assembled from %s' % lo, part))
                        out.append(('bytes from %s' % lo, lambda k, h=h, lo=lo: (lambda i: ite(z3.ULT(i, k), h.at(simp(lo + i)), at0(i)))))
        else:
            x0 = l.x0
            los = self.keyterms()
            for h in self.hint_ats(cont.val(bv(0)), MapV):
                hf = h.pres if l.kind == 'pres' else h.val
                for lo in los:
                    out.append(('hint keys from %s' % lo, lambda k, hf=hf, lo=lo: (lambda i: ite(z3.And(z3.ULE(lo, i), z3.ULT(i, lo + k)), hf(i), x0(i)))))
                out.append(('hint keys visited', lambda k, hf=hf: (lambda i: hf(i))))
        return out

    def keyterms(self):
        out = []
        def add(t):
            t = simp(t)
            if z3.is_bv(t) and t.size() in (16, 8, 64):
                e = simp(ext(t))
                if not any(e.eq(x) for x in out): out.append(e)
        for f in self.base.frames[-2:]:
            for lv in f.vars.values():
                if isinstance(lv, LV) and lv.cell in self.base.cells:
                    try: v = self.E.read_in(self.base, lv)
                    except Exception: continue
                    def walk(v, d=0):
                        if isz(v): add(v) if z3.is_bv(v) else None
                        elif isinstance(v, (SV, ItV)) and d < 3:
                            for n, p in v.parts(): walk(p, d + 1)
                    walk(v)
        return out[:10]

    def acc_cands(self, l):
        """A byte being assembled from bits: the processed bits of the hint's byte."""
        x0 = l.x0; out = []
        if not z3.is_bv(x0) or x0.size() not in (8, 16, 32): return out
        w = x0.size()
        def W(b): return b if w == 8 else z3.ZeroExt(w - 8, b)
        from .lib import byte_at
        E = self.E
        st, E.st = E.st, self.base.copy()
        try: views = [E.read(LV(c)) for c in self.views()]
        finally: E.st = st
        for v in views:
            out.append(('last byte', lambda k, v=v: z3.If(k == 0, x0, W(byte_at(E, v, z3.LShR(k - 1, 3))))))
        for h in self.E.hints:
            if not isinstance(h, Buf): continue
            for lo, hi in self.progress():
                part = lambda k, h=h, hi=hi: W(h.at(simp(hi(k))) & z3.Extract(7, 0, (bv(1) << (k & 7)) - 1))
                out.append(('partial byte', part))
                for N in self.consts(): out.append(('partial byte, none at N', lambda k, part=part, N=N: z3.If(z3.ULT(k, N), part(k), bv(0, w))))
        return out

    def views(self):
        return [c for c, v in self.base.cells.items() if isinstance(v, Rseq)]

    # ---- proving
    def conts(self, st):
        res = self.iterate(st)
        more = self.modified(st, res)
        if more: raise Unsupported('loop at %s: effects %s' % (self.label, list(more)))
        return [s for kind, _, s in res if kind == 'ok']

    def contbody(self, st, conts):
        """The condition under which the iteration continues, as a formula in k."""
        n = len(st.pc)
        # the path condition of st itself is assumed anyway; only what the iteration added
        return z3.Or([z3.And(s.pc[n:] or [T()]) for s in conts] or [F()])

    def newval(self, s, l):
        v = s.cells[l.cell]
        for p in l.path: v = getattr(v, p) if isinstance(v, (Vec, Buf, MapV)) else self.E.step(v, p)
        return v

    def leafgoal(self, s, l, want):
        """In state s (the one after the iteration) the leaf has the wanted value: a formula."""
        E = self.E
        new = self.newval(s, l)
        if l.kind == 'value': return eqv(E, new, want, str(l.path))
        parent = s.cells[l.cell]
        for p in l.path[:-1]: parent = E.step(parent, p)
        j = skolem(E, 'inv')
        if l.kind == 'at':
            return z3.Implies(z3.ULT(j, parent.n), eqv(E, new(j), want(j), 'element'))
        if l.kind == 'pres': return z3.Implies(z3.ULT(j, parent.END), new(j) == want(j))
        return z3.Implies(z3.And(z3.ULT(j, parent.END), parent.pres(j)), eqv(E, new(j), want(j), 'value'))

    def holds(self, s, l, k1, prefix=None, timeout=2500):
        E = self.E
        want = l.form()
        if want is None: return True
        old = E.st
        E.st = s.copy()
        if prefix is not None: E.st.qf.append(prefix)
        E.st.terms.append(self.k)
        try:
            g = self.leafgoal(s, l, want(k1))
            return E.valid(g, timeout=timeout)
        except NoMatch: return False
        finally: E.st = old

    def truth(self, s, g, prefix=None):
        E = self.E
        old = E.st; E.st = s.copy()
        if prefix is not None: E.st.qf.append(prefix)
        E.st.terms.append(self.k)
        try: return E.valid(g, timeout=2500)
        finally: E.st = old

    def mkfacts(self, ls):
        """Counters do not wrap around."""
        for l in ls:
            if l.form() is None or not isz(l.x0) or not z3.is_bv(l.x0): continue
            name = l.cands[l.pick][0]; x0 = l.x0; w = x0.size()
            for c in (1, 2, 8):
                if name == 'x0+%dk' % c and w < 64:
                    self.facts.append((l, 'no wrap', lambda k, x0=x0, c=c, w=w: z3.ULE(ext(x0) + bv(c) * k, bv((1 << w) - 1))))
                if name == 'x0%+dk' % -c:
                    self.facts.append((l, 'no wrap', lambda k, x0=x0, c=c: z3.ULE(bv(c) * k, ext(x0))))

    def prefilter(self, ls, first, second=None):
        """Drop the candidates that the first iteration already refutes, and those wrong at the loop's start."""
        for l in ls:
            keep = []
            for name, f in l.cands:
                l2 = Leaf(l.cell, l.path, l.x0); l2.cands = [(name, f)]
                try:
                    ok = self.holds(self.base, l2, bv(0)) and all(self.holds(s, l2, bv(1)) for s in first)
                    if ok and second: ok = all(self.holds(s, l2, bv(2)) for s in second)
                except (NoMatch, Unsupported, z3.Z3Exception): ok = False
                if ok: keep.append((name, f))
                if len(keep) >= 6: break
            l.cands = keep; l.pick = 0

    def settle(self, ls):
        """Houdini: drop what is not preserved until everything left is. Returns (state at k, continuing states)."""
        for rnd in range(25):
            st = self.at(self.k)
            self.guard(st)
            conts = self.conts(st)
            body = self.contbody(st, conts)
            k = self.k
            prefix = QFact(lambda j: z3.Implies(z3.ULT(j, k), z3.substitute(body, (k, j))), 'prefix')
            failed = [l for l in ls if l.form() is not None and not all(self.holds(s, l, simp(k + 1), prefix) for s in conts)]
            bad = []
            for fa in self.facts:
                l, name, f = fa
                if l.pick == 0 and l.form() is not None:
                    if not (self.truth(self.base, f(bv(0))) and all(self.truth(s, f(simp(k + 1)), prefix) for s in conts)): bad.append(fa)
            if bad:
                self.facts = [fa for fa in self.facts if not any(fa is b for b in bad)]
                if failed and rnd < 20: continue
            if not failed and not bad: return st, conts, body
            sc = [l for l in failed if l.kind == 'value']
            if len(sc) > 1 and self.advance_one(sc): continue
            for l in (sc or failed): l.pick += 1
        raise Unsupported('loop at %s: no invariant' % self.label)

    def advance_one(self, failed):
        """Several closed forms fail together: move on from one whose next candidate holds, keeping the others."""
        for l in failed:
            p0 = l.pick
            for p in range(p0 + 1, len(l.cands)):
                l.pick = p
                st = self.at(self.k); self.guard(st)
                try: conts = self.conts(st)
                except Unsupported: continue
                if all(self.holds(s, l, simp(self.k + 1)) for s in conts): return True
            l.pick = p0
        return False

    def infer(self):
        E = self.E
        if E.deadline and time.time() > E.deadline: raise TimeoutError()
        self.discover()
        st0 = self.base.copy()
        first = [s for kind, _, s in self.iterate(st0) if kind == 'ok']
        second = []
        for s in first:
            if len(first) <= 3:
                second += [s2 for kind, _, s2 in self.iterate(s) if kind == 'ok']
        scal = [l for l in self.leaves.values() if l.kind == 'value']
        for l in scal:
            parent = None
            if len(l.path) >= 1:
                parent = E.read_in(self.base, LV(l.cell, l.path[:-1]))
            if isinstance(parent, ItV): l.cands = self.iter_cands(l, parent)
            elif isz(l.x0): l.cands = self.scalar_cands(l)
        if DEBUG: print('scalars', [(l, [c[0] for c in l.cands]) for l in scal], len(first), len(second))
        self.prefilter(scal, first, second)
        if DEBUG: print('after prefilter', [(l, [c[0] for c in l.cands]) for l in scal])
        self.mkfacts(scal)
        self.settle(scal)
        if DEBUG: print('settled', scal, [(f[0], f[1]) for f in self.facts])
        rest = [l for l in self.leaves.values() if l.kind != 'value' or (l.form() is None and isz(l.x0))]
        if rest:
            for l in rest:
                l.cands = self.acc_cands(l) if l.kind == 'value' else self.content_cands(l); l.pick = 0
            if DEBUG: print('rest', [(l, [c[0] for c in l.cands]) for l in rest])
            self.prefilter(rest, first, second)
            if DEBUG: print('after prefilter', [(l, [c[0] for c in l.cands]) for l in rest])
            self.settle([l for l in self.leaves.values()])
        return self

    def run(self):
        """Execute the loop: leaves it by one of its exits, in a state given by the invariant."""
        E = self.E
        inf = E.memoised(('loop', self.label, str(self.k)), lambda: self.infer())
        self.leaves, self.facts = inf.leaves, inf.facts
        st = self.at(self.k)
        self.guard(st)
        conts = E.memoised(('loopconts', self.label, str(self.k)), lambda: self.conts(st))
        body = self.contbody(st, conts)
        k = self.k
        E.loopcount += 1
        # base case
        for l in self.leaves.values():
            if l.form() is not None:
                E.oblige(self.leafgoal(E.st, l, l.form()(bv(0))), 'loop at %s: invariant of %s holds at entry' % (self.label, self.lname(l)))
        for l, name, f in self.facts:
            if l.pick == 0 and l.form() is not None: E.oblige(f(bv(0)), 'loop at %s: %s of %s at entry' % (self.label, name, self.lname(l)))
        # from here on: the state at the head of iteration k
        E.st.cells = dict(st.cells); E.st.pc = list(st.pc)
        E.st.terms += [k, simp(k - 1)]
        prefix = QFact(lambda j: z3.Implies(z3.ULT(j, k), z3.substitute(body, (k, j))), 'prefix')
        E.st.qf.append(prefix)
        n0 = len(E.st.log)
        saveidx = E.st.idx
        # termination
        t = z3.Implies(body, z3.ULT(k, bv(KMAX - 1)))
        E.st.terms += [bv(65535), bv(255)]
        E.oblige(t, 'loop at %s: it ends' % self.label)
        try:
            E.st.idx = saveidx + (k,)
            self.once()
        except (LoopDone, BrkX):
            E.st.idx = saveidx
            self.events(conts, n0)
            return
        except (RetX, ThrowX):
            E.st.idx = saveidx
            self.events(conts, n0)
            raise
        # a continuing path: the invariant is preserved
        for l in self.leaves.values():
            if l.form() is not None:
                E.oblige(self.leafgoal(E.st, l, l.form()(simp(k + 1))), 'loop at %s: invariant of %s is preserved' % (self.label, self.lname(l)))
        for l, name, f in self.facts:
            if l.pick == 0 and l.form() is not None: E.oblige(f(simp(k + 1)), 'loop at %s: %s of %s is preserved' % (self.label, name, self.lname(l)))
        raise Infeasible()

    def events(self, conts, n0):
        """The events of the k iterations before this one, as one event."""
        E = self.E
        logs = [s.log[len(self.base.log):] for s in conts]
        if not any(logs): return
        if len(logs) > 1 and any(len(x) != len(logs[0]) for x in logs): raise Unsupported('loop at %s: events depend on the path' % self.label)
        k = self.k
        if len(logs) > 1: raise Unsupported('loop at %s: events on several paths' % self.label)
        ev = logs[0]
        E.st.log[n0:n0] = [('foreach', k, lambda j: [substev(x, k, j) for x in ev])]

    def lname(self, l):
        for f in reversed(self.base.frames):
            for i, lv in f.vars.items():
                if isinstance(lv, LV) and lv.cell == l.cell and f.fn is not None:
                    for v in varnames(f.fn):
                        if v[0] == i: return v[1] + ''.join('.' + p for p in l.path)
        return '.'.join(l.path) or 'variable'


def varnames(fn):
    if getattr(fn, 'params', None):
        for p in fn.params: yield p['id'], p['n']
    todo = [fn.body]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get('k') == 'Decl':
                for v in x['vars']: yield v['id'], v['n']
            todo += [y for y in x.values() if isinstance(y, (dict, list))]
        elif isinstance(x, list): todo += x


def substev(x, k, j):
    if isz(x): return z3.substitute(x, (k, j))
    if isinstance(x, tuple): return tuple(substev(y, k, j) for y in x)
    if isinstance(x, list): return [substev(y, k, j) for y in x]
    if isinstance(x, LV): return LV(x.cell, tuple((p[0], z3.substitute(p[1], (k, j))) if isinstance(p, tuple) else p for p in x.path))
    if isinstance(x, ShPtr): return ShPtr(substev(x.null, k, j), substev(x.tgt, k, j))
    if isinstance(x, ExtV): return ExtV(x.cls, substev(x.id, k, j))
    if isinstance(x, FnV) and x.kind == 'opaque': return FnV('opaque', id=substev(x.id, k, j), fty=x.fty)
    if isinstance(x, Vec): return Vec(x.ety, substev(x.n, k, j), lambda i: substev(x.at(i), k, j))
    if isinstance(x, Buf): return Buf(substev(x.n, k, j), lambda i: substev(x.at(i), k, j))
    if isinstance(x, V) and not isinstance(x, (MapV, FnV, Opaque)):
        r = x
        for n, p in x.parts(): r = r.with_part(n, substev(p, k, j))
        return r
    return x


def ext(t): return z3.ZeroExt(64 - t.size(), t) if t.size() < 64 else t


def shape(a, b):
    """Raises NoMatch unless the values have the same shape."""
    if isz(a) and isz(b):
        if a.sort() != b.sort(): raise NoMatch()
        return
    if type(a) is not type(b): raise NoMatch()
    if isinstance(a, SV):
        if a.cls != b.cls: raise NoMatch()
    if isinstance(a, V):
        for (n, x), (m, y) in zip(a.parts(), b.parts()): shape(x, y)


def install():
    def read_in(E, st, lv):
        old, E.st = E.st, st
        try: return E.read(lv)
        finally: E.st = old
    Interp.read_in = read_in

    def loop(E, s, once, most=UNROLL):
        label = 'line %s' % s.get('l')
        h = getattr(E, 'loophook', None)
        if h is not None and h(E, s, once): return
        its = [c for c, v in E.st.cells.items() if isinstance(v, ItV) and v.kind == 'ubegin']
        if its:
            vs = [v.cell for v in E.st.frames[-1].vars.values() if isinstance(v, LV) and v.cell in its and not v.path] if E.st.frames else []
            return E.unordered_loop(label, LV((vs or its)[-1]), once)
        # few iterations: executed as they are
        key = ('unroll', id(s))
        if E.unrollable.get(key, True):
            def test():
                def go():
                    for _ in range(most):
                        try: once()
                        except (LoopDone, BrkX): return
                    raise TooDeep()
                E.trial += 1
                try:
                    E.explore(go, E.st.copy(), maxpaths=120)
                    return True
                except TooDeep: return False
                except Unsupported as x:
                    if 'too many paths' in str(x): return False
                    raise
                finally: E.trial -= 1
            ok = E.memoised(key, test)
            E.unrollable[key] = ok
            if ok:
                for _ in range(most + 1):
                    try: once()
                    except (LoopDone, BrkX): return
                raise Unsupported('loop at %s: unexpected iteration' % label)
        Loop(E, once, label).run()
    Interp.loop = loop
    Interp.unrollable = {}

    def once_of(E, s, cond, body, inc):
        def once():
            if cond is not None and not E.branch(cond()): raise LoopDone()
            try: E.ex(body)
            except ContX: pass
            if inc is not None: inc()
        return once

    def ex_While(E, s):
        if s.get('var'): raise Unsupported('declaration in a condition')
        E.loop(s, once_of(E, s, lambda: E.cond(s['c']), s['b'], None))
    def ex_Do(E, s):
        try: E.ex(s['b'])
        except ContX: pass
        except BrkX: return
        E.loop(s, once_of(E, s, lambda: E.cond(s['c']), s['b'], None))
    def ex_For(E, s):
        def go():
            if s.get('init'): E.ex(s['init'])
            E.loop(s, once_of(E, s, (lambda: E.cond(s['c'])) if s['c'] else None, s['b'], (lambda: E.discard(s['inc'])) if s['inc'] else None))
        E.scoped(go)
    def ex_RangeFor(E, s):
        rlv = E.glv(s['range']) if s['range']['vk'] in ('l', 'x') else E.alloc(E.rv(s['range']))
        v = E.read(rlv)
        var = s['var']
        if isinstance(v, Vec):
            it = E.alloc(bv(0))
            def once():
                i = E.read(it)
                n = E.read(rlv).n
                if not E.branch(z3.ULT(i, n)): raise LoopDone()
                el = rlv.sub(('i', i))
                t = var['t']
                def go():
                    fr = E.st.frames[-1]
                    if t.k == 'ref': fr.vars[var['id']] = el
                    else:
                        x = E.read(el)
                        from .lib import BitRef
                        fr.vars[var['id']] = E.alloc(BitRef(el) if t.k == 'rec' and t.base == 'std::_Bit_reference' else x)
                    E.ex(s['b'])
                try: E.scoped(go)
                except ContX: pass
                E.write(it, simp(i + 1))
            c = as_int(v.n)
            E.loop(s, once, UNROLL if c is None or c > 64 else c + 1)   # a table is gone through entry by entry
            return
        if isinstance(v, MapV): return E.each_key(s, rlv, v)
        if isinstance(v, Opaque): getattr(v, 'at', None)   # what may not be used here
        raise Unsupported('range-based for over %r' % (v,))
    def each_key(E, s, rlv, m):
        """A range-based for over a map: every key once; only loops whose iterations do nothing but make calls."""
        from .lib import PairRef
        def body(kk):
            fr = E.st.frames[-1]
            p = E.alloc(PairRef(rlv, kk, m.kw))
            var = s['var']; t = var['t']
            if t.k == 'ref': fr.vars[var['id']] = p
            else: fr.vars[var['id']] = E.alloc(E.libtable['copy PairRef'](E, p, t))
            try: E.ex(s['b'])
            except ContX: pass
        E.for_keys('loop at line %s' % s.get('l'), rlv, m, body, None)
    def unordered_loop(E, label, itlv, once):
        """A loop that moves an iterator over an unordered map from its begin: every key once, in an order not known."""
        it = E.read(itlv)
        m = E.read(it.lv)
        def body(kk):
            E.write(itlv, ItV(it.lv, kk, 'map'))
            once()
            new = E.read(itlv)
            if new.kind != 'unext' or not new.key.eq(kk): raise Unsupported('%s over an unordered map: the iterator is not moved by one' % label)
        E.for_keys(label, it.lv, m, body, itlv.cell)
        E.write(itlv, ItV(it.lv, m.END, 'map'))
    def for_keys(E, label, rlv, m, body, moved):
        kk = E.fconst(BV64, 'key')
        k0 = E.st.copy()
        pres = z3.And(z3.ULT(kk, m.END), m.pres(kk))
        E.trial += 1
        try:
            st = E.st.copy(); st.pc.append(pres); st.idx = st.idx + (kk,)
            res = E.explore(lambda: body(kk), st)
        finally: E.trial -= 1
        for kind, _, s2 in res:
            if kind != 'ok': raise Unsupported('%s over a map does not visit all keys' % label)
            for c, v in k0.cells.items():
                if c != moved and diff(v, s2.cells[c]): raise Unsupported('%s over a map changes state' % label)
        if len(res) != 1: raise Unsupported('%s over a map: several paths' % label)
        # obligations of an arbitrary iteration
        saved = E.st.copy()
        E.st.pc.append(pres); E.st.idx = E.st.idx + (kk,)
        body(kk)
        ev = E.st.log[len(saved.log):]
        E.st.cells, E.st.pc, E.st.idx, E.st.frames, E.st.log = saved.cells, saved.pc, saved.idx, saved.frames, saved.log
        if ev: E.st.log.append(('eachkey', rlv.key(), m, lambda j: [substev(x, kk, j) for x in ev]))
    Interp.unordered_loop, Interp.for_keys = unordered_loop, for_keys
    Interp.ex_While, Interp.ex_Do, Interp.ex_For, Interp.ex_RangeFor, Interp.each_key = ex_While, ex_Do, ex_For, ex_RangeFor, each_key


install()
