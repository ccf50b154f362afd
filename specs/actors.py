"""Objects driven by events: what they do is compared kind by kind with what the specification says, and the actions they
hand to an executor are run, by the proof, in an arbitrary later state."""
from .common import *
from vc.verify import outcome


class Ev:
    """The events a specification calls for, by kind. An expected argument may be a function (E, found, label) that judges it."""
    def __init__(self): self.by = {}
    def add(self, kind, *args): self.by.setdefault(kind, []).append(args)
    def each(self, kind, n, fn): self.by.setdefault(kind, []).append(('each', n, fn))
    def cover(self, kind, n, fn, index): self.by.setdefault(kind, []).append(('cover', n, fn, index))


def flat(log):
    """The log as (kind, args); a foreach over one kind of event becomes an entry of that kind."""
    out = []
    for e in log:
        if e[0] == 'foreach':
            probe = e[2](z3.Const('probe!', BV64))
            if len(probe) != 1: raise Unsupported('a loop with several effects')
            out.append((probe[0][0], ('each', e[1], lambda j, e=e: e[2](j)[0][1:])))
        elif e[0] == 'eachkey':
            probe = e[3](z3.Const('probe!', BV64))
            if len(probe) != 1: raise Unsupported('a loop with several effects')
            out.append((probe[0][0], ('eachkey', e[1], e[2], lambda j, e=e: e[3](j)[0][1:])))
        else: out.append((e[0], e[1:]))
    return out


QUIET = {'lock', 'unlock', 'logclone', 'table', 'destroy'}


def same_arg(E, x, y, label):
    if callable(x) and not isinstance(x, V): return x(E, y, label)
    if isinstance(x, str) or isinstance(y, str):
        if x != y: E.oblige(F(), '%s: %s instead of %s' % (label, y, x))
        return
    E.prove_eq(x, y, label)


def compare(E, want, log, label, ignore=()):
    """Every kind of event as often, and with those arguments; the order of single ones of a kind matters, that of loops does not."""
    got = {}
    for k, a in flat(log):
        if k in QUIET or k in ignore: continue
        if each(a) and a[0] == 'each' and E.valid(a[1] == 0): continue
        if each(a) and a[0] == 'each' and E.valid(a[1] == 1): a = a[2](bv(0))
        got.setdefault(k, []).append(a)
    for k in sorted(set(want.by) | set(got)):
        w, g = want.by.get(k, []), got.get(k, [])
        lab = '%s: %s' % (label, NAMES.get(k, k))
        if any(x and isinstance(x[0], str) and x[0] == 'cover' for x in w):
            if len(w) != 1: raise Unsupported('specification: cover and others')
            cover(E, w[0], g, lab); continue
        w1, w2 = [x for x in w if not each(x)], [x for x in w if each(x)]
        g1, g2 = [x for x in g if not each(x)], [x for x in g if each(x)]
        w2 = [x for x in w2 if not (x[0] == 'each' and E.valid(x[1] == 0))]
        if len(w1) != len(g1): E.oblige(F(), '%s: %d times instead of %d' % (lab, len(g1), len(w1)))
        else:
            for x, y in zip(w1, g1): same_args(E, x, y, lab)
        if len(w2) != len(g2): E.oblige(F(), '%s for each: %d loops instead of %d' % (lab, len(g2), len(w2))); continue
        for x, y in zip(w2, g2):
            if x[0] != y[0]: E.oblige(F(), lab + ': other loop'); continue
            pc = list(E.st.pc)
            if x[0] == 'each':
                E.oblige(x[1] == y[1], lab + ' for each: how many')
                j = skolem(E, 'it'); pc = list(E.st.pc); E.st.pc.append(z3.ULT(j, x[1])); fx, fy = x[2](j), y[2](j)
            else:
                j = skolem(E, 'key')
                E.oblige(z3.Implies(z3.ULT(j, y[2].END), x[2].pres(j) == y[2].pres(j)), lab + ' for each: which')
                pc = list(E.st.pc)
                E.st.pc += [z3.ULT(j, x[2].END), x[2].pres(j)]; fx, fy = x[3](j), y[3](j)
            same_args(E, fx, fy, lab + ' for each')
            E.st.pc = pc


def same_args(E, x, y, lab):
    if len(x) != len(y): E.oblige(F(), lab + ': other arguments'); return
    for p, q in zip(x, y): same_arg(E, p, q, lab)


def cover(E, w, got, lab):
    """For every index below n the event exactly once, in any order, whether one by one or in loops."""
    _, n, fn, index = w
    parts = []   # (first index, how many)
    for a in got:
        if each(a):
            if a[0] != 'each': E.oblige(F(), lab + ': in a loop over keys'); return
            t0 = index(E, a[2](bv(0)), n)
            j = skolem(E, 'it'); pc = list(E.st.pc); E.st.pc.append(z3.ULT(j, a[1]))
            args = a[2](j)
            t = index(E, args, n)
            if t is None or t0 is None: E.oblige(F(), lab + ': for something else'); return
            up = E.valid(t == t0 + j)
            if not up: E.oblige(t == t0 - j, lab + ': step by step')
            same_args(E, fn(t), args, lab)
            E.st.pc = pc
            lo = simp(t0 if up else t0 - a[1] + 1)
            E.oblige(z3.And(z3.ULE(lo, n), z3.ULE(a[1], n - lo)), lab + ': for one of those')
            parts.append((lo, a[1]))
        else:
            t = index(E, a, n)
            if t is None: E.oblige(F(), lab + ': for something else'); return
            E.oblige(z3.ULT(t, n), lab + ': for one of those')
            same_args(E, fn(t), a, lab)
            parts.append((t, bv(1)))
    i = skolem(E, 'ix')
    times = sum((z3.If(z3.And(z3.ULE(lo, i), z3.ULT(i - lo, k)), bv(1), bv(0)) for lo, k in parts), bv(0))
    E.oblige(z3.Implies(z3.ULT(i, n), times == 1), lab + ': once for each')


def by_id(fn, pick=lambda a: a[0]):
    """The index of an event whose argument is an identity given by the function fn of the index."""
    def index(E, args, n):
        t = pick(args)
        t = simp(getattr(t, 'id', t))
        if z3.is_app(t) and t.decl().eq(fn): return t.arg(0)
        for c in (bv(0), bv(1), simp(n - 1)):
            if E.valid(t == fn(c)): return c
        return None
    return index


def each(a): return len(a) > 0 and isinstance(a[0], str) and a[0] in ('each', 'eachkey')
NAMES = {}


def frame(E, before, label, but):
    """Nothing is changed but the objects named (cells, or (cell, field))."""
    for c, v in before.items():
        if c in but or E.st.cells[c] is v: continue
        fs = {f for x in but if isinstance(x, tuple) and x[0] == c for f in [x[1]]}
        w = E.st.cells[c]
        if fs and isinstance(v, SV) and isinstance(w, SV):
            if set(v.f) != set(w.f): E.oblige(F(), label + ': other fields'); continue
            for n in v.f:
                if n not in fs and v.f[n] is not w.f[n]: E.prove_eq(v.f[n], w.f[n], '%s: %s stays' % (label, n))
            continue
        E.prove_eq(v, w, label + ': nothing else changes')


def later(E, fn, prepare, run, label):
    """The action fn, run in an arbitrary later state: prepare() sets that state up, run(call) judges the effect of call()."""
    if not isinstance(fn, FnV): E.oblige(F(), label + ': an action'); return
    self_contained(E, fn, label)
    E.laters.setdefault(label, False)
    saved = E.st.copy()
    try:
        E.st.log = []
        ctx = prepare()
        run(ctx, lambda *a: E.callfn(fn, list(a)))
        if not E.laters.get(label):
            # the later state is possible: what was shown there is not vacuous
            r, _ = E.smt(E.st.pc, level=1, timeout=2000)
            if r == z3.sat: E.laters[label] = True
    finally:
        E.st = saved


def self_contained(E, fn, label):
    """What the action refers to lives as long as the action: it owns the objects behind its references, or holds copies."""
    strong, refs = set(), []
    def walk(v, what, d=0):
        if d > 12: raise Unsupported('captures nested too deep')
        if isinstance(v, FnV):
            if v.kind == 'lambda':
                if v.this is not None: refs.append((v.this.cell, 'the object'))
                names = capture_names(v)
                for i, (k, x) in v.caps.items():
                    if k == 'ref': refs.append((x.cell, names.get(i, 'a variable')))
                    else: walk(x, names.get(i, 'a copy'), d + 1)
            elif v.kind == 'bind':
                for x in (v.f,) + tuple(v.args): walk(x, 'a bound argument', d + 1)
            elif v.kind == 'wrap': walk(v.inner, what, d + 1)
        elif isinstance(v, ShPtr):
            if isinstance(v.tgt, LV): strong.add(v.tgt.cell)
        elif isinstance(v, Ptr):
            if isinstance(v.tgt, LV) and not ctrue(v.null): refs.append((v.tgt.cell, what))
        elif isinstance(v, (Rseq, Wseq)):
            if v.buf is not None: refs.append((v.buf.cell, what))
        elif isinstance(v, LV): refs.append((v.cell, what))
        elif isinstance(v, V) and not isinstance(v, (WkPtr, MapV, Vec, Buf, Opaque)):
            for n, x in v.parts(): walk(x, what, d + 1)
    walk(fn, 'the action')
    for c, what in refs:
        if c not in strong: E.oblige(F(), '%s: %s it refers to may be gone' % (label, what))
    return strong


def capture_names(v):
    out = {}
    for c in v.node['caps']:
        if c.get('id') is not None and c.get('n'): out[c['id']] = c['n']
    return out


def noexcept(E, call, label):
    k, v = outcome(E, call)
    if k == 'throw': E.oblige(F(), label + ': throws')
    return v


def ident_of(p):
    """The identity of what a pointer refers to."""
    t = p.tgt if not isinstance(p, (ExtV, LV)) else p
    return t
