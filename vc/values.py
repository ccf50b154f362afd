"""Values of the verifier's state model: immutable, compared and merged part by part."""
import z3

BV64 = z3.BitVecSort(64)
StrSort = z3.DeclareSort('Str')
IdSort = z3.DeclareSort('Id')


class Unsupported(Exception):
    """The code uses something outside the verifier's reach: reported, never guessed."""


def bv(v, w=64): return z3.BitVecVal(v, w)
def T(): return z3.BoolVal(True)
def F(): return z3.BoolVal(False)


def isz(v): return isinstance(v, z3.ExprRef)


def simp(e): return z3.simplify(e)


def ctrue(e): return z3.is_true(simp(e))
def cfalse(e): return z3.is_false(simp(e))


def as_int(e):
    """The number a term stands for, or None."""
    e = simp(e)
    return e.as_long() if z3.is_bv_value(e) else None


class V:
    """A structured value: named parts, rebuilt with with_parts."""
    parts_ = ()

    def parts(self): return [(n, getattr(self, n)) for n in self.parts_]

    def with_part(self, n, v):
        o = object.__new__(type(self))
        o.__dict__.update(self.__dict__)
        o.__dict__[n] = v
        return o

    def tag(self): return type(self).__name__


class SV(V):
    """An object of a class: the name of its dynamic class and its fields (those of its bases included)."""
    def __init__(self, cls, f): self.cls, self.f = cls, f
    def parts(self): return list(self.f.items())
    def with_part(self, n, v):
        f = dict(self.f); f[n] = v
        return SV(self.cls, f)
    def tag(self): return 'SV:' + self.cls
    def __repr__(self): return '%s%r' % (self.cls, self.f)


class Vec(V):
    """A sequence (vector, deque, list, array): its length and the element at each index below it."""
    def __init__(self, ety, n, at): self.ety, self.n, self.at = ety, n, at


class Buf(V):
    """The storage of a byte buffer of n bytes."""
    def __init__(self, n, at): self.n, self.at = n, at


class MapV(V):
    """A map: presence and value of each key (as a 64-bit term); END is one above the largest key."""
    def __init__(self, vty, kw, pres, val, name=None, ordered=True, nxt=None):
        self.vty, self.kw, self.pres, self.val, self.name, self.ordered, self.nxt = vty, kw, pres, val, name, ordered, nxt
    @property
    def END(self): return bv(1 << self.kw)


class ItV(V):
    """An iterator: the container it points into and its key or index."""
    parts_ = ('key',)
    def __init__(self, lv, key, kind): self.lv, self.key, self.kind = lv, key, kind
    def tag(self): return 'It' + self.kind


class Rseq(V):
    """A read-only view: bytes off .. off+n-1 of the storage at buf (None: the null view)."""
    parts_ = ('off', 'n')
    def __init__(self, buf, off, n): self.buf, self.off, self.n = buf, off, n


class Wseq(V):
    parts_ = ('off', 'n')
    def __init__(self, buf, off, n): self.buf, self.off, self.n = buf, off, n


class UPtr(V):
    """An owning pointer and, inline, what it owns."""
    parts_ = ('null', 'val')
    def __init__(self, null, val): self.null, self.val = null, val


class ShPtr(V):
    """A shared pointer: null flag and target (a LV, an ExtV or None)."""
    parts_ = ('null', 'tgt')
    def __init__(self, null, tgt): self.null, self.tgt = null, tgt


class WkPtr(V):
    parts_ = ('null', 'tgt')
    def __init__(self, null, tgt): self.null, self.tgt = null, tgt


class Ptr(V):
    """A raw pointer (tgt: LV, ExtV or None) ."""
    parts_ = ('null', 'tgt')
    def __init__(self, null, tgt): self.null, self.tgt = null, tgt


class ExtV(V):
    """An object behind an interface, known by its identity only."""
    parts_ = ('id',)
    def __init__(self, cls, id): self.cls, self.id = cls, id
    def tag(self): return 'ExtV'
    def __repr__(self): return '%s(%s)' % (self.cls, self.id)


class ExcV(V):
    """An exception object: which of the known classes (tag), the exception type if a ModbusException, its identity."""
    parts_ = ('tagv', 'mtype', 'id')
    def __init__(self, tagv, mtype, id): self.tagv, self.mtype, self.id = tagv, mtype, id


class ExpV(V):
    """An Expected: valid flag, value, exception."""
    parts_ = ('valid', 'val', 'exc')
    def __init__(self, vty, valid, val, exc): self.vty, self.valid, self.val, self.exc = vty, valid, val, exc


class StrV(V):
    """A string, as an uninterpreted term."""
    parts_ = ('s',)
    def __init__(self, s): self.s = s


class FnV(V):
    """A callable. kind: 'lambda' (node, captures), 'opaque' (identity), 'spec' (python function), 'bind', 'null', 'wrap'."""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)
    def tag(self): return 'Fn:' + self.kind


class TimerV(V):
    """A handle on a timer: null, or the identity of the timer."""
    parts_ = ('null', 'id')
    def __init__(self, null, id): self.null, self.id = null, id


class MutexV(V):
    parts_ = ('held',)
    def __init__(self, held): self.held = held


class Opaque(V):
    """A value the properties do not talk about."""
    def __init__(self, desc, **kw):
        self.desc = desc
        self.__dict__.update(kw)
    def __repr__(self): return 'Opaque(%s)' % self.desc


class LV:
    """A location: a cell and a path inside it."""
    __slots__ = ('cell', 'path')
    def __init__(self, cell, path=()): self.cell, self.path = cell, tuple(path)
    def sub(self, step): return LV(self.cell, self.path + (step,))
    def __repr__(self): return 'LV(%s,%s)' % (self.cell, self.path)
    def key(self): return (self.cell, tuple(str(p) for p in self.path))


def ite(c, a, b):
    """The value that is a when c holds and b otherwise."""
    if a is b: return a
    if isz(a) and isz(b):
        if a.eq(b): return a
        if ctrue(c): return a
        if cfalse(c): return b
        return z3.If(c, a, b)
    if a is None: return b
    if b is None: return a
    if ctrue(c): return a
    if cfalse(c): return b
    if isinstance(a, LV) and isinstance(b, LV) and a.key() == b.key(): return a
    if type(a) is not type(b): raise Unsupported('merging %r and %r' % (a, b))
    if isinstance(a, Vec):
        aa, bb = a.at, b.at
        return Vec(a.ety, ite(c, a.n, b.n), aa if aa is bb else lambda i: ite(c, aa(i), bb(i)))
    if isinstance(a, Buf):
        aa, bb = a.at, b.at
        return Buf(ite(c, a.n, b.n), aa if aa is bb else lambda i: ite(c, aa(i), bb(i)))
    if isinstance(a, MapV):
        r = MapV(a.vty, a.kw, (lambda k: ite(c, a.pres(k), b.pres(k))) if a.pres is not b.pres else a.pres,
                 (lambda k: ite(c, a.val(k), b.val(k))) if a.val is not b.val else a.val, None, a.ordered)
        if a.pres is b.pres: r.name, r.nxt = a.name, a.nxt
        return r
    if isinstance(a, (Rseq, Wseq)):
        if (a.buf is None) != (b.buf is None) or (a.buf is not None and a.buf.key() != b.buf.key()):
            raise Unsupported('merging views of different buffers')
    if isinstance(a, FnV) and a.kind == b.kind == 'opaque': return FnV('opaque', id=ite(c, a.id, b.id), fty=a.fty or b.fty)
    if isinstance(a, FnV) and a.kind == b.kind == 'null': return a
    if isinstance(a, (FnV, Opaque)): raise Unsupported('merging %r' % a.tag())
    if isinstance(a, SV) and (a.cls != b.cls or set(a.f) != set(b.f)): raise Unsupported('merging %s and %s' % (a.cls, b.cls))
    r = a
    for (n, x), (m, y) in zip(a.parts(), b.parts()):
        r = r.with_part(n, ite(c, x, b.f[n] if isinstance(a, SV) else y))
    return r
