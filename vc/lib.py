"""Trusted contracts of the library functions /repo uses (std, ser4cpp, exe4cpp, asio, the logger)."""
import z3
from .values import *
from .engine import *
from .interp import Interp, stripq

L = Interp.libtable


def lib(*names):
    def d(fn):
        for n in names: L[n] = fn
        return fn
    return d


def val(E, a): return E.read(a) if isinstance(a, LV) else a


# ---------------------------------------------------------------- utilities
@lib('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref')
def _(E, f, this, a, e): return a[0]

@lib('std::addressof')
def _(E, f, this, a, e): return Ptr(F(), a[0])

@lib('std::swap')
def _(E, f, this, a, e):
    x, y = E.read(a[0]), E.read(a[1])
    E.write(a[0], y); E.write(a[1], x)

def _minmax(name):
    def h(E, f, this, a, e):
        if len(a) != 2: raise Unsupported(name)
        x, y = val(E, a[0]), val(E, a[1])
        t = f.ps[0].to if f.ps[0].k == 'ref' else f.ps[0]
        c = E.compare('<', y, x, t) if name == 'min' else E.compare('<', x, y, t)
        return ite(c, y, x)
    L['std::' + name] = h
_minmax('min'); _minmax('max')

@lib('std::thread::hardware_concurrency')
def _(E, f, this, a, e): return E.fconst(z3.BitVecSort(32), 'hwconc')


# ---------------------------------------------------------------- vector, deque, list, array
SEQ = ('std::vector', 'std::deque', 'std::list', 'std::array')

def forall(cs, names, fn):
    for c in cs:
        for n in names: L[c + '::' + n] = fn

def veq(E, this):
    v = E.read(this)
    if isinstance(v, Opaque): getattr(v, 'at', None)   # what may not be used here
    return v

def _swapv(E, f, this, a, e):
    x, y = E.read(this), E.read(a[0])
    E.write(this, y); E.write(a[0], x)
forall(SEQ + ('std::map', 'std::unordered_map', 'std::shared_ptr', 'std::unique_ptr', 'std::basic_string'), ['swap'], _swapv)

def _size(E, f, this, a, e): return veq(E, this).n
forall(SEQ, ['size', 'length'], _size)
def _empty(E, f, this, a, e): return veq(E, this).n == bv(0)
forall(SEQ, ['empty'], _empty)

def _index(E, f, this, a, e):
    v = veq(E, this); i = val(E, a[0])
    E.oblige(z3.ULT(i, v.n), 'index in bounds')
    return elem_ref(E, this, i, f.ret)
forall(SEQ, ['operator[]', 'at'], _index)

def elem_ref(E, lv, i, rt):
    if rt is not None and rt.k == 'rec' and rt.base == 'std::_Bit_reference': return BitRef(lv.sub(('i', i)))
    r = lv.sub(('i', i))
    if rt is not None and rt.k != 'ref': return E.read(r)
    return r

class BitRef(V):
    parts_ = ()
    def __init__(self, lv): self.lv = lv

@lib('std::_Bit_reference::operator bool')
def _(E, f, this, a, e): return E.read(E.read(this).lv)
@lib('std::_Bit_reference::operator=')
def _(E, f, this, a, e):
    v = val(E, a[0])
    if isinstance(v, BitRef): v = E.read(v.lv)
    E.write(E.read(this).lv, v)
    return this

def _front(E, f, this, a, e):
    E.oblige(veq(E, this).n != bv(0), 'front of a non-empty container')
    return elem_ref(E, this, bv(0), f.ret)
forall(SEQ, ['front'], _front)
def _back(E, f, this, a, e):
    v = veq(E, this)
    E.oblige(v.n != bv(0), 'back of a non-empty container')
    return elem_ref(E, this, simp(v.n - 1), f.ret)
forall(SEQ, ['back'], _back)

def append(E, this, x):
    v = veq(E, this)
    n, at = v.n, v.at
    E.write(this, Vec(v.ety, simp(n + 1), lambda i: ite(i == n, x, at(i))))

def moved_args(E, f, a, ps=None, skip=()):
    """The arguments given up with std::move have been moved from."""
    for i, (x, p) in enumerate(zip(a, ps or f.ps)):
        if i not in skip and isinstance(x, LV) and p.k == 'ref' and p.rv and x.cell in E.st.cells: E.moved(x, p.to)

def _push(E, f, this, a, e):
    x = val(E, a[0])
    if isinstance(x, BitRef): x = E.read(x.lv)
    if f.ps[0].k == 'ref' and f.ps[0].rv and isinstance(a[0], LV):
        append(E, this, x); E.moved(a[0], f.ps[0].to); return
    append(E, this, x)
forall(SEQ, ['push_back'], _push)

def _emplace(E, f, this, a, e):
    v = veq(E, this)
    x = convert_to(E, v.ety, a, f.ps)
    if len(a) == 1: moved_args(E, f, a)
    append(E, this, x)
    if f.ret is not None and f.ret.k == 'ref': return this.sub(('i', simp(v.n)))
forall(SEQ, ['emplace_back'], _emplace)

def convert_to(E, ety, a, ps):
    """An element built from the arguments of emplace."""
    if len(a) == 1:
        x = val(E, a[0])
        if isinstance(x, BitRef): x = E.read(x.lv)
        t = ps[0].to if ps and ps[0].k == 'ref' else (ps[0] if ps else None)
        if ety.k in ('bool', 'int') and isz(x): return E.conv(x, t, ety) if t is not None and t.k in ('int', 'bool', 'enum') else x
        if isinstance(x, UPtr) and ety.base == 'std::unique_ptr':
            return x
        if isinstance(x, ShPtr) and ety.base == 'std::shared_ptr': return x
        if isinstance(x, Ptr) and ety.base == 'std::unique_ptr': return toowner(E, x)
        if isinstance(x, (Ptr, UPtr)) and ety.base == 'std::shared_ptr': return toshared(E, x)
        if isinstance(x, SV) and t is not None and (t.n == ety.n): return x
        if isinstance(x, type(x)) and t is not None and t.s == ety.s: return x
    if ety.k == 'rec' and ety.n in E.prog.records:
        for g in E.prog.funcs.values():
            if g.ctor == 'other' and g.cls is not None and g.cls.n == ety.n and len(g.ps) == len(a):
                lv = E.alloc(None); E.ctor(g, ety, lv, a); return E.read(lv)
    raise Unsupported('emplace of %s' % ety.s)

def _popf(E, f, this, a, e):
    v = veq(E, this); at = v.at
    E.oblige(v.n != bv(0), 'pop of a non-empty container')
    E.write(this, Vec(v.ety, simp(v.n - 1), lambda i: at(simp(i + 1))))
forall(SEQ, ['pop_front'], _popf)
def _popb(E, f, this, a, e):
    v = veq(E, this)
    E.oblige(v.n != bv(0), 'pop of a non-empty container')
    E.write(this, Vec(v.ety, simp(v.n - 1), v.at))
forall(SEQ, ['pop_back'], _popb)
def _clear(E, f, this, a, e):
    v = veq(E, this)
    E.write(this, Vec(v.ety, bv(0), v.at))
forall(SEQ, ['clear'], _clear)
forall(SEQ, ['reserve', 'shrink_to_fit'], lambda E, f, this, a, e: None)
def _resize(E, f, this, a, e):
    v = veq(E, this); at, n0 = v.at, v.n
    n = val(E, a[0])
    x = val(E, a[1]) if len(a) > 1 else E.default(v.ety, True)
    E.write(this, Vec(v.ety, n, lambda i: ite(z3.ULT(i, n0), at(i), x)))
forall(SEQ, ['resize'], _resize)
forall(SEQ, ['begin', 'cbegin'], lambda E, f, this, a, e: ItV(this, bv(0), 'seq'))
forall(SEQ, ['end', 'cend'], lambda E, f, this, a, e: ItV(this, E.read(this).n, 'seq'))
forall(SEQ, ['data'], lambda E, f, this, a, e: Ptr(F(), this.sub(('i', bv(0)))))
forall(SEQ, ['operator='], lambda E, f, this, a, e: assign(E, f, this, a))

def _assignn(E, f, this, a, e):
    if len(a) != 2: raise Unsupported('assign')
    x, y = val(E, a[0]), val(E, a[1])
    v = E.read(this)
    if isz(x):
        E.write(this, Vec(v.ety, x, lambda i: y)); return
    raise Unsupported('assign of a range')
forall(SEQ, ['assign'], _assignn)

def assign(E, f, this, a):
    if isinstance(E.read(this), BitRef): return L['std::_Bit_reference::operator='](E, f, this, a, None)
    x = val(E, a[0])
    E.write(this, x)
    if f.assign == 'move' and isinstance(a[0], LV): E.moved(a[0], f.cls)
    return this

def _vecctor(E, f, t, a, e, lv):
    ety = t.ta[0]
    ps = f.ps
    if f.ctor == 'default' or not ps: return E.default(t)
    p0 = ps[0].to if ps[0].k == 'ref' else ps[0]
    if p0.k == 'int':
        n = val(E, a[0])
        if len(ps) >= 2 and not (ps[1].k == 'ref' and ps[1].to.base == 'std::allocator'):
            x = val(E, a[1])
        else: x = E.default(ety, True)
        return Vec(ety, n, lambda i: x)
    if p0.k == 'rec' and p0.base == 'std::initializer_list': return val(E, a[0])
    if p0.k == 'rec' and p0.base in SEQ: return val(E, a[0])
    x, y = val(E, a[0]), val(E, a[1])
    if isinstance(x, ItV) and isinstance(y, ItV) and x.kind == 'seq' and x.lv.key() == y.lv.key():
        src = E.read(x.lv); k = x.key
        E.oblige(z3.And(z3.ULE(x.key, y.key), z3.ULE(y.key, src.n)), 'valid iterator range')
        return Vec(ety, simp(y.key - k), lambda i: src.at(simp(i + k)))
    raise Unsupported('constructor %s' % f.q)
for c in SEQ: L['ctor ' + c] = _vecctor

def _erase(E, f, this, a, e):
    v = E.read(this); it = val(E, a[0])
    if len(a) != 1: raise Unsupported('erase of a range')
    k = it.key; at = v.at
    E.oblige(z3.ULT(k, v.n), 'erased iterator can be dereferenced')
    E.write(this, Vec(v.ety, simp(v.n - 1), lambda i: ite(z3.ULT(i, k), at(i), at(simp(i + 1)))))
    return ItV(this, k, 'seq')
forall(('std::vector', 'std::deque', 'std::list'), ['erase'], _erase)


# ---------------------------------------------------------------- iterators
ITERS = ('__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Bit_iterator', 'std::_Bit_const_iterator',
         'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base')

def _itctor(E, f, t, a, e, lv): return val(E, a[0]) if a else ItV(None, bv(0), 'seq')
for c in ITERS: L['ctor ' + c] = _itctor

class PairRef(V):
    """What a map iterator designates: the pair (key, value)."""
    def __init__(self, lv, key, kw): self.lv, self.key, self.kw = lv, key, kw

def itderef(E, it):
    if it.lv is None: raise Unsupported('dereference of a singular iterator')
    if it.kind not in ('map', 'seq'): raise Unsupported('dereference of an iterator of an unordered map')
    if it.kind == 'map':
        m = E.read(it.lv)
        E.oblige(z3.And(z3.ULT(it.key, m.END), m.pres(it.key)), 'dereferenced iterator is not end')
        return E.alloc(PairRef(it.lv, it.key, m.kw))
    v = E.read(it.lv)
    E.oblige(z3.ULT(it.key, v.n), 'dereferenced iterator is in range')
    return it.lv.sub(('i', it.key))

def _star(E, f, this, a, e):
    r = itderef(E, E.read(this) if this is not None else val(E, a[0]))
    if f.ret.k == 'rec' and f.ret.base == 'std::_Bit_reference': return BitRef(r)
    return r
def _arrow(E, f, this, a, e): return Ptr(F(), itderef(E, E.read(this) if this is not None else val(E, a[0])))
def _inc(E, f, this, a, e):
    it = E.read(this)
    new = advanced(E, it)
    if a:
        E.write(this, new); return it
    E.write(this, new)
    return this
def advanced(E, it):
    if it.kind == 'map' and not E.read(it.lv).ordered:
        m = E.read(it.lv)
        E.oblige(z3.And(z3.ULT(it.key, m.END), m.pres(it.key)), 'incremented iterator is not end')
        return ItV(it.lv, it.key, 'unext')
    return it.with_part('key', nextkey(E, it))
def nextkey(E, it):
    if it.kind not in ('map', 'seq'): raise Unsupported('iteration over an unordered map')
    if it.kind == 'map':
        m = E.read(it.lv)
        E.oblige(z3.And(z3.ULT(it.key, m.END), m.pres(it.key)), 'incremented iterator is not end')
        return map_next(E, m, it.key)
    v = E.read(it.lv)
    E.oblige(z3.ULT(it.key, v.n), 'incremented iterator is not end')
    return simp(it.key + 1)
def map_next(E, m, k):
    if not m.ordered: raise Unsupported('iteration over an unordered map')
    E.regmap(m)
    return m.nxt(k)
def _dec(E, f, this, a, e):
    it = E.read(this)
    if it.kind == 'map': raise Unsupported('decrement of a map iterator')
    E.oblige(it.key != bv(0), 'decremented iterator is not begin')
    E.write(this, it.with_part('key', simp(it.key - 1)))
    return it if a else this
def _plus(E, f, this, a, e):
    it = E.read(this) if this is not None else val(E, a[0])
    d = val(E, a[0] if this is not None else a[1])
    if it.kind != 'seq': raise Unsupported('iterator arithmetic')
    return it.with_part('key', simp(it.key + d))
def _minus(E, f, this, a, e):
    x, y = (E.read(this), val(E, a[0])) if this is not None else (val(E, a[0]), val(E, a[1]))
    if isinstance(y, ItV): return simp(x.key - y.key)
    return x.with_part('key', simp(x.key - y))
def _peq(E, f, this, a, e):
    it = E.read(this); E.write(this, it.with_part('key', simp(it.key + val(E, a[0])))); return this
for c in ITERS:
    L[c + '::operator*'] = _star
    L[c + '::operator->'] = _arrow
    L[c + '::operator++'] = _inc
    L[c + '::operator--'] = _dec
    L[c + '::operator+'] = _plus
    L[c + '::operator-'] = _minus
    L[c + '::operator+='] = _peq
    L[c + '::operator='] = lambda E, f, this, a, e: assign(E, f, this, a)
    def _m(neg):
        def h(E, f, this, a, e):
            r = iteq(E, E.read(this), val(E, a[0]))
            return z3.Not(r) if neg else r
        return h
    L[c + '::operator=='] = _m(False); L[c + '::operator!='] = _m(True)

L['std::next'] = lambda E, f, this, a, e: (lambda it: it.with_part('key', nextkey(E, it)))(val(E, a[0])) if len(a) == 1 else _nextn(E, a)
def _nextn(E, a):
    it = val(E, a[0]); n = val(E, a[1])
    if it.kind == 'seq': return it.with_part('key', simp(it.key + n))
    k = as_int(n)
    if k is None or not 0 <= k <= 4: raise Unsupported('std::next')
    for _ in range(k): it = it.with_part('key', nextkey(E, it))
    return it

def iteq(E, x, y):
    if isinstance(x, ItV) and isinstance(y, ItV):
        if x.lv is None or y.lv is None: return z3.BoolVal(x.lv is y.lv)
        if x.kind not in ('map', 'seq') or y.kind not in ('map', 'seq'): raise Unsupported('comparing iterators of an unordered map')
        if x.lv.key() != y.lv.key(): raise Unsupported('comparing iterators of different containers')
        return x.key == y.key
    raise Unsupported('iterator comparison')

def _opeq(neg):
    def h(E, f, this, a, e):
        x = E.read(this) if this is not None else val(E, a[0])
        y = val(E, a[0] if this is not None else a[1])
        r = geneq(E, x, y, f)
        return z3.Not(r) if neg else r
    return h
def geneq(E, x, y, f):
    if isinstance(x, ItV): return iteq(E, x, y)
    if isinstance(x, StrV) and isinstance(y, StrV): return x.s == y.s
    if isinstance(x, (ShPtr, UPtr, Ptr)) or isinstance(y, (ShPtr, UPtr, Ptr)):
        if not hasattr(y, 'null'): y = Ptr(T(), None)
        if not hasattr(x, 'null'): x = Ptr(T(), None)
        return E.ptreq(x, y)
    if isinstance(x, FnV): return z3.BoolVal(x.kind == 'null')
    if isz(x) and isz(y): return x == y
    if isinstance(x, Opaque) and x.desc == 'error_code': return x.eq(y)
    if isinstance(x, BitRef) or isinstance(y, BitRef):
        return (E.read(x.lv) if isinstance(x, BitRef) else x) == (E.read(y.lv) if isinstance(y, BitRef) else y)
    if isinstance(x, ExcV) and isinstance(y, Ptr): return F()
    if isinstance(x, (SV, Tie)) and isinstance(y, (SV, Tie)):
        xs, ys = members(E, x), members(E, y)
        if xs is not None and ys is not None and len(xs) == len(ys): return z3.And([geneq(E, p, q, f) for p, q in zip(xs, ys)])
    raise Unsupported('comparison %s' % f.q)
def members(E, v):
    """The members of a pair or tuple, in order (none for another class, which has a comparison of its own)."""
    if isinstance(v, Tie): return [E.read(l) for l in v.lvs]
    if v.cls not in ('std::pair', 'std::tuple'): return None
    return [v.f[k] for k in (('first', 'second') if v.cls == 'std::pair' else sorted(v.f, key=int))]
class Tie(V):
    """std::tie: references to the objects given."""
    parts_ = ()
    def __init__(self, lvs): self.lvs = lvs
L['std::tie'] = lambda E, f, this, a, e: Tie(tuple(a))
L['std::forward_as_tuple'] = L['std::tie']
L['std::make_tuple'] = lambda E, f, this, a, e: SV('std::tuple', {str(i): val(E, x) for i, x in enumerate(a)})
for n in ('std::operator==', 'std::__detail::operator==', 'std::rel_ops::operator==', '__gnu_cxx::operator=='): L[n] = _opeq(False)
for n in ('std::operator!=', 'std::__detail::operator!=', '__gnu_cxx::operator!='): L[n] = _opeq(True)


# ---------------------------------------------------------------- map, unordered_map
MAPS = ('std::map', 'std::unordered_map')
def mkey(E, a): return E.key64(val(E, a))

def _find(E, f, this, a, e):
    m = E.read(this); k = mkey(E, a[0])
    return ItV(this, simp(z3.If(m.pres(k), k, m.END)), 'map')
forall(MAPS, ['find'], _find)
forall(MAPS, ['end', 'cend'], lambda E, f, this, a, e: ItV(this, E.read(this).END, 'map'))
def _begin(E, f, this, a, e):
    m = E.read(this)
    if not m.ordered: return ItV(this, bv(-1), 'ubegin')
    return ItV(this, map_next(E, m, bv(-1)), 'map')
forall(MAPS, ['begin', 'cbegin'], _begin)
def _count(E, f, this, a, e):
    m = E.read(this)
    return z3.If(m.pres(mkey(E, a[0])), bv(1), bv(0))
forall(MAPS, ['count'], _count)
forall(MAPS, ['contains'], lambda E, f, this, a, e: E.read(this).pres(mkey(E, a[0])))
def _lower(E, f, this, a, e):
    m = E.read(this); k = mkey(E, a[0])
    return ItV(this, z3.If(m.pres(k), k, map_next(E, m, k)), 'map')
forall(('std::map',), ['lower_bound'], _lower)
def mapempty(E, m): return E.holds_for_all(bv(0) + m.END, lambda j: z3.Not(m.pres(j)), 'empty')
forall(MAPS, ['empty'], lambda E, f, this, a, e: z3.BoolVal(mapempty(E, E.read(this))))
def _mapsize(E, f, this, a, e):
    if mapempty(E, E.read(this)): return bv(0)
    n = E.fconst(BV64, 'size')
    E.assume(z3.And(n != 0, z3.ULE(n, bv(1 << 33))))
    return n
forall(MAPS, ['size'], _mapsize)
forall(('std::map',), ['upper_bound'], lambda E, f, this, a, e: ItV(this, map_next(E, E.read(this), mkey(E, a[0])), 'map'))

def mapset(E, this, k, x, always):
    """Insert (always: or assign) k -> x; returns whether k was absent."""
    m = E.read(this)
    had = m.pres(k)
    pres, val_ = m.pres, m.val
    r = MapV(m.vty, m.kw, lambda i: z3.Or(i == k, pres(i)),
             lambda i: ite(i == k, x if always else ite(had, val_(i), x), val_(i)), None, m.ordered)
    E.write(this, r)
    return z3.Not(had)

def _insert(E, f, this, a, e):
    p = val(E, a[0])
    if len(a) != 1 or not isinstance(p, SV): raise Unsupported('map insert')
    k = E.key64(p.f['first'])
    new = mapset(E, this, k, p.f['second'], False)
    moved_args(E, f, a)
    return SV('std::pair', {'first': ItV(this, k, 'map'), 'second': new})
forall(MAPS, ['insert'], _insert)
def _mapemplace(E, f, this, a, e):
    if len(a) != 2: raise Unsupported('map emplace')
    k = mkey(E, a[0])
    m = E.read(this)
    x = val(E, a[1])
    new = mapset(E, this, k, x, False)
    moved_args(E, f, a)
    return SV('std::pair', {'first': ItV(this, k, 'map'), 'second': new})
forall(MAPS, ['emplace', 'try_emplace'], _mapemplace)
def _insassign(E, f, this, a, e):
    k = mkey(E, a[0])
    new = mapset(E, this, k, val(E, a[1]), True)
    moved_args(E, f, a)
    return SV('std::pair', {'first': ItV(this, k, 'map'), 'second': new})
forall(MAPS, ['insert_or_assign'], _insassign)
def _mapindex(E, f, this, a, e):
    k = mkey(E, a[0])
    m = E.read(this)
    if not ctrue(m.pres(k)): mapset(E, this, k, E.default(m.vty, True), False)
    return this.sub(('m', k))
forall(MAPS, ['operator[]'], _mapindex)
def _mapat(E, f, this, a, e):
    k = mkey(E, a[0])
    m = E.read(this)
    if not E.branch(m.pres(k)): raise ThrowX(ExcV(bv(102, 8), E.fconst(z3.BitVecSort(32), 'x'), E.ident('oor')))
    return this.sub(('m', k))
forall(MAPS, ['at'], _mapat)
def _mapclear(E, f, this, a, e):
    m = E.read(this)
    E.write(this, MapV(m.vty, m.kw, lambda i: F(), m.val, None, m.ordered))
forall(MAPS, ['clear'], _mapclear)
def _maperase(E, f, this, a, e):
    m = E.read(this); x = val(E, a[0]); pres = m.pres
    if isinstance(x, ItV):
        E.oblige(pres(x.key), 'erased iterator can be dereferenced'); k = x.key
    else: k = E.key64(x)
    E.write(this, MapV(m.vty, m.kw, lambda i: z3.And(i != k, pres(i)), m.val, None, m.ordered))
    return z3.If(pres(k), bv(1), bv(0)) if not isinstance(x, ItV) else ItV(this, bv(0), 'map')
forall(MAPS, ['erase'], _maperase)
def _mapctor(E, f, t, a, e, lv):
    if not a or f.ctor == 'default': return E.default(t)
    v = val(E, a[0])
    if isinstance(v, MapV) and len(a) == 1: return v
    n = as_int(v.n) if isinstance(v, Vec) else None
    if n is not None and n <= 300:
        # the pairs of a list, the first of a key counts
        m = E.default(t); pres, vals = m.pres, m.val
        for i in reversed(range(n)):
            p = v.at(bv(i)); k = E.key64(p.f['first'])
            pres = (lambda pres, k: lambda j: z3.Or(j == k, pres(j)))(pres, k)
            vals = (lambda vals, k, x: lambda j: ite(j == k, x, vals(j)))(vals, k, p.f['second'])
        return MapV(m.vty, m.kw, pres, vals, None, m.ordered)
    raise Unsupported('map constructor')
for c in MAPS: L['ctor ' + c] = _mapctor

def _watched(h):
    """Map operations are recorded while the locking property is checked."""
    def g(E, f, this, a, e):
        if E.rawaccess is not None and this is not None: E.st.log.append(('table', this.key()))
        return h(E, f, this, a, e)
    return g
for c in MAPS:
    for n_ in list(L):
        if n_.startswith(c + '::'): L[n_] = _watched(L[n_])
for n_ in ('std::less', 'std::equal_to'): L['default ' + n_] = lambda E, t: Opaque('comparison')
L['default std::allocator'] = lambda E, t: Opaque('allocator')

def _pairfield(E, e, o):
    p = E.read(o)
    if isinstance(p, PairRef):
        if e['n'] == 'second': return p.lv.sub(('m', p.key))
        k = p.key
        t = e['t']
        if t.k == 'int': return E.alloc(z3.Extract(p.kw - 1, 0, k))
        if t.k == 'rec': 
            fs = E.fields(t.n)
            return E.alloc(SV(t.n, {fs[0]['n']: z3.Extract(p.kw - 1, 0, k)}))
    raise Unsupported('member of %r' % (p,))
L['field std::pair'] = _pairfield
def _pairctor(E, f, t, a, e, lv):
    if len(a) == 2: return SV('std::pair', {'first': val(E, a[0]), 'second': val(E, a[1])})
    if len(a) == 1 and isinstance(val(E, a[0]), SV): return val(E, a[0])
    raise Unsupported('pair constructor')
L['ctor std::pair'] = _pairctor
def _mkpair(E, f, this, a, e):
    r = SV('std::pair', {'first': val(E, a[0]), 'second': val(E, a[1])})
    moved_args(E, f, a)
    return r
L['std::make_pair'] = _mkpair


# ---------------------------------------------------------------- mutex
def _lock(E, lv):
    m = E.read(lv)
    E.oblige(z3.Not(m.held), 'the mutex is not already held by this thread')
    E.write(lv, MutexV(T()))
    E.st.log.append(('lock', lv.key()))
    if getattr(E, 'onlock', None): E.onlock(lv, True)
def _unlock(E, lv):
    if getattr(E, 'onlock', None): E.onlock(lv, False)
    E.write(lv, MutexV(F()))
    E.st.log.append(('unlock', lv.key()))
class Guard(V):
    def __init__(self, lv): self.lv = lv
def _guardctor(E, f, t, a, e, lv):
    if len(a) != 1: raise Unsupported('lock constructor')
    _lock(E, a[0])
    return Guard(a[0])
for c in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock'): L['ctor ' + c] = _guardctor
L['std::unique_lock::unlock'] = lambda E, f, this, a, e: (_unlock(E, E.read(this).lv), E.write(this, Guard(None)))[0]
L['unlock'] = lambda E, lv: E.read(lv).lv is not None and _unlock(E, E.read(lv).lv)
L['std::mutex::lock'] = lambda E, f, this, a, e: _lock(E, this)
L['std::mutex::unlock'] = lambda E, f, this, a, e: _unlock(E, this)


# ---------------------------------------------------------------- smart pointers
def _null(E, f, this, a, e): return z3.Not(E.read(this).null)
for c in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr'):
    L[c + '::operator bool'] = _null
    L[c + '::get'] = lambda E, f, this, a, e: ptrget(E, this)
def ptrget(E, this):
    p = E.read(this)
    if isinstance(p, UPtr): return Ptr(p.null, this.sub('*'))
    return Ptr(p.null, p.tgt)
def _uderef(E, f, this, a, e):
    p = E.read(this)
    E.oblige(z3.Not(p.null), 'dereferenced pointer is not null')
    if p.val is None: raise Infeasible()
    return this.sub('*')
L['std::unique_ptr::operator*'] = _uderef
L['std::unique_ptr::operator->'] = lambda E, f, this, a, e: Ptr(F(), _uderef(E, f, this, a, e))
def _sderef(E, f, this, a, e): return E.deref(E.read(this))
for c in ('std::__shared_ptr_access', 'std::shared_ptr', 'std::__shared_ptr'):
    L[c + '::operator*'] = _sderef
    L[c + '::operator->'] = lambda E, f, this, a, e: (E.oblige(z3.Not(E.read(this).null), 'dereferenced pointer is not null'), Ptr(F(), E.read(this).tgt) if E.read(this).tgt is not None else _inf())[1]
def _inf(): raise Infeasible()

def toowner(E, p):
    """A unique_ptr from a raw pointer: it takes the object, which cannot be reached through the raw pointer from then on."""
    if isinstance(p, Ptr) and ctrue(p.null): return UPtr(T(), None)
    if isinstance(p, Ptr):
        t = E.takeover(p)
        return UPtr(p.null, t if isinstance(t, ExtV) else E.st.cells.pop(t.cell))
    raise Unsupported('unique_ptr from a raw pointer')
def _urelease(E, f, this, a, e):
    p = E.read(this)
    E.write(this, UPtr(T(), None))
    if p.val is None: return Ptr(T(), None)
    return E.unowned(Ptr(p.null, E.alloc(p.val)))
L['std::unique_ptr::release'] = _urelease
def _ureset(E, f, this, a, e):
    if a:
        p = val(E, a[0])
        if not (isinstance(p, Ptr) and ctrue(p.null)):
            E.write(this, toowner(E, p)); return
    E.write(this, UPtr(T(), None))
L['std::unique_ptr::reset'] = _ureset
def _uassign(E, f, this, a, e):
    p = val(E, a[0]) if a else Ptr(T(), None)
    if isinstance(p, UPtr):
        if isinstance(a[0], LV): E.write(a[0], UPtr(T(), None))
        E.write(this, p)
    else: E.write(this, UPtr(T(), None))
    return this
L['std::unique_ptr::operator='] = _uassign
def _uctor(E, f, t, a, e, lv):
    if not a: return UPtr(T(), None)
    p = val(E, a[0])
    if isinstance(p, UPtr):
        if isinstance(a[0], LV): E.write(a[0], UPtr(T(), None))
        return p
    return toowner(E, p)
L['ctor std::unique_ptr'] = _uctor
def _sreset(E, f, this, a, e):
    E.write(this, toshared(E, val(E, a[0])) if a else ShPtr(T(), None))
L['std::__shared_ptr::reset'] = L['std::shared_ptr::reset'] = _sreset
def toshared(E, p):
    if isinstance(p, UPtr):
        lv = E.alloc(p.val)
        return ShPtr(p.null, lv)
    if isinstance(p, WkPtr): raise Unsupported('shared_ptr from weak_ptr')
    if isinstance(p, ShPtr): return p
    if isinstance(p, Ptr) and ctrue(p.null): return ShPtr(T(), None)
    if isinstance(p, Ptr): return ShPtr(p.null, E.takeover(p))
    raise Unsupported('shared_ptr from %r' % (p,))
def _sassign(E, f, this, a, e):
    p = val(E, a[0])
    E.write(this, toshared(E, p))
    if isinstance(a[0], LV) and (f.assign == 'move' or isinstance(p, UPtr)) : E.write(a[0], type(p)(T(), None))
    return this
L['std::shared_ptr::operator='] = _sassign
def _sctor(E, f, t, a, e, lv):
    if not a: return ShPtr(T(), None)
    p = val(E, a[0])
    r = toshared(E, p)
    if isinstance(a[0], LV) and (isinstance(p, UPtr) or (f.ps[0].k == 'ref' and f.ps[0].rv)): E.write(a[0], type(p)(T(), None))
    return r
L['ctor std::shared_ptr'] = _sctor
def _wctor(E, f, t, a, e, lv):
    if not a: return WkPtr(T(), None)
    p = val(E, a[0])
    return WkPtr(p.null, p.tgt)
L['ctor std::weak_ptr'] = _wctor
def _wassign(E, f, this, a, e):
    p = val(E, a[0]); E.write(this, WkPtr(p.null, p.tgt)); return this
L['std::weak_ptr::operator='] = _wassign
def _wlock(E, f, this, a, e):
    """The pointer, or null when the object is gone: which of them is not known here."""
    p = E.read(this)
    g = E.st.ghost.get(('alive', str(p.tgt)))
    if g is None:
        g = E.fconst(z3.BoolSort(), 'alive'); E.st.ghost[('alive', str(p.tgt))] = g
    return ShPtr(z3.Or(p.null, z3.Not(g)), p.tgt)
L['std::weak_ptr::lock'] = _wlock
def _wexpired(E, f, this, a, e): return _wlock(E, f, this, a, e).null
for c in ('std::weak_ptr', 'std::__weak_ptr'): L[c + '::expired'] = _wexpired
L['std::weak_ptr::reset'] = L['std::__weak_ptr::reset'] = lambda E, f, this, a, e: E.write(this, WkPtr(T(), None))

def _shared_from_this(E, f, this, a, e): return ShPtr(F(), this)
L['std::enable_shared_from_this::shared_from_this'] = _shared_from_this
L['std::enable_shared_from_this::weak_from_this'] = lambda E, f, this, a, e: WkPtr(F(), this)
def _dpc(E, f, this, a, e):
    p = val(E, a[0])
    t = f.ret.ta[0]
    if isinstance(p.tgt, LV):
        o = E.read(p.tgt)
        if isinstance(o, SV) and E.prog.is_derived(o.cls, t.n): return p
        if isinstance(o, SV): return ShPtr(T(), None)
    raise Unsupported('dynamic_pointer_cast')
L['std::dynamic_pointer_cast'] = _dpc
L['std::static_pointer_cast'] = lambda E, f, this, a, e: val(E, a[0])

def newobj(E, t, f, a, lv):
    """Construct an object of class t at lv from the arguments of make_unique/make_shared."""
    ps = [p.to if p.k == 'ref' else p for p in f.ps]
    h = L.get('new ' + (t.base or ''))
    if h:
        E.write(lv, h(E, t, a, ps)); return
    if len(a) == 1 and ps[0].n == t.n:
        E.write(lv, val(E, a[0])); return
    best = pick_ctor(E, t, ps)
    if best is None:
        if not a: E.write(lv, E.default(t)); return
        raise Unsupported('no constructor of %s for make_*' % t.s)
    args = [coerce(E, x, p, q) for x, p, q in zip(a, ps, best.ps)]
    E.ctor(best, t, lv, args)

def ctors_of(E, t):
    seen = {}
    r = E.prog.records.get(t.n)
    if r:
        for m in r['methods']:
            if m.ctor: seen[m.m] = m
    for g in E.prog.funcs.values():
        if g.ctor and g.cls is not None and g.cls.n == t.n: seen[g.m] = g
    return list(seen.values())

def pick_ctor(E, t, ps):
    for g in ctors_of(E, t):
        if g.ctor in ('copy', 'move'): continue
        if len(g.ps) == len(ps) and all(compatible(E, p, q) for p, q in zip(ps, g.ps)): return g
    return None

def compatible(E, p, q):
    q = q.to if q.k == 'ref' else q
    p = p.to if p.k == 'ref' else p
    if p.s == q.s or p.n and p.n == q.n and not p.ta: return True
    if p.k in ('int', 'enum', 'bool') and q.k in ('int', 'enum', 'bool'): return True
    if p.k == 'rec' and q.k == 'rec':
        if p.base == q.base and p.base in ('std::shared_ptr', 'std::function', 'std::unique_ptr', 'std::weak_ptr'): return True
        if q.base == 'std::function' and p.is_lambda: return True
        if q.base == 'std::weak_ptr' and p.base == 'std::shared_ptr': return True
        if q.base == 'std::shared_ptr' and p.base == 'std::unique_ptr': return True
        return E.prog.is_derived(p.n, q.n)
    if p.k in ('ptr', 'arr') and q.base == 'std::basic_string': return True
    if p.k == 'ptr' and q.k == 'ptr': return True
    if p.k == 'nullptr': return True
    return False

def coerce(E, x, p, q):
    """The argument x of type p passed for a parameter of type q."""
    v = val(E, x)
    qq = q.to if q.k == 'ref' else q
    if qq.k in ('int', 'bool', 'enum') and isz(v): v = E.conv(v, p, qq)
    elif qq.k == 'rec' and qq.base == 'std::weak_ptr' and isinstance(v, ShPtr): v = WkPtr(v.null, v.tgt)
    elif qq.k == 'rec' and qq.base == 'std::shared_ptr' and isinstance(v, UPtr): v = toshared(E, v)
    elif q.k == 'ref' and isinstance(x, LV): return x
    return E.alloc(v) if q.k == 'ref' else v

def moved_into(E, t, f, a):
    """After make_*(std::move(x)): x has been moved from where the constructor takes it by value (one that takes a reference has done so itself)."""
    best = pick_ctor(E, t, [p.to if p.k == 'ref' else p for p in f.ps])
    moved_args(E, f, a, skip=[i for i, q in enumerate(best.ps) if q.k == 'ref'] if best is not None else ())

def _mkunique(E, f, this, a, e):
    t = f.ret.ta[0]
    lv = E.alloc(None)
    newobj(E, t, f, a, lv)
    v = E.read(lv)
    moved_into(E, t, f, a)
    return UPtr(F(), v)
L['std::make_unique'] = _mkunique
def _mkshared(E, f, this, a, e):
    t = f.ret.ta[0]
    h = E.contracts.get('make_shared ' + (t.base or ''))
    lv = E.alloc(None)
    if h:
        E.used_contracts.add('make_shared ' + t.base)
        r = h(E, t, a, [p.to if p.k == 'ref' else p for p in f.ps], lv)
        moved_into(E, t, f, a)
        return r
    newobj(E, t, f, a, lv)
    moved_into(E, t, f, a)
    return ShPtr(F(), lv)
L['std::make_shared'] = _mkshared


# ---------------------------------------------------------------- function, bind
def _fnctor(E, f, t, a, e, lv):
    if not a: return FnV('null')
    v = val(E, a[0])
    if isinstance(v, FnV):
        if f.ctor == 'move' and isinstance(a[0], LV): E.write(a[0], FnV('moved'))
        return v
    if isinstance(v, Ptr) and ctrue(v.null): return FnV('null')
    raise Unsupported('function from %r' % (v,))
L['ctor std::function'] = _fnctor
def _fnassign(E, f, this, a, e):
    v = val(E, a[0]); E.write(this, v if isinstance(v, FnV) else FnV('null')); return this
L['std::function::operator='] = _fnassign
L['std::function::operator()'] = lambda E, f, this, a, e: E.callfn(E.read(this), a)
def _fnbool(E, f, this, a, e):
    v = E.read(this)
    return z3.BoolVal(v.kind != 'null')
L['std::function::operator bool'] = _fnbool
def _bind(E, f, this, a, e):
    vs = [val(E, x) for x in a]
    moved_args(E, f, a)
    return FnV('bind', f=vs[0], args=vs[1:])
L['std::bind'] = _bind
def _callbind(E, fn, args):
    xs = []
    for b in fn.args:
        if isinstance(b, Opaque) and b.desc.startswith('placeholder'):
            xs.append(args[int(b.desc[11:]) - 1])
        else: xs.append(E.alloc(b))
    f = fn.f
    if not (isinstance(f, FnV) and f.kind == 'func'): return E.callfn(f, xs)
    g = f.f
    if g.cls is not None and not g.static:
        o = E.read(xs[0])
        return E.call(g, E.deref(o) if isinstance(o, (ShPtr, Ptr)) else xs[0], [x if p.k == 'ref' else val(E, x) for x, p in zip(xs[1:], g.ps)])
    return E.call(g, None, [x if p.k == 'ref' else E.read(x) for x, p in zip(xs, g.ps)])
L['callbind'] = _callbind
for i in (1, 2, 3): L['global std::placeholders::_%d' % i] = (lambda i: lambda E, e: Opaque('placeholder%d' % i))(i)


# ---------------------------------------------------------------- strings, streams
def _strctor(E, f, t, a, e, lv):
    if not a or f.ctor == 'default': return E.strlit('')
    v = val(E, a[0])
    if isinstance(v, StrV): return v
    raise Unsupported('string constructor')
L['ctor std::basic_string'] = _strctor
for n in ('std::__cxx11::basic_string', ): L['ctor ' + n] = _strctor
L['std::basic_string::operator='] = lambda E, f, this, a, e: (E.write(this, val(E, a[0])), this)[1]
L['std::basic_string::empty'] = lambda E, f, this, a, e: E.read(this).s == E.strlit('').s
STRCMP = z3.Function('strcmp', StrSort, StrSort, z3.BitVecSort(32))
STRLEN = z3.Function('strlen', StrSort, z3.BitVecSort(64))
def _strcompare(E, f, this, a, e):
    if len(a) != 1: raise Unsupported('comparison of parts of strings')
    x, y = E.read(this), val(E, a[0])
    if not isinstance(y, StrV): raise Unsupported('string comparison')
    r = STRCMP(x.s, y.s)
    E.assume((r == 0) == (x.s == y.s))
    return r
L['std::basic_string::compare'] = _strcompare
def _strsize(E, f, this, a, e):
    s = E.read(this).s; r = STRLEN(s)
    E.assume(z3.And((r == 0) == (s == E.strlit('').s), z3.ULE(r, 1 << 32)))
    return r
L['std::basic_string::size'] = L['std::basic_string::length'] = _strsize
L['std::basic_string::c_str'] = lambda E, f, this, a, e: E.read(this)
CONCAT = z3.Function('strcat', StrSort, StrSort, StrSort)
L['std::operator+'] = lambda E, f, this, a, e: StrV(CONCAT(val(E, a[0]).s, val(E, a[1]).s)) if isinstance(val(E, a[0]), StrV) and isinstance(val(E, a[1]), StrV) else _plusq(E, f, this, a, e)
def _plusq(E, f, this, a, e):
    x = val(E, a[0])
    if isinstance(x, ItV): return _plus(E, f, None, a, e)
    raise Unsupported('operator+')
TOSTR = {}
def _tostring(E, f, this, a, e):
    v = val(E, a[0])
    fn = TOSTR.setdefault((v.size(), bool(f.ps[0].u)), z3.Function('to_string%d%s' % (v.size(), 'u' if f.ps[0].u else 's'), v.sort(), StrSort))
    return StrV(fn(v))
L['std::to_string'] = _tostring

class Ostream(V):
    """A stream: the pieces written, in order, and the formatting flags."""
    def __init__(self, pieces=(), flags=()): self.pieces, self.flags = tuple(pieces), dict(flags)
    parts_ = ()
    def add(self, p): return Ostream(self.pieces + (p,), self.flags)
    def flag(self, k, v):
        f = dict(self.flags); f[k] = v
        return Ostream(self.pieces, f)
L['default std::basic_ostringstream'] = lambda E, t: Ostream()
L['ctor std::basic_ostringstream'] = lambda E, f, t, a, e, lv: Ostream()
L['std::basic_ostringstream::str'] = lambda E, f, this, a, e: stream_text(E, E.read(this))
def stream_text(E, o):
    s = None
    for p in o.pieces:
        if p[0] != 'str': raise Unsupported('text of a stream with numbers')
        s = p[1] if s is None else CONCAT(s, p[1])
    return StrV(s if s is not None else E.strlit('').s)
class Manip(V):
    def __init__(self, k, v): self.k, self.v = k, v
def out(E, s, x, pt):
    """stream << x"""
    o = E.read(s)
    if isinstance(x, Manip):
        E.write(s, o.flag(x.k, x.v))
    elif isinstance(x, StrV): E.write(s, o.add(('str', x.s)).flag('width', None) if 'width' in o.flags else o.add(('str', x.s)))
    elif isz(x):
        E.write(s, Ostream(o.pieces + (('num', x, dict(o.flags), pt.s),), {k: v for k, v in o.flags.items() if k != 'width'}))
    elif isinstance(x, FnV) and x.kind == 'func':
        n = x.f.q
        fl = {'std::hex': ('base', 'hex'), 'std::dec': ('base', 'dec'), 'std::uppercase': ('case', 'upper'), 'std::nouppercase': ('case', 'lower'),
              'std::showbase': ('showbase', True), 'std::noshowbase': ('showbase', None), 'std::oct': ('base', 'oct'), 'std::left': ('adjust', 'left'), 'std::right': ('adjust', 'right')}.get(n)
        if fl is None: raise Unsupported('manipulator %s' % n)
        E.write(s, o.flag(*fl))
    else: raise Unsupported('output of %r' % (x,))
    return s
def _ostr(E, f, this, a, e):
    if this is not None: return out(E, this, val(E, a[0]), f.ps[0])
    s = a[0]
    x = val(E, a[1])
    p = f.ps[1]
    if p.k == 'int' and p.w == 8: raise Unsupported('output of a character')
    return out(E, s, x, p.to if p.k == 'ref' else p)
L['std::operator<<'] = _ostr
L['std::basic_ostream::operator<<'] = _ostr
class HashFn(V):
    parts_ = ()
L['ctor std::hash'] = lambda E, f, t, a, e, lv: HashFn()
L['default std::hash'] = lambda E, t: HashFn()
HASH = {}
def _hash(E, f, this, a, e):
    v = val(E, a[0])
    if not isz(v): raise Unsupported('hash of %r' % (v,))
    return HASH.setdefault(v.sort(), z3.Function('hash_%s' % v.sort(), v.sort(), BV64))(v)
L['std::hash::operator()'] = _hash
for c in ('std::__hash_base', ): L[c + '::operator()'] = _hash
L['std::setw'] = lambda E, f, this, a, e: Manip('width', as_int(val(E, a[0])))
L['std::setfill'] = lambda E, f, this, a, e: Manip('fill', as_int(val(E, a[0])))
for c in ('std::_Setw', 'std::_Setfill'): L['ctor ' + c] = lambda E, f, t, a, e, lv: val(E, a[0])


# ---------------------------------------------------------------- durations
def _durctor(E, f, t, a, e, lv):
    if not a: return E.fconst(BV64, 'uninit')
    x = val(E, a[0])
    p = f.ps[0].to if f.ps[0].k == 'ref' else f.ps[0]
    if p.k == 'rec':
        if not isz(x): raise Unsupported('duration from %r' % (x,))
        # conversion between units
        num, den = ratio(p), ratio(t)
        if num is None or den is None: raise Unsupported('duration conversion')
        k = num // den
        if num % den: raise Unsupported('duration conversion')
        return x * bv(k) if k != 1 else x
    return E.conv(x, p, E.u64) if p.u else z3.SignExt(64 - x.size(), x) if x.size() < 64 else x
def ratio(t):
    """Nanoseconds per tick of a duration type."""
    try:
        r = t.ta[1]
        n, d = r.ta[0], r.ta[1]
        return n * 1000000000 // d
    except Exception: return None
L['ctor std::chrono::duration'] = _durctor
L['ctor std::chrono::time_point'] = lambda E, f, t, a, e, lv: val(E, a[0]) if a else bv(0)
def _count2(E, f, this, a, e): return E.read(this)
L['std::chrono::duration::zero'] = lambda E, f, this, a, e: bv(0)
L['std::chrono::duration::count'] = _count2
def _dcast(E, f, this, a, e):
    x = val(E, a[0]); p = f.ps[0].to
    n, d = ratio(p), ratio(f.ret)
    if n is None or d is None: raise Unsupported('duration_cast')
    if n >= d: return x * bv(n // d)
    return x / bv(d // n)
L['std::chrono::duration_cast'] = _dcast
L['std::chrono::duration::operator='] = lambda E, f, this, a, e: (E.write(this, val(E, a[0])), this)[1]
def _durop(op):
    def h(E, f, this, a, e):
        x = val(E, a[0]); y = val(E, a[1])
        px = f.ps[0].to if f.ps[0].k == 'ref' else f.ps[0]; py = f.ps[1].to if f.ps[1].k == 'ref' else f.ps[1]
        if ratio(px) != ratio(py): raise Unsupported('mixed durations')
        return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y, '+': lambda: x + y, '-': lambda: x - y}[op]()
    return h
for op in ('==', '!=', '<', '>', '<=', '>=', '+', '-'): L['std::chrono::operator' + op] = _durop(op)


# ---------------------------------------------------------------- Expected (its own methods are verified under C22)
def _expctor(E, f, t, a, e, lv):
    vt = t.ta[0]
    v = val(E, a[0])
    if isinstance(v, ExpV): return v
    return ExpV(vt, T(), v, ExcV(bv(0, 8), bv(0, 32), E.ident('noexc')))
L['ctor modbus::Expected'] = _expctor
def _fromexc(E, f, this, a, e):
    x = val(E, a[0])
    if not isinstance(x, ExcV): raise Unsupported('from_exception of %r' % (x,))
    vt = f.ret.ta[0]
    return ExpV(vt, F(), None, x)
L['modbus::Expected::from_exception'] = _fromexc
L['modbus::Expected::is_valid'] = lambda E, f, this, a, e: E.read(this).valid
def _expget(E, f, this, a, e):
    x = E.read(this)
    if not E.branch(x.valid): raise ThrowX(x.exc)
    return this.sub('val')
L['modbus::Expected::get'] = _expget
def _hasexc(E, f, this, a, e):
    x = E.read(this)
    return z3.And(z3.Not(x.valid), E.exc_is(x.exc, f.ta[0]))
L['modbus::Expected::has_exception'] = _hasexc
def _getexc(E, f, this, a, e):
    x = E.read(this)
    if f.ta:
        if not E.branch(z3.And(z3.Not(x.valid), E.exc_is(x.exc, f.ta[0]))): raise ThrowX(ExcV(bv(101, 8), bv(0, 32), E.ident('invarg')))
        return x.exc
    if E.branch(x.valid): raise ThrowX(ExcV(bv(101, 8), bv(0, 32), E.ident('invarg')))
    return x.exc
L['modbus::Expected::get_exception'] = _getexc
for n_, neg_ in (('==', False), ('!=', True)):
    L['std::type_info::operator' + n_] = (lambda neg: lambda E, f, this, a, e: z3.BoolVal((E.read(this).t == val(E, a[0]).t) != neg))(neg_)
L['ctor std::__exception_ptr::exception_ptr'] = lambda E, f, t, a, e, lv: val(E, a[0])
L['ctor std::exception_ptr'] = lambda E, f, t, a, e, lv: val(E, a[0])
L['std::make_exception_ptr'] = lambda E, f, this, a, e: val(E, a[0])
L['modbus::ModbusException::get_exception_type'] = lambda E, f, this, a, e: E.read(this).mtype
def _rethrow(E, f, this, a, e): raise ThrowX(val(E, a[0]))
L['std::rethrow_exception'] = _rethrow
L['ctor std::invalid_argument'] = lambda E, f, t, a, e, lv: ExcV(bv(101, 8), bv(0, 32), E.ident('invarg'))
Interp.force_lib = {k for k in L if k.startswith('modbus::Expected::')} | {'modbus::ModbusException::get_exception_type'}


# ---------------------------------------------------------------- ser4cpp
def rs(E, this): return E.read(this)
def _len(E, f, this, a, e): return rs(E, this).n
for c in ('ser4cpp::rseq_t', 'ser4cpp::wseq_t', 'ser4cpp::Buffer'): L[c + '::length'] = _len
for c in ('ser4cpp::rseq_t', 'ser4cpp::wseq_t'):
    L[c + '::is_empty'] = lambda E, f, this, a, e: rs(E, this).n == bv(0)
    L[c + '::is_not_empty'] = lambda E, f, this, a, e: rs(E, this).n != bv(0)
    def _take(E, f, this, a, e):
        v = rs(E, this); k = val(E, a[0])
        return type(v)(v.buf, v.off, simp(z3.If(z3.ULT(k, v.n), k, v.n)))
    L[c + '::take'] = _take
    def _skip(E, f, this, a, e):
        v = rs(E, this); k = val(E, a[0])
        m = z3.If(z3.ULT(k, v.n), k, v.n)
        return type(v)(v.buf, simp(v.off + m), simp(v.n - m))
    L[c + '::skip'] = _skip
    def _adv(E, f, this, a, e):
        v = rs(E, this); k = val(E, a[0])
        m = z3.If(z3.ULT(k, v.n), k, v.n)
        E.write(this, type(v)(v.buf, simp(v.off + m), simp(v.n - m)))
        return m
    L[c + '::advance'] = _adv
    def _mkempty(E, f, this, a, e):
        v = rs(E, this); E.write(this, type(v)(None, bv(0), bv(0)))
    L[c + '::make_empty'] = _mkempty
    L[c + '::operator='] = lambda E, f, this, a, e: (E.write(this, val(E, a[0])), this)[1]
L['ser4cpp::rseq_t::empty'] = lambda E, f, this, a, e: Rseq(None, bv(0), bv(0))
L['ser4cpp::wseq_t::empty'] = lambda E, f, this, a, e: Wseq(None, bv(0), bv(0))
L['ser4cpp::wseq_t::readonly'] = lambda E, f, this, a, e: (lambda v: Rseq(v.buf, v.off, v.n))(rs(E, this))
def _ptrof(E, f, this, a, e):
    v = rs(E, this)
    if v.buf is None: return Ptr(T(), None)
    return Ptr(F(), v.buf.sub(('i', v.off)))
for n in ('ser4cpp::rseq_t::operator const unsigned char *', 'ser4cpp::wseq_t::operator unsigned char *', 'ser4cpp::wseq_t::operator const unsigned char *'): L[n] = _ptrof
def _seqctor(kind):
    def h(E, f, t, a, e, lv):
        if not a: return kind(None, bv(0), bv(0))
        if len(a) == 1:
            v = val(E, a[0])
            return kind(v.buf, v.off, v.n)
        p, n = val(E, a[0]), val(E, a[1])
        if ctrue(p.null): return kind(None, bv(0), bv(0))
        tgt = p.tgt
        if isinstance(tgt, LV) and tgt.path and isinstance(tgt.path[-1], tuple):
            base = LV(tgt.cell, tgt.path[:-1]); off = tgt.path[-1][1]
            b = E.read(base)
            E.oblige(z3.And(z3.ULE(off, b.n), z3.ULE(n, b.n - off)), 'the view lies inside the buffer')
            return kind(base, off, n)
        raise Unsupported('view over %r' % (p,))
    return h
L['ctor ser4cpp::rseq_t'] = _seqctor(Rseq)
L['ctor ser4cpp::wseq_t'] = _seqctor(Wseq)

def byte_at(E, v, i):
    """Byte i of the view."""
    if v.buf is None: return E.fconst(z3.BitVecSort(8), 'nobyte')
    return E.read(v.buf).at(simp(v.off + i))

def _readfrom(w):
    def h(E, f, this, a, e):
        v = E.read(a[0])
        ok = z3.UGE(v.n, bv(w))
        ok = simp(ok)
        b = z3.Concat(byte_at(E, v, bv(0)), byte_at(E, v, bv(1))) if w == 2 else byte_at(E, v, bv(0)) if w == 1 else None
        E.write(a[1], ite(ok, b, E.read(a[1])))
        k = z3.If(ok, bv(w), bv(0))
        E.write(a[0], Rseq(v.buf, simp(v.off + k), simp(v.n - k)))
        return ok
    return h
L['ser4cpp::UInt8::read_from'] = _readfrom(1)
L['ser4cpp::UInt16::read_from'] = _readfrom(2)

def store(E, buf, off, bs, cond=None):
    """Write the bytes at off.. of the storage."""
    b = E.read(buf); at = b.at
    def nat(i):
        r = at(i)
        for k, x in enumerate(bs):
            c = i == simp(off + k)
            if cond is not None: c = z3.And(cond, c)
            r = ite(c, x, r)
        return r
    E.oblige(z3.Implies(cond if cond is not None else T(), z3.ULE(off + len(bs), b.n)), 'write inside the buffer')
    E.write(buf, b.with_part('at', nat))

def put_bytes(E, wlv, bs, cond):
    v = E.read(wlv)
    if v.buf is None: return
    store(E, v.buf, v.off, bs, None if ctrue(cond) else cond)
    k = z3.If(cond, bv(len(bs)), bv(0))
    E.write(wlv, Wseq(v.buf, simp(v.off + k), simp(v.n - k)))

def _writeto(w):
    def h(E, f, this, a, e):
        v = E.read(a[0]); x = val(E, a[1])
        ok = simp(z3.UGE(v.n, bv(w)))
        bs = [x] if w == 1 else [z3.Extract(15, 8, x), z3.Extract(7, 0, x)]
        if v.buf is None: return F()
        if not z3.is_true(ok) and E.valid(ok): ok = T()
        put_bytes(E, a[0], bs, ok)
        return ok
    return h
L['ser4cpp::UInt8::write_to'] = _writeto(1)
L['ser4cpp::UInt16::write_to'] = _writeto(2)
def _put(E, f, this, a, e):
    v = E.read(this); x = val(E, a[0]); ok = simp(v.n != bv(0))
    if not z3.is_true(ok) and E.valid(ok): ok = T()
    if v.buf is not None: put_bytes(E, this, [x], ok)
    return ok
L['ser4cpp::wseq_t::put'] = _put
def _copyfrom(E, f, this, a, e):
    v = E.read(this); d = val(E, a[0])
    ok = simp(z3.ULE(d.n, v.n))
    if v.buf is None or d.buf is None: raise Unsupported('copy_from')
    src = E.read(d.buf).at
    b = E.read(v.buf); at = b.at; off, n, so = v.off, d.n, d.off
    E.oblige(z3.Implies(ok, z3.And(z3.ULE(off, b.n), z3.ULE(n, b.n - off))), 'write inside the buffer')
    E.write(v.buf, b.with_part('at', lambda i: ite(z3.And(ok, z3.ULE(off, i), z3.ULT(i - off, n)), src(simp(so + i - off)), at(i))))
    k = z3.If(ok, n, bv(0))
    E.write(this, Wseq(v.buf, simp(off + k), simp(v.n - k)))
    return Rseq(v.buf, off, simp(z3.If(ok, n, bv(0))))
L['ser4cpp::wseq_t::copy_from'] = _copyfrom
def _asseq(E, f, this, a, e):
    b = E.read(this)
    n = b.n
    if a: k = val(E, a[0]); n = z3.If(z3.ULT(k, n), k, n)
    return (Wseq if f.n in ('as_wseq', 'as_wslice') else Rseq)(this, bv(0), n)
for n in ('ser4cpp::StaticBuffer::as_seq', 'ser4cpp::StaticBuffer::as_wseq', 'ser4cpp::Buffer::as_rslice', 'ser4cpp::Buffer::as_wslice'): L[n] = _asseq
L['ctor ser4cpp::StaticBuffer'] = lambda E, f, t, a, e, lv: E.default(t)
def snapshot(E, v):
    """The bytes of a view as storage of their own."""
    if v.buf is None: return Buf(bv(0), lambda i: bv(0, 8))
    at = E.read(v.buf).at; off = v.off
    return Buf(v.n, lambda i: at(simp(off + i)))
def _bufctor(E, f, t, a, e, lv):
    if not a: return Buf(bv(0), lambda i: bv(0, 8))
    v = val(E, a[0])
    if isinstance(v, Rseq): return snapshot(E, v)
    return Buf(v, lambda i: bv(0, 8))
L['ctor ser4cpp::Buffer'] = _bufctor
L['new ser4cpp::Buffer'] = lambda E, t, a, ps: _bufctor(E, None, t, a, None, None)
L['subscript'] = lambda E, e, b, i: _subs(E, e, b, i)
def _subs(E, e, b, i):
    raise Unsupported('subscript of %r' % (b,))


# ---------------------------------------------------------------- exe4cpp: what is handed to an executor is recorded
def _post(E, f, this, a, e): E.st.log.append(('post', val(E, a[0])))
def _start(E, f, this, a, e):
    t = E.ident('timer')
    p = f.ps[0].to if f.ps[0].k == 'ref' else f.ps[0]
    E.st.log.append(('start' if p.base == 'std::chrono::duration' else 'start_at', val(E, a[0]), val(E, a[1]), TimerV(F(), t)))
    return TimerV(F(), t)
for c in ('exe4cpp::IExecutor', 'exe4cpp::StrandExecutor'):
    L['ext %s::post' % c] = _post
    L['ext %s::start' % c] = _start
def _tctor(E, f, t, a, e, lv):
    if not a: return TimerV(T(), E.ident('notimer'))
    p = val(E, a[0])
    if isinstance(p, TimerV): return p
    if isinstance(p, (Ptr, ShPtr)) and ctrue(p.null): return TimerV(T(), E.ident('notimer'))
    raise Unsupported('timer from %r' % (p,))
L['ctor exe4cpp::Timer'] = _tctor
L['default exe4cpp::Timer'] = lambda E, t: TimerV(T(), E.ident('notimer'))
L['exe4cpp::Timer::operator='] = lambda E, f, this, a, e: (E.write(this, val(E, a[0])), this)[1]
def _tcancel(E, f, this, a, e):
    t = E.read(this)
    if not E.branch(t.null): E.st.log.append(('cancel', t.id))
    E.write(this, TimerV(T(), t.id))
L['exe4cpp::Timer::cancel'] = _tcancel


# ---------------------------------------------------------------- logger: no observable effect
class Logger: pass
def _nolog(E, f, this, a, e): return None
for n in ('trace', 'debug', 'info', 'warn', 'error', 'critical', 'log', 'set_level'): L['modbus::Logger::' + n] = _nolog
Interp.force_lib |= {'modbus::Logger::' + n for n in ('trace', 'debug', 'info', 'warn', 'error', 'critical', 'log', 'set_level')}
def _logclone(E, f, this, a, e):
    i = E.ident('logger')
    E.st.log.append(('logclone',) + tuple(val(E, x) for x in a) + (i,))
    return ShPtr(F(), ExtV('modbus::Logger', i))
L['modbus::Logger::clone'] = _logclone
Interp.force_lib |= {'modbus::Logger::clone'}


# ---------------------------------------------------------------- algorithms: their defining loop, in place of their body
def _algo(E, e, first, last, step):
    """for(it = first; it != last; ++it) step(reference to the element); the iterator where it ended. step returns True to stop."""
    from .engine import LoopDone, BrkX
    it = E.alloc(first)
    if not isinstance(first, ItV): raise Unsupported('algorithm over %r' % (first,))
    def once():
        i = E.read(it)
        if not E.branch(z3.Not(iteq(E, i, last))): raise LoopDone()
        if step(itderef(E, i)): raise BrkX()
        E.write(it, advanced(E, i))
    E.loop(e if isinstance(e, dict) else {'l': 'algorithm'}, once)
    return E.read(it)

def _refarg(E, f, x):
    """An element reference as the argument of a predicate: locations are passed as such."""
    return x

@lib('std::for_each')
def _(E, f, this, a, e):
    fn = val(E, a[2])
    _algo(E, e, val(E, a[0]), val(E, a[1]), lambda x: (E.callfn(fn, [x]), False)[1])
    return fn

@lib('std::find_if')
def _(E, f, this, a, e):
    fn = val(E, a[2])
    return _algo(E, e, val(E, a[0]), val(E, a[1]), lambda x: E.branch(E.callfn(fn, [x])))

@lib('std::find_if_not')
def _(E, f, this, a, e):
    fn = val(E, a[2])
    return _algo(E, e, val(E, a[0]), val(E, a[1]), lambda x: not E.branch(E.callfn(fn, [x])))

@lib('std::any_of')
def _(E, f, this, a, e):
    fn, last = val(E, a[2]), val(E, a[1])
    return z3.Not(iteq(E, _algo(E, e, val(E, a[0]), last, lambda x: E.branch(E.callfn(fn, [x]))), last))

@lib('std::none_of')
def _(E, f, this, a, e):
    fn, last = val(E, a[2]), val(E, a[1])
    return iteq(E, _algo(E, e, val(E, a[0]), last, lambda x: E.branch(E.callfn(fn, [x]))), last)

@lib('std::all_of')
def _(E, f, this, a, e):
    fn, last = val(E, a[2]), val(E, a[1])
    return iteq(E, _algo(E, e, val(E, a[0]), last, lambda x: not E.branch(E.callfn(fn, [x]))), last)

def _pushfront(E, f, this, a, e):
    v = E.read(this); x = val(E, a[0])
    if isinstance(x, UPtr) and isinstance(a[0], LV): E.write(a[0], UPtr(T(), None))
    at = v.at
    E.write(this, Vec(v.ety, simp(v.n + 1), lambda i: ite(i == bv(0), x, at(simp(i - 1)))))
forall(('std::deque', 'std::list'), ['push_front'], _pushfront)


# ---------------------------------------------------------------- more of the algorithms and iterator helpers
@lib('std::find')
def _(E, f, this, a, e):
    x = val(E, a[2])
    def eq(el):
        v = E.read(el)
        if isinstance(v, BitRef): v = E.read(v.lv)
        y = x
        if isz(v) and isz(y) and v.sort() != y.sort(): raise Unsupported('std::find of another type')
        return E.branch(geneq(E, v, y, f))
    return _algo(E, e, val(E, a[0]), val(E, a[1]), eq)

for _n in ('std::begin', 'std::cbegin'): L[_n] = lambda E, f, this, a, e: endsof(E, a[0])[0]
for _n in ('std::end', 'std::cend'): L[_n] = lambda E, f, this, a, e: endsof(E, a[0])[1]
def endsof(E, lv):
    v = E.read(lv)
    if isinstance(v, Vec): return ItV(lv, bv(0), 'seq'), ItV(lv, v.n, 'seq')
    if isinstance(v, MapV) and v.ordered: return ItV(lv, map_next(E, v, bv(-1)), 'map'), ItV(lv, v.END, 'map')
    raise Unsupported('std::begin of %r' % (v,))

def seqits(E, x, y):
    """Two iterators of one sequence."""
    if not (isinstance(x, ItV) and isinstance(y, ItV) and x.kind == 'seq' and y.kind == 'seq'): raise Unsupported('iterators of a sequence expected')
    iteq(E, x, y)
    return x.key, y.key
@lib('std::distance')
def _(E, f, this, a, e):
    x, y = seqits(E, val(E, a[0]), val(E, a[1]))
    return simp(y - x)
def _itminus(E, f, this, a, e):
    x, y = val(E, a[0]), val(E, a[1])
    if isinstance(x, ItV) and isinstance(y, ItV):
        i, j = seqits(E, x, y)
        return simp(i - j)
    raise Unsupported('call of %s' % f.q)
for _n in ('std::operator-', '__gnu_cxx::operator-'): L[_n] = _itminus
def _itless(rel):
    def h(E, f, this, a, e):
        x, y = val(E, a[0]), val(E, a[1])
        if isinstance(x, ItV) and isinstance(y, ItV): return rel(*seqits(E, x, y))
        raise Unsupported('call of %s' % f.q)
    return h
for _op, _r in (('<', z3.ULT), ('<=', z3.ULE), ('>', z3.UGT), ('>=', z3.UGE)):
    L['__gnu_cxx::operator' + _op] = _itless(_r)

@lib('std::advance')
def _(E, f, this, a, e):
    it = E.read(a[0]); n = val(E, a[1])
    if not isinstance(it, ItV): raise Unsupported('std::advance')
    if it.kind == 'seq' and n.size() < 64: n = z3.SignExt(64 - n.size(), n)
    if it.kind != 'seq' and n.size() < 64: n = z3.ZeroExt(64 - n.size(), n)
    E.write(a[0], _nextn(E, [it, simp(n)]))
@lib('std::prev')
def _(E, f, this, a, e):
    it = val(E, a[0])
    if not isinstance(it, ItV) or it.kind != 'seq': raise Unsupported('std::prev')
    n = val(E, a[1]) if len(a) > 1 else bv(1)
    E.oblige(z3.ULE(n, it.key), 'the iterator is not moved before begin')
    return it.with_part('key', simp(it.key - n))

@lib('std::exchange')
def _(E, f, this, a, e):
    old = E.read(a[0]); new = val(E, a[1])
    if isz(old):
        t = f.ps[1].to if f.ps[1].k == 'ref' else f.ps[1]
        if not isz(new): raise Unsupported('std::exchange')
        if old.sort() != new.sort(): new = E.conv(new, t, f.ps[0].to)
    elif isinstance(old, UPtr):
        if not isinstance(new, UPtr):
            if not (isinstance(new, (Ptr, ShPtr)) and ctrue(new.null)): raise Unsupported('std::exchange')
            new = UPtr(T(), old.val)
        elif isinstance(a[1], LV): E.moved(a[1], f.ps[1].to)
    elif isinstance(old, ShPtr):
        if not isinstance(new, (Ptr, ShPtr)): raise Unsupported('std::exchange')
        if isinstance(new, Ptr) and not ctrue(new.null): raise Unsupported('std::exchange')
        new = ShPtr(new.null, new.tgt)
    elif type(new) is type(old):
        if isinstance(a[1], LV): E.moved(a[1], f.ps[1].to)
    else: raise Unsupported('std::exchange')
    E.write(a[0], new)
    return old

class BackIns(V):
    """std::back_insert_iterator."""
    parts_ = ()
    def __init__(self, lv): self.lv = lv
L['std::back_inserter'] = lambda E, f, this, a, e: BackIns(a[0])
for _c in ('std::back_insert_iterator',):
    L['ctor ' + _c] = lambda E, f, t, a, e, lv: val(E, a[0])

@lib('std::transform')
def _(E, f, this, a, e):
    out = val(E, a[2])
    if len(a) != 4 or not isinstance(out, BackIns): raise Unsupported('std::transform')
    fn = val(E, a[3])
    def step(x):
        r = E.callfn(fn, [x])
        r = E.read(r) if isinstance(r, LV) else r
        if isinstance(r, BitRef): r = E.read(r.lv)
        v = E.read(out.lv)
        if isz(r) and isz(v.at(bv(0))) and r.sort() != v.at(bv(0)).sort(): raise Unsupported('std::transform converts')
        append(E, out.lv, r)
        return False
    _algo(E, e, val(E, a[0]), val(E, a[1]), step)
    return out

def contig(E, p):
    """Where an iterator or element pointer points: (container, index)."""
    if isinstance(p, ItV) and p.kind == 'seq': return p.lv, p.key
    if isinstance(p, Ptr) and isinstance(p.tgt, LV) and p.tgt.path and isinstance(p.tgt.path[-1], tuple) and p.tgt.path[-1][0] == 'i':
        return LV(p.tgt.cell, p.tgt.path[:-1]), p.tgt.path[-1][1]
    raise Unsupported('an iterator into %r' % (p,))
def copyrange(E, src, k, n, out):
    s = E.read(src)
    if not isinstance(s, Vec): raise Unsupported('copy from %r' % (s,))
    E.oblige(z3.And(z3.ULE(k, s.n), z3.ULE(n, s.n - k)), 'the copied range lies in the container')
    at = s.at
    if isinstance(out, BackIns):
        v = E.read(out.lv); vat, n0 = v.at, v.n
        if not isz(at(bv(0))) or at(bv(0)).sort() != vat(bv(0)).sort(): raise Unsupported('copy of another type')
        E.write(out.lv, Vec(v.ety, simp(n0 + n), lambda i: ite(z3.ULT(i, n0), vat(i), at(simp(k + i - n0)))))
        return out
    d, j = contig(E, out)
    v = E.read(d)
    if not isinstance(v, Vec): raise Unsupported('copy to %r' % (v,))
    vat = v.at
    if not isz(at(bv(0))) or at(bv(0)).sort() != vat(bv(0)).sort(): raise Unsupported('copy of another type')
    E.oblige(z3.And(z3.ULE(j, v.n), z3.ULE(n, v.n - j)), 'the copy stays inside the destination')
    if d.key() == src.key(): raise Unsupported('copy inside one container')
    E.write(d, Vec(v.ety, v.n, lambda i: ite(z3.And(z3.ULE(j, i), z3.ULT(i - j, n)), at(simp(k + i - j)), vat(i))))
    return out.with_part('key', simp(j + n)) if isinstance(out, ItV) else Ptr(F(), LV(d.cell, d.path + (('i', simp(j + n)),)))
@lib('std::copy')
def _(E, f, this, a, e):
    (s, k), (s2, k2) = contig(E, val(E, a[0])), contig(E, val(E, a[1]))
    if s.key() != s2.key(): raise Unsupported('range over two containers')
    E.oblige(z3.ULE(k, k2), 'valid iterator range')
    return copyrange(E, s, k, simp(k2 - k), val(E, a[2]))
@lib('std::copy_n')
def _(E, f, this, a, e):
    s, k = contig(E, val(E, a[0])); n = val(E, a[1])
    if n.size() < 64: n = z3.ZeroExt(64 - n.size(), n)
    return copyrange(E, s, k, n, val(E, a[2]))
@lib('std::fill')
def _(E, f, this, a, e):
    (s, k), (s2, k2) = contig(E, val(E, a[0])), contig(E, val(E, a[1]))
    x = val(E, a[2]); v = E.read(s); at = v.at
    if s.key() != s2.key() or not isz(x) or x.sort() != at(bv(0)).sort(): raise Unsupported('std::fill')
    E.oblige(z3.And(z3.ULE(k, k2), z3.ULE(k2, v.n)), 'valid iterator range')
    E.write(s, Vec(v.ety, v.n, lambda i: ite(z3.And(z3.ULE(k, i), z3.ULT(i, k2)), x, at(i))))

def _seqinsert(E, f, this, a, e):
    pos = val(E, a[0]); v = E.read(this); at, n0 = v.at, v.n
    if not isinstance(pos, ItV) or pos.kind != 'seq' or pos.lv.key() != this.key(): raise Unsupported('insert')
    p = pos.key
    E.oblige(z3.ULE(p, n0), 'the position lies in the container')
    if len(a) == 2:
        x = val(E, a[1])
        if isinstance(x, BitRef): x = E.read(x.lv)
        if isz(x) and x.sort() != at(bv(0)).sort(): raise Unsupported('insert of another type')
        if f.ps[1].k == 'ref' and f.ps[1].rv and isinstance(a[1], LV): E.moved(a[1], f.ps[1].to)
        E.write(this, Vec(v.ety, simp(n0 + 1), lambda i: ite(z3.ULT(i, p), at(i), ite(i == p, x, at(simp(i - 1))))))
        return pos
    if len(a) == 3 and isinstance(val(E, a[1]), (ItV, Ptr)):
        (s, k), (s2, k2) = contig(E, val(E, a[1])), contig(E, val(E, a[2]))
        if s.key() != s2.key() or s.key() == this.key(): raise Unsupported('insert of a range')
        w = E.read(s); wat = w.at
        if not isz(wat(bv(0))) or wat(bv(0)).sort() != at(bv(0)).sort(): raise Unsupported('insert of another type')
        E.oblige(z3.And(z3.ULE(k, k2), z3.ULE(k2, w.n)), 'valid iterator range')
        m = simp(k2 - k)
        E.write(this, Vec(v.ety, simp(n0 + m), lambda i: ite(z3.ULT(i, p), at(i), ite(z3.ULT(i - p, m), wat(simp(k + i - p)), at(simp(i - m))))))
        return pos
    raise Unsupported('insert')
forall(('std::vector', 'std::deque', 'std::list'), ['insert'], _seqinsert)
