"""The meaning of the exported C++: statements, expressions, calls. Library functions are in lib.py, loops in loops.py."""
import z3
from .values import *
from .engine import *
from . import ast as A


def stripq(q):
    """A qualified name without template arguments."""
    out = ''; d = 0; i = 0
    while i < len(q):
        m = None
        for o in ('operator<<=', 'operator>>=', 'operator->*', 'operator<<', 'operator>>', 'operator->', 'operator<=', 'operator>=', 'operator<', 'operator>'):
            if q.startswith(o, i) and d == 0: m = o; break
        if m:
            out += m; i += len(m); continue
        c = q[i]
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out += c
        i += 1
    return out


def ubound(e, d=0):
    """An upper bound of the term as an unsigned number, from its structure."""
    w = e.size(); top = (1 << w) - 1
    if z3.is_bv_value(e): return e.as_long()
    if d > 12: return top
    k = e.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT: return ubound(e.arg(0), d + 1)
    if k == z3.Z3_OP_CONCAT:
        r = 0
        for c in e.children(): r = (r << c.size()) | ubound(c, d + 1)
        return r
    if k == z3.Z3_OP_ITE: return max(ubound(e.arg(1), d + 1), ubound(e.arg(2), d + 1))
    if k == z3.Z3_OP_BADD: return min(top, sum(ubound(c, d + 1) for c in e.children())) if sum(ubound(c, d + 1) for c in e.children()) <= top else top
    if k == z3.Z3_OP_BMUL:
        r = 1
        for c in e.children(): r *= ubound(c, d + 1)
        return min(r, top)
    if k == z3.Z3_OP_BAND: return min(ubound(c, d + 1) for c in e.children())
    if k == z3.Z3_OP_BLSHR or k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM): return ubound(e.arg(0), d + 1)
    if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0: return min(top, ubound(e.arg(0), d + 1))
    return top


def fits(op, a, b, w):
    return (a + b if op == '+' else a * b) < (1 << (w - 1)) and max(a, b) < (1 << (w - 1))


PURE_CALLS = {'size', 'length', 'empty', 'is_empty', 'is_not_empty', 'end', 'cend', 'get_value', 'count', 'get_request', 'is_valid_', 'c_str', 'data', 'max', 'min'}
PURE_OPS = {'==', '!=', '<', '>', '<=', '>=', '->', '*'}


class Interp(Engine):
    libtable = {}

    # ---- fresh values of a type
    def gen(self, ty, base, sorts=()):
        k = ty.k
        sorts = list(sorts)
        if k == 'bool':
            f = self.ffun(sorts, z3.BoolSort(), base); return lambda *a: f(*a)
        if k in ('int', 'enum'):
            f = self.ffun(sorts, z3.BitVecSort(ty.w), base); return lambda *a: f(*a)
        if k == 'void': return lambda *a: None
        if k == 'ref': return self.gen(ty.to, base, sorts)
        if k == 'ptr':
            nf = self.ffun(sorts, z3.BoolSort(), base + '.null')
            idf = self.ffun(sorts, IdSort, base + '.id')
            to = ty.to
            return lambda *a: Ptr(nf(*a), ExtV(to.n if to.k == 'rec' else to.s, idf(*a)))
        if k == 'arr':
            el = self.gen(ty.to, base + '[]', sorts + [BV64]); n = ty.len
            return lambda *a: Vec(ty.to, bv(n), lambda i: el(*(a + (i,))))
        if k != 'rec': raise Unsupported('a value of type %s' % ty.s)
        b = ty.base
        if b in ('std::vector', 'std::deque', 'std::list', 'std::initializer_list'):
            nf = self.ffun(sorts, BV64, base + '.n'); el = self.gen(ty.ta[0], base + '[]', sorts + [BV64])
            return lambda *a: Vec(ty.ta[0], nf(*a), lambda i: el(*(a + (i,))))
        if b == 'std::array':
            el = self.gen(ty.ta[0], base + '[]', sorts + [BV64]); n = ty.ta[1]
            if ty.ta[0].k == 'int' and ty.ta[0].w == 8: return lambda *a: Buf(bv(n), lambda i: el(*(a + (i,))))
            return lambda *a: Vec(ty.ta[0], bv(n), lambda i: el(*(a + (i,))))
        if b in ('std::map', 'std::unordered_map'):
            self.mapkeys(ty)
            kw = self.keywidth(ty.ta[0])
            nm = self.name(base)
            pf = self.ffun(sorts + [BV64], z3.BoolSort(), base + '.has'); vf = self.gen(ty.ta[1], base + '.at', sorts + [BV64])
            if sorts: return lambda *a: MapV(ty.ta[1], kw, lambda i: pf(*(a + (i,))), lambda i: vf(*(a + (i,))), None, b == 'std::map')
            end = bv(1 << kw)
            m = MapV(ty.ta[1], kw, lambda i: z3.And(z3.ULT(i, end), pf(i)), lambda i: vf(i), nm, b == 'std::map')
            return lambda *a: m
        if b == 'std::unique_ptr':
            nf = self.ffun(sorts, z3.BoolSort(), base + '.null'); el = self.gen(ty.ta[0], base + '*', sorts)
            return lambda *a: UPtr(nf(*a), el(*a))
        if b in ('std::shared_ptr', 'std::weak_ptr'):
            nf = self.ffun(sorts, z3.BoolSort(), base + '.null'); idf = self.ffun(sorts, IdSort, base + '.id')
            c = ShPtr if b == 'std::shared_ptr' else WkPtr
            return lambda *a: c(nf(*a), ExtV(ty.ta[0].n, idf(*a)))
        if b == 'std::function':
            idf = self.ffun(sorts, IdSort, base)
            return lambda *a: FnV('opaque', id=idf(*a), fty=ty.ta[0])
        if b == 'std::basic_string':
            sf = self.ffun(sorts, StrSort, base); return lambda *a: StrV(sf(*a))
        if b in ('std::chrono::duration', 'std::chrono::time_point'):
            f = self.ffun(sorts, BV64, base); return lambda *a: f(*a)
        if b in ('ser4cpp::rseq_t', 'ser4cpp::wseq_t'):
            if sorts: raise Unsupported('views inside containers')
            of, nf = self.ffun([], BV64, base + '.off'), self.ffun([], BV64, base + '.n')
            byf = self.ffun([BV64], z3.BitVecSort(8), base + '.byte')
            def mk():
                lv = self.alloc(Buf(bv(1 << 40), lambda i: byf(i)))
                return (Rseq if b == 'ser4cpp::rseq_t' else Wseq)(lv, bv(0), nf())
            return mk
        if b == 'ser4cpp::StaticBuffer':
            el = self.ffun(sorts + [BV64], z3.BitVecSort(8), base + '.byte'); n = ty.ta[0]
            return lambda *a: Buf(bv(n), lambda i: el(*(a + (i,))))
        if b == 'ser4cpp::Buffer':
            el = self.ffun(sorts + [BV64], z3.BitVecSort(8), base + '.byte'); nf = self.ffun(sorts, BV64, base + '.n')
            return lambda *a: Buf(nf(*a), lambda i: el(*(a + (i,))))
        if b == 'modbus::Expected':
            vf = self.ffun(sorts, z3.BoolSort(), base + '.valid')
            ef = self.genexc(base, sorts)
            vt = ty.ta[0]
            el = self.gen(vt, base + '.val', sorts)
            return lambda *a: ExpV(vt, vf(*a), el(*a), ef(*a))
        if b in ('std::exception_ptr', 'std::__exception_ptr::exception_ptr'):
            return self.genexc(base, sorts)
        if b == 'std::pair':
            x, y = self.gen(ty.ta[0], base + '.first', sorts), self.gen(ty.ta[1], base + '.second', sorts)
            return lambda *a: SV('std::pair', {'first': x(*a), 'second': y(*a)})
        if b == 'std::mutex': return lambda *a: MutexV(z3.BoolVal(False))
        if b == 'exe4cpp::Timer':
            nf, idf = self.ffun(sorts, z3.BoolSort(), base + '.null'), self.ffun(sorts, IdSort, base + '.id')
            return lambda *a: TimerV(nf(*a), idf(*a))
        if b in self.exc_classes(): return self.genexc(base, sorts, b)
        if ty.n in self.prog.records:
            if self.is_interface(ty.n):
                idf = self.ffun(sorts, IdSort, base); return lambda *a: ExtV(ty.n, idf(*a))
            fs = [(f['n'], self.gen(f['t'], base + '.' + f['n'], sorts)) for f in self.fields(ty.n)]
            return lambda *a: SV(ty.n, {n: g(*a) for n, g in fs})
        idf = self.ffun(sorts, IdSort, base)
        return lambda *a: ExtV(ty.n, idf(*a))

    def fresh(self, ty, base):
        v = self.gen(ty, base)()
        self.wellformed(v)
        return v

    def wellformed(self, v):
        if isinstance(v, Vec): self.assume(z3.ULE(v.n, bv(1 << 32)))
        elif isinstance(v, (Rseq, Wseq)): self.assume(z3.ULE(v.n, bv(1 << 32)))
        elif isinstance(v, MapV): self.regmap(v)
        elif isinstance(v, V):
            for n, p in v.parts():
                if isinstance(p, V): self.wellformed(p)

    def genexc(self, base, sorts, cls=None):
        tf = self.ffun(sorts, z3.BitVecSort(8), base + '.exc'); mf = self.ffun(sorts, z3.BitVecSort(32), base + '.mtype')
        idf = self.ffun(sorts, IdSort, base + '.excid')
        if cls: return lambda *a: ExcV(bv(self.exctag(cls), 8), mf(*a), idf(*a))
        return lambda *a: ExcV(tf(*a), mf(*a), idf(*a))

    def exc_classes(self):
        if not hasattr(self, '_exc'):
            self._exc = {}
            for n, r in self.prog.records.items():
                if n.startswith('modbus::') and n.endswith('Exception') and n != 'modbus::IException':
                    self._exc[n] = None
            for i, n in enumerate(sorted(self._exc)): self._exc[n] = i + 1
            self._exc['std::invalid_argument'] = 101
        return self._exc

    def exctag(self, cls): return self.exc_classes()[cls]

    def is_interface(self, n):
        """A class with pure virtual functions and no fields is known by its identity only."""
        r = self.prog.records.get(n)
        return bool(r) and any(m.pure for m in r['methods'])

    def fields(self, n):
        r = self.prog.records[n]
        out = []
        for b in r['bases']:
            if b.n in self.prog.records: out += self.fields(b.n)
        return out + [f for f in r['fields'] if f['n']]

    def mapkeys(self, ty):
        """Only maps compared in the usual way."""
        how = 'std::less' if ty.base == 'std::map' else 'std::equal_to'
        i = 2 if ty.base == 'std::map' else 3
        if len(ty.ta) > i and ty.ta[i].base != how: raise Unsupported('comparison of keys by %s' % ty.ta[i].s)
        if ty.base == 'std::map' and not (ty.ta[0].k == 'int' and ty.ta[0].u): raise Unsupported('order of keys of type %s' % ty.ta[0].s)

    def keywidth(self, t):
        if t.k == 'int': return t.w
        if t.k == 'rec' and t.n in self.prog.records:
            fs = self.fields(t.n)
            if len(fs) == 1 and fs[0]['t'].k == 'int': return fs[0]['t'].w
        raise Unsupported('map keys of type %s' % t.s)

    def key64(self, v):
        if isinstance(v, SV) and len(v.f) == 1: v = list(v.f.values())[0]
        if not isz(v): raise Unsupported('map key %r' % (v,))
        return z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v

    # successor function of an ordered map, with its axioms instantiated where needed
    def regmap(self, m):
        if m.nxt is not None: return
        nm = self.name('nxt')
        f = z3.Function(nm, BV64, BV64)
        m.nxt = f
        end = m.END
        pres = m.pres
        probe = ground_apps([pres(z3.Const('probe!', BV64))])
        pn = [n for n in probe if '.has' in n]
        self.maps = dict(self.maps)
        self.maps[nm] = dict(nxt=nm, pres=pn[0] if pn else '?',
            axiom=lambda t, a: z3.Implies(z3.Or(z3.ULT(t, end), t == bv(-1)),
                                          z3.And(z3.UGT(a + 1, t + 1), z3.ULE(a, end), z3.Implies(a != end, pres(a)))),
            between=lambda t, a, b: z3.Implies(z3.And(z3.UGT(b + 1, t + 1), z3.ULT(b, a), z3.ULT(b, end)), z3.Not(pres(b))))

    def default(self, ty, zero=False):
        """The value of a default-initialised (or zero-initialised) object."""
        k = ty.k
        if k == 'bool': return F() if zero else self.fconst(z3.BoolSort(), 'uninit')
        if k in ('int', 'enum'): return bv(0, ty.w) if zero else self.fconst(z3.BitVecSort(ty.w), 'uninit')
        if k == 'ptr': return Ptr(T(), None) if zero else self.fresh(ty, 'uninit')
        if k == 'arr':
            if zero: z = self.default(ty.to, True); return Vec(ty.to, bv(ty.len), lambda i: z)
            return self.fresh(ty, 'uninit')
        if k == 'rec':
            b = ty.base
            if b in ('std::vector', 'std::deque', 'std::list'):
                g = self.gen(ty.ta[0], 'none', [BV64])
                return Vec(ty.ta[0], bv(0), lambda i: g(i))
            if b in ('std::map', 'std::unordered_map'):
                self.mapkeys(ty)
                g = self.gen(ty.ta[1], 'none', [BV64])
                m = MapV(ty.ta[1], self.keywidth(ty.ta[0]), lambda i: F(), lambda i: g(i), None, b == 'std::map')
                return m
            if b == 'std::unique_ptr': return UPtr(T(), None)
            if b == 'std::shared_ptr': return ShPtr(T(), None)
            if b == 'std::weak_ptr': return WkPtr(T(), None)
            if b == 'std::function': return FnV('null')
            if b == 'std::basic_string': return self.strlit('')
            if b in ('std::chrono::duration', 'std::chrono::time_point'): return bv(0)
            if b == 'ser4cpp::rseq_t': return Rseq(None, bv(0), bv(0))
            if b == 'ser4cpp::wseq_t': return Wseq(None, bv(0), bv(0))
            if b == 'ser4cpp::StaticBuffer': return Buf(bv(ty.ta[0]), lambda i: bv(0, 8))
            if b == 'std::mutex': return MutexV(F())
            if b == 'std::array' and not zero: return self.fresh(ty, 'uninit')
            if ty.n in self.prog.records and not self.is_interface(ty.n) or ty.n in self.prog.records and self.prog.records[ty.n]['fields']:
                f = {}
                for x in self.fields(ty.n):
                    f[x['n']] = self.rv(x['init']) if x['init'] is not None and not zero else self.default(x['t'], zero)
                return SV(ty.n, f)
            if ty.n in self.prog.records: return SV(ty.n, {})
        h = self.libtable.get('default ' + (ty.base or ''))
        if h: return h(self, ty)
        raise Unsupported('default value of %s' % ty.s)

    # ---- statements
    def ex(self, s):
        if s is None: return
        if 'l' in s and s['l']: self.line = s['l']
        k = s['k']
        m = getattr(self, 'ex_' + k, None)
        if m is None: raise Unsupported('statement %s at line %s' % (s.get('c', k), s.get('l')))
        m(s)

    def scoped(self, fn):
        fr = self.st.frames[-1]
        fr.scopes.append([])
        try:
            fn()
        except (RetX, BrkX, ContX, ThrowX):
            self.leave(); raise
        self.leave()

    def leave(self):
        fr = self.st.frames[-1]
        for c in reversed(fr.scopes.pop()): c(self)

    def ex_Compound(self, s):
        def go():
            for x in s['s']: self.ex(x)
        self.scoped(go)

    def ex_Expr(self, s): self.discard(s['e'])

    def discard(self, e):
        if e['k'] in ('Cast',) and e['ck'] == 'ToVoid': return self.discard(e['e'])
        if e['vk'] in ('l', 'x'): self.glv(e)
        else: self.rv(e)

    def ex_Null(self, s): pass

    def ex_Decl(self, s):
        for v in s['vars']: self.declare(v)

    def declare(self, v):
        fr = self.st.frames[-1]
        t = v['t']
        if v.get('static'):
            if not v.get('const'): raise Unsupported('static local variable %s' % v['n'])
        if t.k == 'ref':
            fr.vars[v['id']] = self.glv(v['init']) if v['init']['vk'] in ('l', 'x') else self.alloc(self.rv(v['init']))
            return
        if v.get('init') is None:
            lv = self.alloc(self.default(t))
        else:
            lv = self.alloc(None)
            self.into(v['init'], lv)
        fr.vars[v['id']] = lv
        self.track(t, lv)

    def track(self, t, lv):
        if t.k == 'rec' and t.base in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock'):
            self.st.frames[-1].scopes[-1].append(lambda E: E.libtable['unlock'](E, lv))
        elif t.k == 'rec' and t.n in self.prog.records and self.prog.records[t.n].get('dtorUser') and t.base != 'modbus::Expected':
            raise Unsupported('a local object of class %s with a destructor' % t.n)

    def into(self, e, lv):
        """Evaluate e to initialise the object at lv (in place when it is a constructor call)."""
        if e['k'] == 'Construct':
            self.construct(e, lv)
            return
        self.write(lv, self.rv(e))

    def ex_Return(self, s):
        e = s.get('e')
        if e is None: raise RetX(None)
        rt = self.st.frames[-1].fn.ret if self.st.frames[-1].fn else None
        if rt is not None and rt.k == 'ref': raise RetX(self.glv(e))
        raise RetX(self.rv(e))

    def ex_Break(self, s): raise BrkX()
    def ex_Continue(self, s): raise ContX()

    def cond(self, e):
        v = self.rv(e)
        if not isz(v) or not z3.is_bool(v): raise Unsupported('condition of type %s' % e['t'].s)
        return v

    def ex_If(self, s):
        def go():
            if s.get('init'): self.ex(s['init'])
            if s.get('var'): self.declare(s['var'])
            c = simp(self.cond(s['c']))
            if z3.is_true(c): return self.ex(s['a'])
            if z3.is_false(c): return self.ex(s.get('b'))
            if self.simple(s['a']) and (not s.get('b') or self.simple(s['b'])):
                st = self.st
                pc, cells = list(st.pc), dict(st.cells)
                st.pc.append(c); self.ex(s['a']); ca = st.cells
                st.pc, st.cells = pc + [z3.Not(c)], dict(cells)
                self.ex(s.get('b')); cb = st.cells
                st.pc = pc
                out = {}
                for key in cells:
                    out[key] = ca[key] if ca[key] is cb[key] else ite(c, ca[key], cb[key])
                st.cells = out
                return
            if self.branch(c): self.ex(s['a'])
            else: self.ex(s.get('b'))
        self.scoped(go)

    def simple(self, s):
        """Assignments to scalars only, without calls: both branches can be executed and merged."""
        k = s['k']
        if k == 'Compound': return all(self.simple(x) for x in s['s'])
        if k == 'Null': return True
        if k == 'Expr':
            e = s['e']
            if e['k'] == 'Bin' and e['op'] == '=': return e['t'].k in ('int', 'bool', 'enum') and self.pure(e['a']) and self.pure(e['b'])
            if e['k'] == 'CAssign': return e['t'].k in ('int', 'bool', 'enum') and self.pure(e['a']) and self.pure(e['b'])
            if e['k'] == 'Un' and e['op'] in ('++', '--', '++post', '--post'): return self.pure(e['e']) and e['t'].k == 'int'
        return False

    def pure(self, e):
        k = e['k']
        if k in ('Int', 'Null', 'Ref', 'This', 'Str', 'ZeroInit'): return True
        if k == 'Member': return self.pure(e['b'])
        if k in ('Cast', 'Temp'): return self.pure(e['e'])
        if k == 'Bin': return e['op'] not in ('=', ',', '&&', '||') and self.pure(e['a']) and self.pure(e['b']) or e['op'] in ('&&', '||') and self.pure(e['a']) and self.pure(e['b'])
        if k == 'Un': return e['op'] in ('-', '+', '~', '!', '*', '&') and self.pure(e['e'])
        if k == 'Cond': return self.pure(e['c']) and self.pure(e['a']) and self.pure(e['b'])
        if k == 'MCall': return e['f'].n in PURE_CALLS and self.pure(e['obj']) and all(self.pure(a) for a in e['args'])
        if k == 'OpCall': return e['op'] in PURE_OPS and all(self.pure(a) for a in e['args'])
        return False

    def ex_Switch(self, s):
        def go():
            if s.get('init'): self.ex(s['init'])
            v = self.rv(s['c'])
            body = s['b']['s'] if s['b']['k'] == 'Compound' else [s['b']]
            items = []  # (labels, stmt)
            for x in body:
                labels = []
                while x is not None and x['k'] in ('Case', 'Default'):
                    labels.append(x['v'] if x['k'] == 'Case' else None)
                    x = x['s']
                items.append((labels, x))
            start = dflt = None
            for i, (ls, _) in enumerate(items):
                for l in ls:
                    if l is None: dflt = i
                    elif start is None and self.branch(v == self.rv(l)): start = i
                if start is not None: break
            if start is None: start = dflt
            if start is None: return
            try:
                for _, x in items[start:]: self.ex(x)
            except BrkX: pass
        self.scoped(go)

    def ex_Try(self, s):
        try:
            self.ex(s['b'])
        except ThrowX as x:
            for h in s['h']:
                if h['t'] is None:
                    return self.handler(h, x.v)
                t = h['t'].to if h['t'].k == 'ref' else h['t']
                if self.branch(self.exc_is(x.v, t)): return self.handler(h, x.v)
            raise

    def handler(self, h, exc):
        def go():
            fr = self.st.frames[-1]
            if h.get('var') and h['var'].get('n') is not None: fr.vars[h['var']['id']] = self.alloc(exc)
            old = self.st.ghost.get('curexc')
            self.st.ghost['curexc'] = exc
            self.ex(h['b'])
            self.st.ghost['curexc'] = old
        self.scoped(go)

    def exc_is(self, exc, t):
        """Whether the exception object is of class t or of a class derived from it."""
        if not isinstance(exc, ExcV): raise Unsupported('exception %r' % (exc,))
        cs = [self.exctag(n) for n in self.exc_classes() if self.prog.is_derived(n, t.n)]
        if t.n == 'std::exception': cs += [self.exctag('std::invalid_argument')]
        if not cs: raise Unsupported('catching %s' % t.s)
        return z3.Or([exc.tagv == bv(c, 8) for c in cs])

    # ---- expressions: values
    def rv(self, e):
        if e['vk'] in ('l', 'x'):
            return self.read(self.glv(e))
        if e.get('l'): self.line = e['l']
        m = getattr(self, 'rv_' + e['k'], None)
        if m is None: raise Unsupported('expression %s at line %s' % (e.get('c', e['k']), e.get('l')))
        return m(e)

    def glv(self, e):
        if e['vk'] == 'p': return self.alloc(self.rv(e))
        m = getattr(self, 'lv_' + e['k'], None)
        if m is None: raise Unsupported('glvalue %s at line %s' % (e.get('c', e['k']), e.get('l')))
        r = m(e)
        if not isinstance(r, LV):
            if isinstance(r, ExtV): return self.extcell(r)
            raise Unsupported('glvalue %s is %r' % (e['k'], r))
        return r

    def extcell(self, x):
        """A cell standing for an external object, so that it can be referred to."""
        return self.alloc(x)

    def rv_Int(self, e):
        v = int(e['v'])
        t = e['t']
        if t.k == 'bool': return z3.BoolVal(v != 0)
        if t.k in ('int', 'enum'): return bv(v, t.w)
        raise Unsupported('constant of type %s' % t.s)

    def rv_Null(self, e): return Ptr(T(), None)
    def rv_ZeroInit(self, e): return self.default(e['t'], True)
    def rv_This(self, e): return Ptr(F(), self.st.frames[-1].this)

    def lv_Str(self, e): return self.alloc(self.strlit(e['v']))

    def lv_Ref(self, e):
        if e.get('cv') is not None:
            t = e['t']
            return self.alloc(z3.BoolVal(int(e['cv']) != 0) if t.k == 'bool' else bv(int(e['cv']), t.w))
        if e['dk'] == 'var':
            fr = self.st.frames[-1]
            if e['id'] in fr.vars: return fr.vars[e['id']]
            raise Unsupported('variable %s not in scope' % e['n'])
        if e['dk'] == 'func': return self.alloc(FnV('func', f=e['f']))
        h = self.libtable.get('global ' + e.get('q', e['n']))
        if h: return self.alloc(h(self, e))
        if e['dk'] == 'global':
            key = 'global:' + e['q']
            if key not in self.st.cells: self.st.cells[key] = self.default(e['t'], True) if False else Opaque('global ' + e['q'])
            return LV(key)
        raise Unsupported('reference to %s' % e['n'])

    rv_Ref = lambda self, e: self.read(self.lv_Ref(e))

    def objlv(self, e, arrow):
        """The object a member expression or call applies to."""
        if arrow:
            return self.deref(self.rv(e))
        if e['vk'] == 'p':
            lv = self.alloc(None); self.into(e, lv); return lv
        return self.glv(e)

    def deref(self, v):
        if isinstance(v, (Ptr, ShPtr)):
            self.oblige(z3.Not(v.null), 'dereferenced pointer is not null')
            if v.tgt is None: raise Infeasible()
            if isinstance(v.tgt, ExtV): return self.extcell(v.tgt)
            return v.tgt
        raise Unsupported('dereference of %r' % (v,))

    def lv_Member(self, e):
        if e['dk'] == 'global':
            if e.get('cv') is not None:
                t = e['t']
                return self.alloc(z3.BoolVal(int(e['cv']) != 0) if t.k == 'bool' else bv(int(e['cv']), t.w))
            raise Unsupported('static member %s' % e['n'])
        if e['dk'] != 'field': raise Unsupported('member %s' % e['n'])
        o = self.objlv(e['b'], e['arrow'])
        v = self.read(o)
        if not e['n']: return o   # anonymous union
        if isinstance(v, SV): return o.sub(e['n'])
        h = self.libtable.get('field ' + (e['cls'].base or ''))
        if h: return h(self, e, o)
        raise Unsupported('member %s of %r' % (e['n'], v))

    def rv_Member(self, e):
        o = self.rv(e['b'])
        return self.step(o, e['n'])

    def lv_Temp(self, e):
        lv = self.alloc(None)
        self.into(e['e'], lv)
        if e['t'].k == 'rec': self.track_temp(e['t'], lv)
        return lv
    def track_temp(self, t, lv): pass
    def rv_Temp(self, e): return self.rv(e['e'])

    def lv_Cast(self, e):
        ck = e['ck']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp', 'BaseToDerived', 'LValueBitCast'): return self.glv(e['e'])
        raise Unsupported('cast %s to a glvalue' % ck)

    def rv_Cast(self, e):
        ck = e['ck']; t = e['t']
        if ck == 'LValueToRValue': return self.read(self.glv(e['e']))
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay', 'BitCast'): return self.rv(e['e'])
        if ck == 'ArrayToPointerDecay':
            if e['e']['k'] == 'Str': return self.strlit(e['e']['v'])
            lv = self.glv(e['e'])
            return Ptr(F(), lv.sub(('i', bv(0))))
        if ck == 'ToVoid': self.discard(e['e']); return None
        if ck == 'NullToPointer': return Ptr(T(), None)
        if ck == 'IntegralCast': return self.conv(self.rv(e['e']), e['e']['t'], t)
        if ck in ('IntegralToBoolean',): return self.conv(self.rv(e['e']), e['e']['t'], t)
        if ck == 'PointerToBoolean': return z3.Not(self.rv(e['e']).null)
        if ck == 'Dynamic': raise Unsupported('dynamic_cast')
        raise Unsupported('cast %s' % ck)

    def conv(self, v, a, b):
        """Integral conversion of v from type a to type b."""
        if not isz(v): raise Unsupported('conversion of %r' % (v,))
        if b.k == 'bool': return v if z3.is_bool(v) else v != bv(0, v.size())
        if z3.is_bool(v): return z3.If(v, bv(1, b.w), bv(0, b.w))
        w = v.size()
        if b.w == w: return v
        if b.w < w: return z3.Extract(b.w - 1, 0, v)
        return z3.ZeroExt(b.w - w, v) if a.u else z3.SignExt(b.w - w, v)

    def arith(self, op, a, b, t, bt=None):
        """Binary operation on two values of the same type t (bt: type of the right operand of a shift)."""
        if z3.is_bool(a) and z3.is_bool(b):
            if op == '&': return z3.And(a, b)
            if op == '|': return z3.Or(a, b)
            if op == '^': return z3.Xor(a, b)
        u = t.u
        w = a.size()
        if op in ('<<', '>>'):
            c = b
            if c.size() < w: c = z3.ZeroExt(w - c.size(), c) if (bt is None or bt.u) else z3.SignExt(w - c.size(), c)
            elif c.size() > w: c = z3.Extract(w - 1, 0, c); 
            self.oblige(z3.ULT(b, bv(w, b.size())), 'shift count below the width')
            if op == '<<': return a << c
            return z3.LShR(a, c) if u else a >> c
        if op in ('+', '-', '*') and not u:
            x = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q}[op]
            r = x(a, b)
            if op != '-' and w < 128 and fits(op, ubound(a), ubound(b), w): return r
            if op == '-' and ubound(a) < (1 << (w - 1)) and ubound(b) < (1 << (w - 1)): return r
            ext = w if op == '*' else 1
            big = x(z3.SignExt(ext, a), z3.SignExt(ext, b))
            self.oblige(big == z3.SignExt(ext, r), 'no signed overflow')
            return r
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op in ('/', '%'):
            self.oblige(b != bv(0, w), 'divisor is not zero')
            if op == '/': return z3.UDiv(a, b) if u else a / b
            return z3.URem(a, b) if u else z3.SRem(a, b)
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        raise Unsupported('operator %s' % op)

    def compare(self, op, a, b, t):
        if isinstance(a, (Ptr, ShPtr, UPtr)) or isinstance(b, (Ptr, ShPtr, UPtr)):
            r = self.ptreq(a, b)
            return r if op == '==' else z3.Not(r)
        if z3.is_bool(a):
            r = {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: z3.And(z3.Not(a), b)}.get(op)
            if r is None: raise Unsupported('bool %s' % op)
            return r()
        if op == '==': return a == b
        if op == '!=': return a != b
        u = t.u
        return {'<': z3.ULT if u else lambda x, y: x < y, '<=': z3.ULE if u else lambda x, y: x <= y,
                '>': z3.UGT if u else lambda x, y: x > y, '>=': z3.UGE if u else lambda x, y: x >= y}[op](a, b)

    def ptreq(self, a, b):
        def null(p): return p.null
        def same(x, y):
            x, y = x.tgt if not isinstance(x, UPtr) else None, y.tgt if not isinstance(y, UPtr) else None
            if x is None or y is None: return F()
            if isinstance(x, LV): x2 = self.st.cells[x.cell] if not x.path else None
            if isinstance(x, ExtV) and isinstance(y, ExtV): return x.id == y.id
            if isinstance(x, LV) and isinstance(y, LV): return z3.BoolVal(x.key() == y.key())
            raise Unsupported('comparing pointers')
        return z3.Or(z3.And(a.null, b.null), z3.And(z3.Not(a.null), z3.Not(b.null), same(a, b)))

    def rv_Bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = simp(self.cond(e['a']))
            if op == '&&' and z3.is_false(a): return a
            if op == '||' and z3.is_true(a): return a
            if (op == '&&' and z3.is_true(a)) or (op == '||' and z3.is_false(a)): return self.cond(e['b'])
            if self.pure(e['b']):
                st = self.st
                saved = list(st.pc)
                st.pc.append(a if op == '&&' else z3.Not(a))
                b = self.cond(e['b'])
                st.pc = saved
                return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            if self.branch(a): return self.cond(e['b']) if op == '&&' else T()
            return F() if op == '&&' else self.cond(e['b'])
        if op == ',':
            self.discard(e['a']); return self.rv(e['b'])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, self.rv(e['a']), self.rv(e['b']), e['a']['t'])
        a, b = self.rv(e['a']), self.rv(e['b'])
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptrarith(op, a, b, e)
        return self.arith(op, a, b, e['t'], e['b']['t'])

    def ptrarith(self, op, a, b, e): raise Unsupported('pointer arithmetic')

    def lv_Bin(self, e):
        if e['op'] == '=':
            v = self.rv(e['b'])
            lv = self.glv(e['a'])
            self.write(lv, v)
            return lv
        if e['op'] == ',':
            self.discard(e['a']); return self.glv(e['b'])
        raise Unsupported('glvalue operator %s' % e['op'])

    def lv_CAssign(self, e):
        b = self.rv(e['b'])
        lv = self.glv(e['a'])
        a = self.read(lv)
        t = e['clt']
        if z3.is_bool(a) and t.k == 'bool': r = self.arith(e['op'], a, b, t)
        else:
            a2 = self.conv(a, e['a']['t'], t)
            r = self.arith(e['op'], a2, b, t, e['b']['t'])
            r = self.conv(r, t, e['a']['t'])
        self.write(lv, r)
        return lv

    def lv_Un(self, e):
        op = e['op']
        if op in ('++', '--'):
            lv = self.glv(e['e'])
            self.write(lv, self.incdec(self.read(lv), op[0], e['e']['t']))
            return lv
        if op == '*': return self.deref(self.rv(e['e']))
        raise Unsupported('glvalue operator %s' % op)

    def incdec(self, v, op, t):
        if t.w is None or not isz(v): raise Unsupported('increment of %s' % t.s)
        if t.w < 32:   # promoted to int, converted back: wraps
            return v + 1 if op == '+' else v - 1
        return self.arith(op, v, bv(1, v.size()), t)

    def rv_Un(self, e):
        op = e['op']
        if op in ('++post', '--post'):
            lv = self.glv(e['e'])
            v = self.read(lv)
            self.write(lv, self.incdec(v, op[0], e['e']['t']))
            return v
        if op == '&':
            if e['e'].get('k') == 'Ref' and e['e'].get('dk') == 'func': return FnV('func', f=e['e']['f'])
            if e['e'].get('k') == 'Member' and e['e'].get('dk') == 'func': return FnV('func', f=e['e']['f'])
            return Ptr(F(), self.glv(e['e']))
        v = self.rv(e['e'])
        if op == '!': return z3.Not(v)
        if op == '-': return self.arith('-', bv(0, v.size()), v, e['t'])
        if op == '~': return ~v
        if op == '+': return v
        raise Unsupported('operator %s' % op)

    def rv_Cond(self, e):
        c = simp(self.cond(e['c']))
        if z3.is_true(c): return self.rv(e['a'])
        if z3.is_false(c): return self.rv(e['b'])
        if e['t'].k in ('int', 'bool', 'enum') and self.pure(e['a']) and self.pure(e['b']):
            st = self.st
            saved = list(st.pc)
            st.pc.append(c); a = self.rv(e['a'])
            st.pc = saved + [z3.Not(c)]; b = self.rv(e['b'])
            st.pc = saved
            return ite(c, a, b)
        return self.rv(e['a']) if self.branch(c) else self.rv(e['b'])

    def lv_Cond(self, e):
        return self.glv(e['a']) if self.branch(self.cond(e['c'])) else self.glv(e['b'])

    def rv_InitList(self, e):
        t = e['t']
        if t.k == 'rec' and t.n in self.prog.records:
            f = {}
            fs = self.fields(t.n)
            vals = []
            for x, d in zip(e['e'], fs):
                lv = self.alloc(None); self.into(x, lv); vals.append(self.read(lv))
            for d, v in zip(fs, vals): f[d['n']] = v
            for d in fs[len(vals):]: f[d['n']] = self.default(d['t'], True)
            return SV(t.n, f)
        if t.k in ('int', 'bool', 'enum', 'ptr'):
            return self.rv(e['e'][0]) if e['e'] else self.default(t, True)
        if t.k == 'arr' or (t.k == 'rec' and t.base == 'std::initializer_list'):
            vs = [self.rv(x) for x in e['e']]
            return self.listvec(t.to if t.k == 'arr' else t.ta[0], vs, t.len if t.k == 'arr' else None)
        if t.k == 'rec' and t.base == 'std::pair': return SV('std::pair', dict(zip(('first', 'second'), [self.rv(x) for x in e['e']])))
        if t.k == 'rec' and t.base == 'std::array' and not e['e']: return self.fresh(t, 'zero')
        h = self.libtable.get('initlist ' + (t.base or ''))
        if h: return h(self, e)
        if not e['e']: return self.default(t, True)
        raise Unsupported('initialiser list for %s' % t.s)

    def listvec(self, ety, vs, n=None):
        z = self.default(ety, True) if ety.k in ('int', 'bool', 'enum') and not vs else None
        def at(i):
            r = vs[-1] if vs else z
            for k in range(len(vs) - 2, -1, -1): r = ite(i == bv(k), vs[k], r)
            return r
        return Vec(ety, bv(n if n is not None else len(vs)), at)

    def rv_ArrayCopy(self, e): return self.rv(e['e'])

    def lv_Subscript(self, e):
        b = self.rv(e['b']); i = self.rv(e['i'])
        if isinstance(b, Ptr) and isinstance(b.tgt, LV) and b.tgt.path and isinstance(b.tgt.path[-1], tuple) and b.tgt.path[-1][0] == 'i':
            i64 = self.conv(i, e['i']['t'], self.u64)
            base = LV(b.tgt.cell, b.tgt.path[:-1]); off = b.tgt.path[-1][1]
            v = self.read(base)
            self.oblige(z3.ULT(off + i64, v.n), 'array index in bounds')
            return base.sub(('i', simp(off + i64)))
        h = self.libtable.get('subscript')
        if h: return h(self, e, b, i)
        raise Unsupported('subscript')

    @property
    def u64(self):
        t = A.Ty()
        for a in A.Ty.__slots__: setattr(t, a, None)
        t.k, t.w, t.u, t.s = 'int', 64, True, 'unsigned long'
        return t

    def rv_Throw(self, e):
        if e['e'] is None:
            c = self.st.ghost.get('curexc')
            if c is None: raise Unsupported('rethrow')
            raise ThrowX(c)
        raise ThrowX(self.rv(e['e']))

    def rv_Typeid(self, e):
        t = e.get('ty') or e['e']['t']
        if e.get('e') is not None:
            if e['e']['t'].n not in self.exc_classes(): raise Unsupported('typeid of an object whose dynamic class is not known')
            self.discard(e['e'])   # the exception classes are not polymorphic: the static class is the class
        return Opaque('typeid', t=t.s)
    def lv_Typeid(self, e): return self.alloc(self.rv_Typeid(e))

    def rv_Lambda(self, e):
        fr = self.st.frames[-1]
        caps = {}; this = None
        for c in e['caps']:
            if c.get('this'):
                if c['this'] != 'ptr': raise Unsupported('capture of *this by value')
                this = fr.this
            elif c.get('byref'): caps[c['id']] = ('ref', self.glv(c['init']) if c.get('init') else fr.vars[c['id']])
            else:
                if c.get('init') is not None:
                    lv = self.alloc(None); self.into(c['init'], lv); v = self.read(lv)
                else: v = self.read(fr.vars[c['id']])
                caps[c['id']] = ('val', v)
        return FnV('lambda', node=e, caps=caps, this=this, fn=e.get('fn'), specs=e.get('specs'))

    def lv_Lambda(self, e): return self.alloc(self.rv_Lambda(e))

    def rv_New(self, e):
        if not e['pl']: return self.heap(e)
        if len(e['pl']) != 1: raise Unsupported('new expression')
        p = self.rv(e['pl'][0])
        if not isinstance(p, Ptr) or not isinstance(p.tgt, LV): raise Unsupported('placement new at %r' % (p,))
        lv = p.tgt
        self.activate(lv)
        if e.get('init') is not None: self.into(e['init'], lv)
        else: self.write(lv, self.default(e['at']))
        return Ptr(F(), lv)

    def heap(self, e):
        """A new object; who takes it is up to the smart pointer constructors."""
        t = e['at']; i = e.get('init')
        lv = self.alloc(None)
        c = self.contracts.get('make_shared ' + (t.base or ''))
        if c and i is not None and i['k'] == 'Construct':
            self.used_contracts.add('make_shared ' + t.base)
            args = self.args(i['f'], i['args'])
            p = c(self, t, args, [q.to if q.k == 'ref' else q for q in i['f'].ps], lv)
            return self.unowned(Ptr(p.null, p.tgt))
        if i is not None: self.into(i, lv)
        else: self.write(lv, self.default(t))
        return self.unowned(Ptr(F(), lv))

    def unowned(self, p):
        self.st.ghost = dict(self.st.ghost); self.st.ghost[('heap', str(p.tgt))] = True
        return p

    def takeover(self, p):
        """A smart pointer takes the object at p, which has to be a new one that nothing owns."""
        if not self.st.ghost.get(('heap', str(p.tgt))): raise Unsupported('ownership of %r' % (p,))
        self.st.ghost = dict(self.st.ghost); del self.st.ghost[('heap', str(p.tgt))]
        return p.tgt

    def activate(self, lv):
        """A member starts its life; the other members of the same anonymous union end theirs."""
        if not lv.path or not isinstance(lv.path[-1], str): return
        o = self.read(LV(lv.cell, lv.path[:-1]))
        if not isinstance(o, SV): return
        f = dict(o.f); f[lv.path[-1]] = None
        for n, r in self.prog.records.items():
            if n.startswith(o.cls + '::(anonymous union') and any(x['n'] == lv.path[-1] for x in r['fields']):
                for x in r['fields']:
                    if x['n'] != lv.path[-1]: f.pop(x['n'], None)
        self.write(LV(lv.cell, lv.path[:-1]), SV(o.cls, f))

    def rv_PseudoDtor(self, e):
        self.st.log.append(('destroy', self.glv(e['b']).key()[1]))
    def rv_Delete(self, e): raise Unsupported('delete expression')

    # ---- calls
    def args(self, f, nodes):
        out = []
        for i, a in enumerate(nodes):
            t = f.ps[i] if i < len(f.ps) else None
            if t is not None and t.k == 'ref':
                out.append(self.glv(a))
            else:
                lv = self.alloc(None); self.into(a, lv); out.append(self.read(lv))
        return out

    def result(self, f, r):
        return r

    def rv_Call(self, e): return self.asvalue(e, self.docall(e))
    def rv_MCall(self, e): return self.asvalue(e, self.domcall(e))
    def rv_OpCall(self, e): return self.asvalue(e, self.doopcall(e))
    def lv_Call(self, e): return self.aslv(e, self.docall(e))
    def lv_MCall(self, e): return self.aslv(e, self.domcall(e))
    def lv_OpCall(self, e): return self.aslv(e, self.doopcall(e))

    def asvalue(self, e, r):
        if isinstance(r, LV): return self.read(r)
        return r

    def aslv(self, e, r):
        if isinstance(r, LV): return r
        return self.alloc(r)

    def docall(self, e):
        if 'f' not in e or e['f'] is None:
            fv = self.rv(e['fe'])
            if isinstance(fv, FnV): return self.callfn(fv, [self.glv(a) if a['vk'] != 'p' else self.alloc(self.rv(a)) for a in e['args']])
            raise Unsupported('call through %r' % (fv,))
        f = e['f']
        return self.call(f, None, self.args(f, e['args']), e)

    def domcall(self, e):
        f = e['f']
        o = self.objlv(e['obj'], e.get('arrow'))
        return self.call(f, o, self.args(f, e['args']), e, nonvirt=e.get('nonvirt'))

    def doopcall(self, e):
        f = e.get('f')
        if f is None: raise Unsupported('operator call')
        if f.cls is not None and not f.static:   # member operator
            o = self.objlv(e['args'][0], False)
            return self.call(f, o, self.args(f, e['args'][1:]), e)
        return self.call(f, None, self.args(f, e['args']), e)

    def call(self, f, this, args, e=None, nonvirt=False):
        m = f.m
        key = stripq(f.q)
        if this is not None:
            obj = self.read(this)
            if isinstance(obj, FnV) and f.n == 'operator()': return self.callfn(obj, args)
            if isinstance(obj, ExtV):
                return self.callext(f, obj, this, args, e)
            if isinstance(obj, SV) and f.virt and not nonvirt:
                m2 = self.prog.final_overrider(obj.cls, m)
                if m2 != m:
                    g = self.prog.funcs.get(m2)
                    if g is None:
                        for mm in self.prog.records[obj.cls]['methods']:
                            if mm.m == m2: g = mm
                    if g is None: raise Unsupported('virtual call to %s' % m2)
                    f, m, key = g, m2, stripq(g.q)
        if f.n.startswith('~') and this is not None:
            self.st.log.append(('destroy', this.key()[1])); return None
        c = self.contract_for(f, key)
        if c is not None and (m not in self.no_contract):
            self.used_contracts.add(key)
            return c(self, f, this, args, e)
        d = self.prog.funcs.get(m)
        h = self.libtable.get(key)
        if h is not None and (d is None or key in self.force_lib):
            self.libused.add(key)
            return h(self, f, this, args, e)
        if d is not None and d.body is not None: return self.inline(d, this, args)
        if f.defaulted and f.assign and this is not None:
            self.write(this, self.read(args[0]))
            return this
        raise Unsupported('call of %s' % f.q)

    onopaque = None
    force_lib = set()
    real_exc = False

    def contract_for(self, f, key): return self.contracts.get(key)

    def callext(self, f, obj, this, args, e):
        key = stripq(f.q)
        c = self.contract_for(f, 'ext ' + key)
        if c is not None:
            self.used_contracts.add('ext ' + key)
            return c(self, f, this, args, e)
        h = self.libtable.get('ext ' + key) or self.libtable.get(key)
        if h is not None:
            self.libused.add(key)
            return h(self, f, this, args, e)
        raise Unsupported('call of %s on an external object' % f.q)

    def inline(self, d, this, args, caps=None):
        if len(self.st.frames) > 60: raise Unsupported('recursion in %s' % d.q)
        self.inlined.add(stripq(d.q))
        fr = Frame({}, this, d)
        if caps: fr.vars.update(caps)
        for p, a in zip(d.params, args):
            if p['t'].k == 'ref':
                fr.vars[p['id']] = a if isinstance(a, LV) else self.alloc(a)
            else:
                fr.vars[p['id']] = self.alloc(self.read(a) if isinstance(a, LV) else a)
        n = len(self.st.frames)
        self.st.frames.append(fr)
        saveline = self.line
        try:
            self.ex(d.body)
            r = None
        except RetX as x:
            r = x.v
        except ThrowX:
            del self.st.frames[n:]
            raise
        del self.st.frames[n:]
        self.line = saveline
        return r

    def callfn(self, fn, args):
        if fn.kind == 'lambda':
            f = fn.fn
            if f is None:
                if not fn.specs or len(fn.specs) != 1: raise Unsupported('generic lambda')
                f = fn.specs[0]
            caps = {i: (v if k == 'ref' else self.alloc(v)) for i, (k, v) in fn.caps.items()}
            return self.inline(f, fn.this, args, caps)
        if fn.kind == 'spec': return fn.run(self, args)
        if fn.kind == 'func':
            f = fn.f
            if f.cls is not None and not f.static: return self.call(f, args[0], args[1:])
            return self.call(f, None, args)
        if fn.kind == 'bind': return self.libtable['callbind'](self, fn, args)
        if fn.kind == 'wrap': return self.callfn(fn.inner, args)
        if fn.kind == 'opaque':
            self.st.log.append(('call', fn.id) + tuple(self.read(a) if isinstance(a, LV) else a for a in args))
            if self.onopaque: self.onopaque(self, fn)
            rt = fn.fty.ret if getattr(fn, 'fty', None) is not None else None
            if rt is None or rt.k == 'void': return None
            return self.fresh(rt, 'callres')
        if fn.kind == 'null': raise Unsupported('call of an empty function')
        raise Unsupported('call of a %s' % fn.kind)

    # ---- construction
    def rv_Construct(self, e):
        lv = self.alloc(None)
        self.construct(e, lv)
        return self.read(lv)

    def lv_Construct(self, e):
        lv = self.alloc(None)
        self.construct(e, lv)
        return lv

    def construct(self, e, lv):
        f = e['f']; t = e['t']
        if t.k == 'arr':
            self.write(lv, self.default(t, e.get('zero'))); return
        args = self.args(f, e['args'])
        self.ctor(f, t, lv, args, e)

    def ctor(self, f, t, lv, args, e=None):
        key = stripq(f.q)
        c = self.contract_for(f, key)
        if c is not None and f.m not in self.no_contract:
            self.used_contracts.add(key)
            v = c(self, f, lv, args, e)
            if v is not None: self.write(lv, v)
            return
        d = self.prog.funcs.get(f.m)
        base = t.base or ''
        if f.ctor in ('copy', 'move') and (f.defaulted or d is None) and len(args) >= 1:
            src = args[0]
            v = self.read(src) if isinstance(src, LV) else src
            h = self.libtable.get('copy ' + base)
            if h: v = h(self, v)
            self.write(lv, v)
            if f.ctor == 'move' and isinstance(src, LV): self.moved(src, t)
            return
        h = self.libtable.get('ctor ' + base)
        if h is not None:
            self.libused.add('ctor ' + base)
            v = h(self, f, t, args, e, lv)
            if v is not None: self.write(lv, v)
            return
        if t.base in self.exc_classes() and not self.real_exc:
            mt = args[0] if t.base.endswith('::ModbusException') else None
            if isinstance(mt, LV): mt = self.read(mt)
            if mt is not None and not isz(mt): raise Unsupported('ModbusException built from %r' % (mt,))
            self.write(lv, ExcV(bv(self.exctag(t.base), 8), mt if mt is not None else self.fconst(z3.BitVecSort(32), 'nomtype'), self.ident('exc')))
            return
        if d is not None:
            self.write(lv, SV(t.n, {}))
            self.runctor(d, lv)(args)
            return
        if f.ctor == 'default' or (f.defaulted and not args):
            self.write(lv, self.default(t, bool(e and e.get('zero'))))
            return
        raise Unsupported('constructor %s' % f.q)

    def moved(self, src, t):
        b = t.base
        old = self.read(src)
        if b in ('std::unique_ptr',): self.write(src, UPtr(T(), None))
        elif b in ('std::shared_ptr',): self.write(src, ShPtr(T(), None))
        elif b == 'std::weak_ptr': self.write(src, WkPtr(T(), None))
        elif b == 'std::function': self.write(src, FnV('moved'))
        elif isinstance(old, SV):
            for n, p in list(old.f.items()):
                ft = [x['t'] for x in self.fields(old.cls) if x['n'] == n] if old.cls in self.prog.records else []
                if ft: self.moved(src.sub(n), ft[0])
        elif isinstance(old, (Vec, StrV)): 
            if isinstance(old, Vec): self.write(src, Vec(old.ety, bv(0), old.at))
            else: self.write(src, StrV(self.fconst(StrSort, 'movedstr')))

    def runctor(self, d, lv):
        """The constructor body: bases and members in order, then the body."""
        def go(args):
            self.inlined.add(stripq(d.q))
            fr = Frame({}, lv, d)
            for p, a in zip(d.params, args):
                fr.vars[p['id']] = (a if isinstance(a, LV) else self.alloc(a)) if p['t'].k == 'ref' else self.alloc(self.read(a) if isinstance(a, LV) else a)
            n = len(self.st.frames)
            self.st.frames.append(fr)
            cls = d.cls.n
            inited = set()
            for i in d.inits or ():
                if i.get('delegating'):
                    self.into(i['init'], lv); inited = None; break
                if 'base' in i:
                    self.baseinit(i['init'], lv)
                    continue
                if i['field'] == '' : continue
                self.memberinit(i, lv)
                inited.add(i['field'])
            if inited is not None:
                for x in self.prog.records[cls]['fields']:
                    if x['n'] and x['n'] not in inited: self.write(lv.sub(x['n']), self.rv(x['init']) if x['init'] is not None else self.default(x['t']))
            try:
                if d.body is not None: self.ex(d.body)
            except RetX: pass
            except ThrowX:
                del self.st.frames[n:]
                raise
            del self.st.frames[n:]
        return go

    def memberinit(self, i, lv):
        tmp = lv.sub(i['field'])
        o = self.read(lv)
        if isinstance(o, SV) and i['field'] not in o.f: self.activate(tmp)
        self.into(i['init'], tmp)

    def baseinit(self, e, lv):
        if e['k'] == 'Construct':
            f = e['f']
            d = self.prog.funcs.get(f.m)
            if d is not None:
                args = self.args(f, e['args'])
                self.runctor(d, lv)(args)
                return
            bt = e['t']
            if bt.n in self.prog.records:
                o = self.read(lv)
                for x in self.fields(bt.n):
                    if f.ctor in ('copy', 'move'): raise Unsupported('copying a base')
                    if x['n'] not in self.read(lv).f: self.write(lv, self.read(lv).with_part(x['n'], self.default(x['t'])))
                return
            return   # library base without state (enable_shared_from_this, exception)
        if e['k'] in ('InitList', 'ZeroInit'): return
        raise Unsupported('base initialiser %s' % e['k'])
