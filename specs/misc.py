"""C01 framing, C07 exception types and exceptions, C17 identifiers and endpoints, C22 Expected."""
from .common import *
from .codec import CODES, outbuf, find_type
from vc.lib import Ostream

UID, TID, EP = 'modbus::UnitIdentifier', 'modbus::TransactionIdentifier', 'modbus::Ipv4Endpoint'


def overload(E, q, ptypes):
    """The function of that name whose parameters are of the classes."""
    fs = [f for f in E.find(q) if [stripq(ptype(f, i).n or ptype(f, i).s) for i in range(len(f.ps))] == [stripq(p) for p in ptypes]]
    if len(fs) != 1: raise Unsupported('%d definitions of %s' % (len(fs), q))
    return fs[0]


def streamtext(E, pieces):
    """What was written: text, then numbers as (value, digits) when printed in upper-case hexadecimal with zero padding, else None."""
    out = []; texts = {v: k for k, v in ((k, v) for k, v in E.strs.items())}
    for p in pieces:
        if p[0] == 'str':
            t = [k for k, v in E.strs.items() if v.eq(p[1])]
            if not t: return None
            if out and isinstance(out[-1], str): out[-1] += t[0]
            else: out.append(t[0])
        else:
            fl = p[2]
            fill = fl.get('fill')
            ok = fl.get('base') == 'hex' and fl.get('case') == 'upper' and not fl.get('showbase') and fl.get('adjust') != 'left' and (fill is None or fill == ord('0'))
            if not ok: return None
            out.append((p[1], fl.get('width') or 0, fill == ord('0')))
    return out


def printed(E, cls, v, mk, digits, label):
    f = overload(E, 'modbus::operator<<', ['std::basic_ostream<char>', cls])
    s = E.alloc(Ostream())
    E.call_body(f, None, [s, E.alloc(mk)])
    t = streamtext(E, E.read(s).pieces)
    if t is None or len(t) != 2 or t[0] != '0x' or not isinstance(t[1], tuple) or not t[1][2] or t[1][1] != digits:
        E.oblige(F(), label + ': 0x and the digits'); return
    x = t[1][0]
    E.oblige(zx(x) == zx(v), label + ': the digits are those of the value')


# ---- C17
@unit('C17', UID, 'misc')
def _(E):
    def path():
        a, b = z3.BitVec('a', 8), z3.BitVec('b', 8)
        x, y = E.newobject(UID, [a]), E.newobject(UID, [b])
        get = method(E, UID, 'get_value')
        E.prove_eq(a, E.call_body(get, x, []), 'get_value')
        eq, ne = method(E, UID, 'operator=='), method(E, UID, 'operator!=')
        E.oblige(E.call_body(eq, x, [y]) == (a == b), 'equal exactly when the values are')
        E.oblige(E.call_body(ne, x, [y]) == (a != b), '!= is the negation')
        h = [f for f in E.prog.funcs.values() if f.cls is not None and f.cls.base == 'std::hash' and f.n == 'operator()' and f.body is not None]
        if len(h) != 1: raise Unsupported('hash of unit identifiers')
        hf = E.alloc(SV(h[0].cls.n, {}))
        hx, hy = E.call_body(h[0], hf, [x]), E.call_body(h[0], hf, [y])
        E.oblige(z3.Implies(a == b, hx == hy), 'equal identifiers hash equally')
        d = E.call_body(method(E, UID, 'default_unit_identifier'), None, [])
        E.oblige(E.call_body(get, E.alloc(d), []) == bv(0xFF, 8), 'the default is 0xFF')
        printed(E, UID, a, E.read(x), 2, 'printing')
        E.prove_eq(a, E.call_body(get, x, []), 'unchanged')
    return E.unit(UID, path)


@unit('C17', TID, 'misc')
def _(E):
    def path():
        a, b = z3.BitVec('a', 16), z3.BitVec('b', 16)
        x, y = E.newobject(TID, [a]), E.newobject(TID, [b])
        get = method(E, TID, 'get_value')
        g = lambda lv: E.call_body(get, lv, [])
        E.prove_eq(a, g(x), 'get_value')
        eq, ne = method(E, TID, 'operator=='), method(E, TID, 'operator!=')
        E.oblige(E.call_body(eq, x, [y]) == (a == b), 'equal exactly when the values are')
        E.oblige(E.call_body(ne, x, [y]) == (a != b), '!= is the negation')
        printed(E, TID, a, E.read(x), 4, 'printing')
        r = E.call_body(method(E, TID, 'operator++', lambda f: not f.ps), x, [])
        E.oblige(g(r if isinstance(r, LV) else E.alloc(r)) == a + 1, 'pre-increment returns the new value')
        E.oblige(g(x) == a + 1, 'pre-increment adds one modulo 65536')
        if isinstance(r, LV): E.oblige(z3.BoolVal(r.key() == x.key()), 'pre-increment returns the object itself')
        r = E.call_body(method(E, TID, 'operator++', lambda f: len(f.ps) == 1), y, [bv(0, 32)])
        E.oblige(g(r if isinstance(r, LV) else E.alloc(r)) == b, 'post-increment returns the old value')
        E.oblige(g(y) == b + 1, 'post-increment adds one modulo 65536')
    return E.unit(TID, path)


@unit('C17', EP, 'misc')
def _(E):
    def path():
        h, k = StrV(z3.Const('host1', StrSort)), StrV(z3.Const('host2', StrSort))
        p, q = z3.BitVec('port1', 32), z3.BitVec('port2', 32)
        x, y = E.newobject(EP, [h, p]), E.newobject(EP, [k, q])
        E.prove_eq(h, val(E, E.call_body(method(E, EP, 'get_hostname'), x, [])), 'host name')
        E.prove_eq(p, E.call_body(method(E, EP, 'get_port'), x, []), 'port')
        same = z3.And(h.s == k.s, p == q)
        E.oblige(E.call_body(method(E, EP, 'operator=='), x, [y]) == same, 'equal exactly when host name and port are')
        E.oblige(E.call_body(method(E, EP, 'operator!='), x, [y]) == z3.Not(same), '!= is the negation')
    return E.unit(EP, path)


# ---- C07: descriptions, and the exception that carries them
ET = 'modbus::ExceptionType'

def describe(E, t):
    f = overload(E, 'modbus::operator<<', ['std::basic_ostream<char>', ET])
    s = E.alloc(Ostream())
    E.call_body(f, None, [s, E.alloc(t)])
    r = streamtext(E, E.read(s).pieces)
    if r is None or len(r) != 1 or not isinstance(r[0], str): raise Unsupported('the description of an exception type is not a text')
    return r[0]


@unit('C07', 'operator<<(ExceptionType)', 'misc')
def _(E):
    def path():
        texts = {}
        for n in [n for n, c in CODES] + ['Unknown']: texts[n] = describe(E, enumv(E, n))
        E.oblige(z3.BoolVal(len(set(texts.values())) == len(texts)), 'each exception type has its own description')
        E.oblige(z3.BoolVal(all(texts.values())), 'no description is empty')
        t = z3.BitVec('type', enumv(E, 'Unknown').size())
        E.assume(z3.And(*[t != enumv(E, n) for n in texts]))
        E.oblige(z3.BoolVal(describe(E, t) == texts['Unknown']), 'any other value is described as unknown')
    return E.unit('modbus::operator<<(ExceptionType)', path)


@unit('C07', 'modbus::ModbusException', 'misc')
def _(E):
    E.real_exc = True
    E.force_lib = E.force_lib - {'modbus::ModbusException::get_exception_type'}
    E.libtable = {k: v for k, v in E.libtable.items() if k != 'modbus::ModbusException::get_exception_type'}
    def path():
        for n in [n for n, c in CODES] + ['Unknown']:
            t = enumv(E, n)
            x = E.newobject('modbus::ModbusException', [t])
            E.prove_eq(t, val(E, E.call_body(method(E, 'modbus::ModbusException', 'get_exception_type'), x, [])), 'the type it was created with')
            m = val(E, E.call_body(method(E, 'modbus::IException', 'get_message'), x, []))
            E.prove_eq(E.strlit(describe(E, t)), m, 'the description of that type')
    return E.unit('modbus::ModbusException', path)


# ---- C22
def expected_types(E):
    return sorted(n for n in E.prog.records if n.startswith('modbus::Expected<') and '::(' not in n)

EXC = ['modbus::ConnectionException', 'modbus::MalformedModbusRequestException', 'modbus::MalformedModbusResponseException', 'modbus::ModbusException', 'modbus::TimeoutException']
INVARG = 101


def real_expected(E):
    """Run the code of Expected itself instead of its contract."""
    E.force_lib = {k for k in E.force_lib if not k.startswith('modbus::Expected')}
    E.libtable = {k: v for k, v in E.libtable.items() if not k.startswith('modbus::Expected') and k != 'ctor modbus::Expected'}


class Holder:
    """What an Expected should hold: a value or an exception."""
    def __init__(self, valid, v): self.valid, self.v = valid, v


def observe(E, T, x, h, label):
    """Everything its member functions tell about the Expected at x, against what it should hold."""
    def run(f): return outcome_(E, lambda: E.call_body(f, x, []))
    k, r = run(method(E, T, 'is_valid'))
    E.oblige(r == z3.BoolVal(h.valid) if k == 'ret' else F(), label + ': is_valid')
    for f in [f for f in E.prog.funcs.values() if f.cls is not None and f.cls.n == T and f.body is not None]:
        if f.n == 'get':
            k, r = run(f)
            if h.valid:
                if k != 'ret': E.oblige(F(), label + ': get throws'); continue
                E.prove_eq(h.v, val(E, r), label + ': get returns the value')
            elif k != 'throw': E.oblige(F(), label + ': get does not throw')
            else: E.prove_eq(h.v, r, label + ': get throws the error', excid=True)
        elif f.n == 'has_exception':
            k, r = run(f)
            want = F() if h.valid else E.exc_is(h.v, f.ta[0])
            E.oblige(r == want if k == 'ret' else F(), label + ': %s' % f.q)
        elif f.n == 'get_exception':
            has = h.valid is False and (not f.ta or E.branch(E.exc_is(h.v, f.ta[0])))
            k, r = run(f)
            if has:
                if k != 'ret': E.oblige(F(), label + ': %s throws' % f.q)
                else: E.prove_eq(h.v, val(E, r), label + ': %s returns the error' % f.q, excid=True)
            else: E.oblige(r.tagv == bv(INVARG, 8) if k == 'throw' else F(), label + ': %s throws' % f.q)


def outcome_(E, fn):
    try: return ('ret', fn())
    except RetX as x: return ('ret', x.v)
    except ThrowX as x: return ('throw', x.v)


def anyexc(E, cls=None):
    x = ExcV(z3.BitVec('etag', 8) if cls is None else bv(E.exctag(cls), 8), z3.BitVec('etype', 32), z3.Const('eid', IdSort))
    if cls is None: E.assume(z3.Or([x.tagv == bv(E.exctag(c), 8) for c in E.exc_classes()] + [x.tagv == bv(200, 8)]))
    return x


def build(E, T, how):
    """(location of the Expected, what it should hold) for each way of making one."""
    vt = rec(E, T).ta[0]
    if how in ('copied value', 'moved value'):
        v = E.fresh(vt, 'v')
        src = E.alloc(v)
        ctors = [f for f in E.prog.funcs.values() if f.cls is not None and f.cls.n == T and f.ctor == 'other' and len(f.ps) == 1 and f.ps[0].k == 'ref']
        ctors = [f for f in ctors if bool(f.ps[0].rv) == (how == 'moved value')]
        if len(ctors) != 1: raise Unsupported('%d constructors of %s' % (len(ctors), T))
        lv = E.alloc(None)
        E.ctor(ctors[0], ctors[0].cls, lv, [src])
        if how == 'copied value': E.prove_eq(v, E.read(src), 'the value given is not changed')
        return lv, Holder(True, v)
    if how == 'exception pointer':
        x = anyexc(E)
        r = E.call_body(method(E, T, 'from_exception', lambda f: not f.ta), None, [x])
        return E.alloc(r), Holder(False, x)
    x = anyexc(E, how)
    r = E.call_body(method(E, T, 'from_exception', lambda f: f.ta and f.ta[0].n == how), None, [E.alloc(x)])
    return E.alloc(r), Holder(False, x)


INST = ['modbus::Expected<int>', 'modbus::Expected<std::basic_string<char, std::char_traits<char>, std::allocator<char>>>', 'modbus::Expected<modbus::ReadHoldingRegistersResponse>']
WAYS = ['copied value', 'moved value', 'exception pointer'] + EXC

def expected_unit(T, way):
    @unit('C22', '%s from %s' % (T, way), 'misc')
    def _(E):
        real_expected(E)
        def path():
            x, h = build(E, T, way)
            observe(E, T, x, h, 'built')
            c = E.alloc(None); m = E.alloc(None)
            for lv, kind in ((c, 'copy'), (m, 'move')):
                fs = [f for f in E.prog.funcs.values() if f.cls is not None and f.cls.n == T and f.ctor == kind]
                if len(fs) != 1: raise Unsupported('%s constructor of %s' % (kind, T))
                E.ctor(fs[0], fs[0].cls, lv, [x])
                observe(E, T, lv, h, {'copy': 'copied', 'move': 'moved'}[kind])
                if kind == 'copy': observe(E, T, x, h, 'after being copied')
            n = len(E.st.log)
            d = [f for f in E.prog.funcs.values() if f.cls is not None and f.cls.n == T and f.n.startswith('~')]
            if len(d) != 1: raise Unsupported('destructor of %s' % T)
            E.inline(d[0], c, [])
            ev = [e for e in E.st.log[n:] if e[0] == 'destroy']
            E.oblige(z3.BoolVal(len(ev) == 1 and all(E_active(E, c, e) for e in ev)), 'destruction destroys what it holds, once')
        return E.unit('%s from %s' % (T, way), path)

def E_active(E, lv, ev): return ev[1] and ev[1][-1] in E.read(lv).f

for T_ in INST:
    for w in WAYS: expected_unit(T_, w)


# ---- C01
@unit('C01 C12 C15 C23', 'modbus::MbapMessage::build_message', 'misc')
def _(E):
    f = method(E, 'modbus::MbapMessage', 'build_message')
    L = z3.BitVec('pdu_length', 64); pdu = z3.Function('pdu', BV64, z3.BitVecSort(8))
    def length(E, f, this, a, e): return L
    def build(E, f, this, a, e):
        """Writes its bytes at the start of the view: all of them if they fit, and anything inside the view otherwise."""
        w = E.read(a[0]); b = E.read(w.buf); at, off, n = b.at, w.off, w.n
        E.st.log.append(('build',))
        if E.branch(z3.ULE(L, n)):
            E.write(w.buf, b.with_part('at', lambda i: z3.If(z3.ULT(i - off, L), pdu(simp(i - off)), at(i))))
            E.write(a[0], Wseq(w.buf, simp(off + L), simp(n - L)))
        else:
            junk = z3.Function(E.name('junk'), BV64, z3.BitVecSort(8)); m = z3.BitVec('written', 64)
            E.assume(z3.ULE(m, n))
            E.write(w.buf, b.with_part('at', lambda i: z3.If(z3.ULT(i - off, n), junk(i), at(i))))
            E.write(a[0], Wseq(w.buf, simp(off + m), simp(n - m)))
    E.contracts = {'ext modbus::IMessage::get_message_length': length, 'ext modbus::IMessage::build_message': build}
    def path():
        u, t = z3.BitVec('unit', 8), z3.BitVec('transaction', 16)
        uid, tid = E.newobject(UID, [u]), E.newobject(TID, [t])
        w = E.fresh(find_type(E, 'ser4cpp::wseq_t'), 'buffer')
        b = E.read(w.buf); at0 = b.at
        E.assume(z3.And(z3.ULE(w.n, bv(1 << 20)), z3.ULE(w.off, bv(1 << 20)), z3.ULE(w.off + w.n, b.n)))
        small = E.branch(z3.ULE(L, 253))
        if small: E.assume(z3.UGE(w.n, L + 7))
        wl = E.alloc(w)
        msg = E.alloc(ExtV('modbus::IMessage', z3.Const('message', IdSort)))
        E.spechints = [Buf(b.n, lambda i: pdu(i))]
        E.hints = E.spechints
        r = E.call_body(f, None, [E.read(uid), E.read(tid), msg, wl])
        i = skolem(E, 'ix')
        if not small:
            E.oblige(z3.ULE(r.n, 260), 'a longer PDU never gives a frame of more than 260 bytes')
            E.oblige(z3.Implies(r.n != 0, z3.And(z3.UGE(r.off, w.off), z3.ULE(r.n, w.n), z3.ULE(r.off - w.off, w.n - r.n))) if r.buf is None or r.buf.key() == w.buf.key() else F(), 'the frame lies inside the buffer')
        else:
            if r.buf is None or r.buf.key() != w.buf.key(): raise Unsupported('the frame is not in the buffer given')
            E.oblige(r.n == L + 7, 'the frame is seven bytes longer than the PDU')
            new = E.read(r.buf).at
            n16 = z3.Extract(15, 0, L + 1)
            head = [z3.Extract(15, 8, t), z3.Extract(7, 0, t), bv(0, 8), bv(0, 8), z3.Extract(15, 8, n16), z3.Extract(7, 0, n16), u]
            names = ['transaction identifier, high byte', 'transaction identifier, low byte', 'protocol identifier, high byte', 'protocol identifier, low byte', 'length, high byte', 'length, low byte', 'unit identifier']
            for k, x in enumerate(head): E.oblige(new(simp(r.off + k)) == x, 'header: ' + names[k])
            E.oblige(z3.Implies(z3.ULT(i, L), new(simp(r.off + 7 + i)) == pdu(i)), 'the header is followed by the PDU')
        E.oblige(z3.Implies(z3.Or(z3.ULT(i, w.off), z3.UGE(i - w.off, w.n)), E.read(w.buf).at(i) == at0(i)), 'nothing is written outside the buffer given')
        E.oblige(z3.BoolVal(len([e for e in E.st.log if e[0] == 'build']) == 1), 'the PDU is built once')
    return E.unit(f.q, path)
