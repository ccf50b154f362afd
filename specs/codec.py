"""C03-C06, C23: the encoding and decoding of the eight requests and responses and of the exception response.

The oracle is the Modbus application protocol written as functions: bytes(message) = (length, byte at each index), and the
decoding of a byte string. Messages are built by the real constructors, so private fields play no role."""
from .common import *

B8 = lambda x: bv(x, 8)
def hi(x): return z3.Extract(15, 8, x)
def lo(x): return z3.Extract(7, 0, x)
def w16(x): return z3.ZeroExt(48, x)
def cat(h, l): return z3.Concat(h, l)


def sel(i, bs, rest):
    """bytes bs[0], bs[1], ... then rest(i - len(bs))"""
    r = rest(simp(i - len(bs))) if rest else B8(0)
    for k in range(len(bs) - 1, -1, -1): r = z3.If(i == bv(k), bs[k], r)
    return r


def packed(n, bit):
    """Byte i of n bits packed least significant bit first, zero padded."""
    def at(i):
        bits = []
        for b in range(7, -1, -1):
            j = simp((i << 3) + b)
            bits.append(z3.If(z3.And(z3.ULT(j, n), bit(j)), bv(1, 1), bv(0, 1)))
        return z3.Concat(*bits)
    return at


def regbytes(reg):
    """Byte i of 16-bit values sent high byte first."""
    return lambda i: z3.If(z3.Extract(0, 0, i) == bv(0, 1), hi(reg(z3.LShR(i, 1))), lo(reg(z3.LShR(i, 1))))


def bytes_of_bits(n): return simp(z3.LShR(n + 7, 3))


class Msg:
    """One of the eight functions. fc: function code; kind: rb, rr, wc, wr, wcs, wrs."""
    def __init__(self, name, fc, kind):
        self.name, self.fc, self.kind = name, fc, kind
        self.req, self.resp = 'modbus::%sRequest' % name, 'modbus::%sResponse' % name
        if kind in ('rb', 'rr'):
            t = {'rb': 'Bits', 'rr': 'Registers'}[kind]
            self.reqimpl = 'modbus::Read%sRequestImpl<%d, modbus::%sRequest>' % (t, fc, name)
            self.respimpl = 'modbus::Read%sResponseImpl<%d, modbus::%sRequest, modbus::%sResponse>' % (t, fc, name, name)
        else: self.reqimpl, self.respimpl = 'modbus::%sRequestImpl' % name, 'modbus::%sResponseImpl' % name
        self.qty = {'rb': 'qty_of_bits', 'rr': 'qty_of_registers', 'wcs': 'qty_of_coils', 'wrs': 'qty_of_registers'}.get(kind)
        self.max = {'rb': 2000, 'rr': 125, 'wcs': 1968, 'wrs': 123}.get(kind)
        self.elt = 'modbus::SingleBitValue' if kind in ('rb', 'wc') else 'modbus::RegisterValue'

    # ---- requests
    def request_limits(self, E, v, strict):
        """Values within the protocol limits (strict: valid requests, else also the empty ones)."""
        if self.kind in ('wcs', 'wrs'):
            n = v.f['values'].n
            return z3.And(z3.ULE(n, self.max), n != 0) if strict else z3.ULE(n, self.max)
        if self.kind in ('rb', 'rr') and strict: return z3.And(v.f[self.qty] != 0, z3.ULE(v.f[self.qty], self.max))
        return T()

    def request_valid(self, v):
        if self.kind in ('wcs', 'wrs'): return z3.And(v.f['values'].n != 0, z3.ULE(v.f['values'].n, self.max))
        if self.kind in ('rb', 'rr'): return z3.And(v.f[self.qty] != 0, z3.ULE(v.f[self.qty], self.max))
        return T()

    def request_bytes(self, v):
        k = self.kind; fc = B8(self.fc)
        if k in ('rb', 'rr'):
            a, q = v.f['starting_address'], v.f[self.qty]
            return bv(5), lambda i: sel(i, [fc, hi(a), lo(a), hi(q), lo(q)], None)
        if k in ('wc', 'wr'):
            x = v.f['value']; a, y = x.f['address'], x.f['value']
            if k == 'wc': y = z3.If(y, bv(0xFF00, 16), bv(0, 16))
            return bv(5), lambda i: sel(i, [fc, hi(a), lo(a), hi(y), lo(y)], None)
        a, vs = v.f['starting_address'], v.f['values']
        n16 = z3.Extract(15, 0, vs.n)
        nb = bytes_of_bits(vs.n) if k == 'wcs' else simp(vs.n << 1)
        data = packed(vs.n, vs.at) if k == 'wcs' else regbytes(vs.at)
        return simp(nb + 6), lambda i: sel(i, [fc, hi(a), lo(a), hi(n16), lo(n16), z3.Extract(7, 0, nb)], data)

    def parse_request(self, E, L, byte):
        """The request decoded from a PDU: ('ok', value), 'idv', 'malformed' or 'either'."""
        k = self.kind
        if E.branch(z3.Or(L == 0, byte(bv(0)) != B8(self.fc))): return 'malformed'
        a = cat(byte(bv(1)), byte(bv(2))); x = cat(byte(bv(3)), byte(bv(4)))
        if k not in ('wcs', 'wrs'):
            if E.branch(L != 5): return 'malformed'
            if k in ('rb', 'rr'):
                if E.branch(z3.Or(x == 0, z3.UGT(x, self.max))): return 'idv'
                return 'ok', SV(self.req, {'starting_address': a, self.qty: x})
            if k == 'wc' and E.branch(z3.And(x != 0, x != bv(0xFF00, 16))): return 'idv'
            return 'ok', SV(self.req, {'value': SV(self.elt, {'address': a, 'value': x == bv(0xFF00, 16) if k == 'wc' else x})})
        if E.branch(z3.ULT(L, 6)): return 'malformed'
        bc = zx(byte(bv(5))); n = w16(x)
        nb = bytes_of_bits(n) if k == 'wcs' else simp(n << 1)
        bad = z3.Or(x == 0, z3.UGT(x, self.max), bc != nb)
        if E.branch(bad): return 'idv' if E.branch(L == bc + 6) else 'either'
        if E.branch(L != nb + 6): return 'malformed'
        if k == 'wcs': el = lambda j: z3.Extract(0, 0, z3.LShR(byte(simp(z3.LShR(j, 3) + 6)), z3.Extract(7, 0, j & 7))) == bv(1, 1)
        else: el = lambda j: cat(byte(simp((j << 1) + 6)), byte(simp((j << 1) + 7)))
        vt = rec_field(E, self.req, 'values')
        return 'ok', SV(self.req, {'starting_address': a, 'values': Vec(vt.ta[0], n, el)})

    # ---- responses
    def response_limits(self, v):
        if self.kind in ('rb', 'rr'): return z3.ULE(v.f['values'].n, self.max)
        return T()

    def response_bytes(self, v):
        k = self.kind; fc = B8(self.fc)
        if k in ('rb', 'rr'):
            vs = v.f['values']
            nb = bytes_of_bits(vs.n) if k == 'rb' else simp(vs.n << 1)
            el = lambda j: vs.at(j).f['value']
            data = packed(vs.n, el) if k == 'rb' else regbytes(el)
            return simp(nb + 2), lambda i: sel(i, [fc, z3.Extract(7, 0, nb)], data)
        if k in ('wc', 'wr'):
            x = v.f['value']; a, y = x.f['address'], x.f['value']
            if k == 'wc': y = z3.If(y, bv(0xFF00, 16), bv(0, 16))
        else: a, y = v.f['starting_address'], v.f[self.qty]
        return bv(5), lambda i: sel(i, [fc, hi(a), lo(a), hi(y), lo(y)], None)

    def parse_response(self, E, req, L, byte):
        k = self.kind
        if E.branch(L == 0): return 'malformed'
        if E.branch(byte(bv(0)) == B8(self.fc | 0x80)):
            if E.branch(L == 2): return 'modbus', parse_type(E, byte(bv(1)))
            return 'malformed'
        if E.branch(byte(bv(0)) != B8(self.fc)): return 'malformed'
        if k in ('rb', 'rr'):
            q = w16(req.f[self.qty])
            nb = bytes_of_bits(q) if k == 'rb' else simp(q << 1)
            if E.branch(z3.Or(z3.ULT(L, 2), zx(byte(bv(1))) != nb, L != nb + 2)): return 'malformed'
            a = req.f['starting_address']
            if k == 'rb': el = lambda j: z3.Extract(0, 0, z3.LShR(byte(simp(z3.LShR(j, 3) + 2)), z3.Extract(7, 0, j & 7))) == bv(1, 1)
            else: el = lambda j: cat(byte(simp((j << 1) + 2)), byte(simp((j << 1) + 3)))
            vt = rec_field(E, self.resp, 'values')
            return 'ok', SV(self.resp, {'values': Vec(vt.ta[0], q, lambda j: SV(self.elt, {'address': simp(a + z3.Extract(15, 0, j)), 'value': el(j)}))})
        if E.branch(L != 5): return 'malformed'
        a = cat(byte(bv(1)), byte(bv(2))); x = cat(byte(bv(3)), byte(bv(4)))
        if k == 'wc' and E.branch(z3.And(x != 0, x != bv(0xFF00, 16))): return 'malformed'
        if k in ('wc', 'wr'): return 'ok', SV(self.resp, {'value': SV(self.elt, {'address': a, 'value': x == bv(0xFF00, 16) if k == 'wc' else x})})
        return 'ok', SV(self.resp, {'starting_address': a, self.qty: x})


MSGS = [Msg('ReadCoils', 1, 'rb'), Msg('ReadDiscreteInputs', 2, 'rb'), Msg('ReadHoldingRegisters', 3, 'rr'), Msg('ReadInputRegisters', 4, 'rr'),
        Msg('WriteSingleCoil', 5, 'wc'), Msg('WriteSingleRegister', 6, 'wr'), Msg('WriteMultipleCoils', 15, 'wcs'), Msg('WriteMultipleRegisters', 16, 'wrs')]

CODES = [('IllegalFunction', 1), ('IllegalDataAddress', 2), ('IllegalDataValue', 3), ('ServerDeviceFailure', 4), ('Acknowledge', 5), ('ServerDeviceBusy', 6),
         ('MemoryParityError', 8), ('GatewayPathUnavailable', 10), ('GatewayTargetDeviceFailedToRespond', 11)]


def parse_type(E, b):
    r = enumv(E, 'Unknown')
    for n, c in CODES: r = z3.If(b == B8(c), enumv(E, n), r)
    return r


def rec_field(E, cls, name):
    for f in E.fields(cls):
        if f['n'] == name: return f['t']
    raise Unsupported('no field %s in %s' % (name, cls))


MAL_REQ = 'modbus::MalformedModbusRequestException'
MAL_RESP = 'modbus::MalformedModbusResponseException'
MODBUS = 'modbus::ModbusException'


def expected(E, vty, r, mal):
    """The Expected that stands for a decoding result."""
    if r == 'malformed': return fail(E, vty, exc(E, mal))
    if r in ('idv', 'either'): return fail(E, vty, exc(E, MODBUS, enumv(E, 'IllegalDataValue')))
    if r[0] == 'modbus': return fail(E, vty, exc(E, MODBUS, r[1]))
    E.spechints.append(r[1])
    return good(E, vty, r[1])


# ---- building
def outbuf(E, L, slack=True):
    """A buffer view with room for L bytes."""
    w = E.fresh(E.prog.types['class ser4cpp::wseq_t'] if 'class ser4cpp::wseq_t' in E.prog.types else find_type(E, 'ser4cpp::wseq_t'), 'out')
    E.assume(z3.And(z3.UGE(w.n, L), z3.ULE(w.n, bv(1 << 20))))
    b = E.read(w.buf)
    E.assume(z3.And(z3.ULE(w.off + w.n, b.n), z3.ULE(w.off, b.n)))
    return E.alloc(w)


def find_type(E, n):
    for t in E.prog.types.values():
        if t.k == 'rec' and (t.n == n or t.base == n): return t
    raise Unsupported('no type %s' % n)


def write_bytes(E, wlv, L, byte):
    """The contract of build_message: the bytes at the start of the view, which then starts behind them."""
    w = E.read(wlv); b = E.read(w.buf); at = b.at; off = w.off
    E.write(w.buf, b.with_part('at', lambda i: z3.If(z3.ULT(i - off, L), byte(simp(i - off)), at(i))))
    E.write(wlv, Wseq(w.buf, simp(off + L), simp(w.n - L)))


def message(E, cls, vcls, arg=None, name='m'):
    """A message object built by its constructor from an arbitrary value."""
    v = arg if arg is not None else E.fresh(rec(E, vcls), name)
    return E.newobject(cls, [v]), v


def build_unit(prop, cls, vcls, limits, enc, tag, clone):
    nm = tag + (' (clone)' if clone else '') + '::build_message'
    @unit(prop, nm, 'codec', slow=2)
    def _(E):
        f = method(E, cls, 'build_message'); g = method(E, cls, 'get_message_length'); c = method(E, cls, 'clone')
        def setup(E):
            v = E.fresh(rec(E, vcls), 'm')
            E.assume(limits(E, v))
            obj = E.newobject(cls, [v])
            if clone:
                p = E.call_body(c, obj, [])
                E.oblige(z3.Not(p.null), nm + ': a clone exists')
                obj = E.alloc(p.val)
            L, byte = enc(E, v)
            return dict(this=obj, v=v, out=outbuf(E, L))
        def spec(E, x):
            L, byte = enc(E, x['v'])
            write_bytes(E, x['out'], L, byte)
            return L
        def body(E, x):
            n = E.call_body(g, x['this'], [])
            E.call_body(f, x['this'], [x['out']])
            return n
        return E.against(nm, setup, spec, body, keep=())


def valid_unit(m):
    @unit('C03 C12 C13 C19', m.reqimpl + '::is_valid', 'codec')
    def _(E):
        f = method(E, m.reqimpl, 'is_valid')
        def setup(E):
            obj, v = message(E, m.reqimpl, m.req)
            return dict(this=obj, v=v)
        return E.against(m.reqimpl + '::is_valid', setup, lambda E, x: m.request_valid(x['v']), lambda E, x: E.call_body(f, x['this'], []), keep=())


def data_view(E):
    """Any byte string."""
    d = E.fresh(find_type(E, 'ser4cpp::rseq_t'), 'pdu')
    b = E.read(d.buf)
    E.assume(z3.And(z3.ULE(d.off + d.n, b.n), z3.ULE(d.off, b.n)))
    return E.alloc(d), d, (lambda i: E.read(d.buf).at(simp(d.off + i)))


def parse_request_unit(m):
    nm = m.reqimpl + '::parse'
    @unit('C04 C15 C23', nm, 'codec', slow=4)
    def _(E):
        f = method(E, m.reqimpl, 'parse')
        st = {}
        def setup(E):
            lv, d, byte = data_view(E)
            return dict(args=[lv], d=d, byte=byte)
        def spec(E, x):
            r = m.parse_request(E, x['d'].n, x['byte'])
            st['either'] = r == 'either'
            return expected(E, f.ret.ta[0], r, MAL_REQ)
        def result(E, sv, bv_, label):
            if not st['either']: return E.prove_eq(sv, bv_, label)
            E.oblige(z3.Not(bv_.valid), label)
            x, y = sv.exc, bv_.exc
            E.oblige(z3.Or(y.tagv == E.exctag(MAL_REQ), z3.And(y.tagv == x.tagv, y.mtype == x.mtype)), label)
        return E.against(nm, setup, spec, lambda E, x: E.call_body(f, None, x['args']), keep=(), ret=result)


def parse_response_unit(m):
    nm = m.respimpl + '::parse'
    @unit('C06 C19 C23', nm, 'codec', slow=4)
    def _(E):
        f = method(E, m.respimpl, 'parse')
        def setup(E):
            req, v = message(E, m.reqimpl, m.req)
            lv, d, byte = data_view(E)
            return dict(args=[req, lv], d=d, byte=byte, v=v)
        return E.against(nm, setup, lambda E, x: expected(E, f.ret.ta[0], m.parse_response(E, x['v'], x['d'].n, x['byte']), MAL_RESP),
                         lambda E, x: E.call_body(f, None, x['args']), keep=())


for m in MSGS:
    for clone in (False, True):
        build_unit('C03 C23' if not clone else 'C03 C12 C13', m.reqimpl, m.req, lambda E, v, m=m: m.request_limits(E, v, False), lambda E, v, m=m: m.request_bytes(v), m.reqimpl, clone)
        build_unit('C05 C15 C23' if not clone else 'C05', m.respimpl, m.resp, lambda E, v, m=m: m.response_limits(v), lambda E, v, m=m: m.response_bytes(v), m.respimpl, clone)
    valid_unit(m)
    parse_request_unit(m)
    parse_response_unit(m)


# ---- the exception response
def exc_unit(clone):
    cls = 'modbus::ExceptionResponse'
    nm = cls + (' (clone)' if clone else '') + '::build_message'
    @unit('C05 C07 C15 C23', nm, 'codec')
    def _(E):
        f = method(E, cls, 'build_message'); g = method(E, cls, 'get_message_length'); c = method(E, cls, 'clone')
        def setup(E):
            fc = z3.BitVec('fc', 8); t = z3.BitVec('type', 32)
            E.assume(z3.Or(*[t == enumv(E, n) for n, c_ in CODES]))
            obj = E.newobject(cls, [fc, t])
            if clone:
                p = E.call_body(c, obj, [])
                E.oblige(z3.Not(p.null), nm + ': a clone exists')
                obj = E.alloc(p.val)
            return dict(this=obj, fc=fc, t=t, out=outbuf(E, bv(2)))
        def spec(E, x):
            code = B8(0)
            for n, c_ in CODES: code = z3.If(x['t'] == enumv(E, n), B8(c_), code)
            write_bytes(E, x['out'], bv(2), lambda i: z3.If(i == 0, x['fc'] | 0x80, code))
            return bv(2)
        def body(E, x):
            n = E.call_body(g, x['this'], [])
            E.call_body(f, x['this'], [x['out']])
            return n
        return E.against(nm, setup, spec, body, keep=())
exc_unit(False); exc_unit(True)


# ---- C07
@unit('C07 C06 C23', 'modbus::parse_exception_type', 'codec')
def _(E):
    fs = E.find('modbus::parse_exception_type')
    if len(fs) != 1: raise Unsupported('parse_exception_type')
    f = fs[0]
    def setup(E): return dict(b=z3.BitVec('code', 8))
    return E.against(f.q, setup, lambda E, x: parse_type(E, x['b']), lambda E, x: E.call_body(f, None, [x['b']]), keep=())


@unit('C07 C05 C23', 'the exception types have the codes of the protocol', 'codec')
def _(E):
    def path():
        for n, c in CODES: E.oblige(enumv(E, n) == bv(c, enumv(E, n).size()), '%s has the code %d' % (n, c))
        E.oblige(z3.And(*[enumv(E, 'Unknown') != enumv(E, n) for n, c in CODES]), 'Unknown is none of them')
    return E.unit('modbus::ExceptionType', path)


# ---- C23: round trips, lemmas over the contracts above
def roundtrip(m, what):
    @unit('C23', 'round trip of %s %s' % (m.name, what), 'codec', slow=1)
    def _(E):
        nm = 'decoding the encoding of a %s %s' % (m.name, what)
        def path():
            v = E.fresh(rec(E, m.req if what == 'request' else m.resp), 'm')
            if what == 'request':
                E.assume(m.request_valid(v))
                L, byte = m.request_bytes(v)
                r = m.parse_request(E, L, byte)
            else:
                q = E.fresh(rec(E, m.req), 'q')
                E.assume(m.request_valid(q))
                if m.kind in ('rb', 'rr'):   # a response that answers the request: its addresses, as many values as asked for
                    vs = v.f['values']
                    E.assume(vs.n == w16(q.f[m.qty]))
                    E.qassume(lambda j: z3.Implies(z3.ULT(j, vs.n), vs.at(j).f['address'] == q.f['starting_address'] + z3.Extract(15, 0, j)), 'addresses')
                L, byte = m.response_bytes(v)
                r = m.parse_response(E, q, L, byte)
            if not isinstance(r, tuple) or r[0] != 'ok':
                E.oblige(F(), nm + ': is rejected (%s)' % (r,)); return
            E.prove_eq(v, r[1], nm)
        return E.unit(nm, path)

for m in MSGS: roundtrip(m, 'request'); roundtrip(m, 'response')


@unit('C23', 'round trip of an exception response', 'codec')
def _(E):
    def path():
        for m in MSGS:
            t = z3.BitVec('type', 32)
            E.assume(z3.Or(*[t == enumv(E, n) for n, c in CODES]))
            code = B8(0)
            for n, c_ in CODES: code = z3.If(t == enumv(E, n), B8(c_), code)
            q = E.fresh(rec(E, m.req), 'q')
            r = m.parse_response(E, q, bv(2), lambda i: z3.If(i == 0, B8(m.fc) | 0x80, code))
            E.oblige(r[1] == t if isinstance(r, tuple) and r[0] == 'modbus' else F(), 'decoding an exception response to %s' % m.name)
    return E.unit('exception response round trip', path)
