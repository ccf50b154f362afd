"""Trusted contracts of asio: what is started is recorded; handlers are run by the proofs, later."""
import z3
from .values import *
from .engine import *
from .interp import Interp
from .lib import L, lib, val, _algo, geneq, forall, SEQ, veq

EC = 'std::error_code'
ECV = z3.Function('error_code', z3.BitVecSort(32), IdSort)
ECB = z3.Function('error_code.error', IdSort, z3.BoolSort())
ECM = z3.Function('error_code.message', IdSort, StrSort)
CTX = z3.Function('executor.context', IdSort, IdSort)
ADDR = z3.Function('address.from_string', StrSort, IdSort)
ADDR_OK = z3.Function('address.valid', StrSort, z3.BoolSort())


class EndpointV(V):
    """An asio endpoint: address and port."""
    parts_ = ('addr', 'port')
    def __init__(self, addr, port): self.addr, self.port = addr, port


class QueryV(V):
    parts_ = ('host', 'service')
    def __init__(self, host, service): self.host, self.service = host, service


# ---- error codes
def fresh_ec(E): return ExtV(EC, E.ident('ec'))
def no_error(E):
    e = ExtV(EC, ECV(bv(0, 32)))
    E.assume(z3.Not(ECB(e.id)))
    return e
L['default ' + EC] = lambda E, t: no_error(E)
def _ecctor(E, f, t, a, e, lv):
    if not a: return no_error(E)
    x = val(E, a[0])
    if isinstance(x, ExtV): return x
    if len(a) == 1 and isz(x):
        x = x if x.size() == 32 else z3.ZeroExt(32 - x.size(), x) if x.size() < 32 else z3.Extract(31, 0, x)
        c = ECV(x)
        E.assume(ECB(c) == (x != 0))
        return ExtV(EC, c)
    raise Unsupported('error_code constructor')
L['ctor ' + EC] = _ecctor
L[EC + '::operator bool'] = lambda E, f, this, a, e: ECB(E.read(this).id)
L[EC + '::message'] = lambda E, f, this, a, e: StrV(ECM(E.read(this).id))
L[EC + '::value'] = lambda E, f, this, a, e: z3.If(ECB(E.read(this).id), bv(1, 32), bv(0, 32))
L[EC + '::clear'] = lambda E, f, this, a, e: E.write(this, no_error(E))
L[EC + '::operator='] = lambda E, f, this, a, e: (E.write(this, _ecctor(E, f, None, a, e, None)), this)[1]
for op, neg in (('==', False), ('!=', True)):
    old = L['std::operator' + op]
    def h(E, f, this, a, e, old=old, neg=neg):
        if this is None and len(a) == 2:
            x, y = val(E, a[0]), val(E, a[1])
            if isinstance(x, ExtV) and isinstance(y, ExtV) and x.cls == y.cls and x.cls in (EC, 'asio::ip::basic_resolver_iterator'): return x.id != y.id if neg else x.id == y.id
        return old(E, f, this, a, e)
    L['std::operator' + op] = h


def outcome_ec(E, a, i, needed=True):
    """A call that reports through an error code given by reference: any outcome."""
    c = fresh_ec(E)
    if needed: E.st.ghost['ecs'] = E.st.ghost.get('ecs', ()) + (c.id,)
    if len(a) > i and isinstance(a[i], LV) and isinstance(E.read(a[i]), ExtV) and E.read(a[i]).cls == EC: E.write(a[i], c)
    return c


# ---- executor, context
for c in ('exe4cpp::StrandExecutor',):
    L[c + '::get_context'] = lambda E, f, this, a, e: ShPtr(F(), ExtV('asio::io_context', CTX(E.read(this).id)))
    L[c + '::wrap'] = lambda E, f, this, a, e: FnV('wrap', inner=val(E, a[0]), ex=E.read(this).id)


L['default asio::io_context'] = lambda E, t: ExtV('asio::io_context', E.ident('context'))
L['ctor asio::io_context'] = lambda E, f, t, a, e, lv: ExtV('asio::io_context', E.ident('context'))


# ---- views
def _buffer(E, f, this, a, e):
    x = val(E, a[0])
    if isinstance(x, (Ptr,)):
        if len(a) != 2: raise Unsupported('asio::buffer of a pointer')
        return L['ctor ser4cpp::rseq_t'](E, f, None, a, e, None)
    if isinstance(x, (Buf, Vec)) and isinstance(a[0], LV):
        n = x.n
        if len(a) > 1:
            k = val(E, a[1]); n = simp(z3.If(z3.ULT(k, n), k, n))
        return Rseq(a[0], bv(0), n)
    raise Unsupported('asio::buffer of %r' % (x,))
L['asio::buffer'] = _buffer
for c in ('asio::const_buffers_1', 'asio::mutable_buffers_1', 'asio::const_buffer', 'asio::mutable_buffer'): L['ctor ' + c] = lambda E, f, t, a, e, lv: val(E, a[0])


# ---- sockets
SOCKS = ('asio::basic_stream_socket', 'asio::basic_socket', 'asio::basic_socket_acceptor')
def fresh_of(cls): return lambda E, f, t, a, e, lv: ExtV(cls, E.ident('net'))
L['ctor asio::basic_stream_socket'] = fresh_of('asio::basic_stream_socket')
L['ctor asio::ip::basic_resolver'] = fresh_of('asio::ip::basic_resolver')
def _acceptor(E, f, t, a, e, lv):
    x = ExtV('asio::basic_socket_acceptor', E.ident('acceptor'))
    E.st.log.append(('listen', val(E, a[1]), x.id))
    return x
L['ctor asio::basic_socket_acceptor'] = _acceptor

def act(name):
    """A synchronous operation on a socket, with or without an error code."""
    def h(E, f, this, a, e):
        E.st.log.append((name, E.read(this).id) + ((val(E, a[0]),) if name == 'sock_bind' else ()))
        r = f.ret
        i = len(a) - 1
        x = outcome_ec(E, a, i, name in ('sock_open', 'sock_bind')) if a else None
        return x if r is not None and r.k == 'rec' else None
    return h
def _isopen(E, f, this, a, e):
    o = E.fconst(z3.BoolSort(), 'is_open')
    E.st.ghost['opens'] = E.st.ghost.get('opens', ()) + (o,)
    return o
for c in SOCKS:
    for n in ('close', 'shutdown', 'cancel', 'open', 'bind', 'listen', 'set_option'): L['%s::%s' % (c, n)] = act('sock_' + n)
    L[c + '::is_open'] = _isopen
    L[c + '::async_read_some'] = L[c + '::async_receive'] = lambda E, f, this, a, e: E.st.log.append(('read', E.read(this).id, val(E, a[0]), val(E, a[1])))
    L[c + '::async_send'] = L[c + '::async_write_some'] = lambda E, f, this, a, e: E.st.log.append(('writesome', E.read(this).id, val(E, a[0]), val(E, a[1])))
    L[c + '::async_accept'] = lambda E, f, this, a, e: E.st.log.append(('accept', E.read(this).id, E.read(a[0]).id, val(E, a[1])))
# what asio::async_send is given may be transmitted in part only; async_write completes when all of it is, or with an error
L['asio::async_write'] = lambda E, f, this, a, e: E.st.log.append(('write', E.read(a[0]).id, val(E, a[1]), val(E, a[2])))
for c in SOCKS: L[c + '::async_connect'] = lambda E, f, this, a, e: E.st.log.append(('connect', E.read(this).id, val(E, a[0]), val(E, a[1])))
# closes the socket and opens it again for each endpoint: whatever it was bound to is lost
L['asio::async_connect'] = lambda E, f, this, a, e: E.st.log.append(('connectall', E.read(a[0]).id, val(E, a[1]), val(E, a[2])))
L['asio::ip::basic_resolver::async_resolve'] = lambda E, f, this, a, e: E.st.log.append(('resolve', E.read(this).id, val(E, a[0]), val(E, a[1])))
L['asio::ip::basic_resolver::cancel'] = act('resolver_cancel')
L['asio::ip::tcp::v4'] = lambda E, f, this, a, e: ExtV('asio::ip::tcp', z3.Const('tcp.v4', IdSort))
ITER, ENTRY = 'asio::ip::basic_resolver_iterator', 'asio::ip::basic_resolver_entry'
ENDPOINTS = z3.Const('endpoints.end', IdSort)
NEXT = z3.Function('endpoints.next', IdSort, IdSort)
L['ctor ' + ITER] = lambda E, f, t, a, e, lv: val(E, a[0]) if a else ExtV(ITER, ENDPOINTS)
L['default ' + ITER] = lambda E, t: ExtV(ITER, ENDPOINTS)
def _entry(E, f, this, a, e):
    x = E.read(this) if this is not None else val(E, a[0])
    E.oblige(x.id != ENDPOINTS, 'iterator dereferenced is not the end')
    return ExtV(ENTRY, x.id)
L[ITER + '::operator*'] = _entry
L[ITER + '::operator->'] = lambda E, f, this, a, e: Ptr(F(), _entry(E, f, this, a, e))
def _next(E, f, this, a, e):
    x = E.read(this)
    E.oblige(x.id != ENDPOINTS, 'iterator advanced is not the end')
    E.write(this, ExtV(ITER, NEXT(x.id)))
    return x if a else this
L[ITER + '::operator++'] = _next
for op, neg in (('==', False), ('!=', True)):
    L['asio::ip::operator' + op] = lambda E, f, this, a, e, op=op: L['std::operator' + op](E, f, this, a, e)
    L[ITER + '::operator' + op] = lambda E, f, this, a, e, neg=neg: (E.read(this).id != val(E, a[0]).id) if neg else (E.read(this).id == val(E, a[0]).id)
L[ENTRY + '::endpoint'] = lambda E, f, this, a, e: ExtV('asio::ip::basic_endpoint', val(E, this).id)
for n in ('operator basic_endpoint', 'operator asio::ip::basic_endpoint', 'operator endpoint_type'): L[ENTRY + '::' + n] = L[ENTRY + '::endpoint']
L['ctor asio::ip::basic_resolver_query'] = lambda E, f, t, a, e, lv: QueryV(val(E, a[0]), val(E, a[1]))
L['ctor asio::ip::address'] = lambda E, f, t, a, e, lv: val(E, a[0])
def _endpoint(E, f, t, a, e, lv):
    if not a: return EndpointV(ExtV('asio::ip::address', E.ident('noaddress')), bv(0, 16))
    return EndpointV(val(E, a[0]), val(E, a[1]))
L['ctor asio::ip::basic_endpoint'] = _endpoint
def _setaddr(E, f, this, a, e):
    if not a: return E.read(this).addr
    E.write(this, E.read(this).with_part('addr', val(E, a[0])))
def _setport(E, f, this, a, e):
    if not a: return E.read(this).port
    E.write(this, E.read(this).with_part('port', val(E, a[0])))
L['asio::ip::basic_endpoint::address'] = _setaddr
L['asio::ip::basic_endpoint::port'] = _setport
def _fromstring(E, f, this, a, e):
    s = val(E, a[0])
    if len(a) > 1:
        c = fresh_ec(E)
        E.assume(ECB(c.id) == z3.Not(ADDR_OK(s.s)))
        E.st.ghost['ecs'] = E.st.ghost.get('ecs', ()) + (c.id,)
        E.write(a[1], c)
    return ExtV('asio::ip::address', ADDR(s.s))
for n in ('from_string', 'make_address'): L['asio::ip::address::' + n] = _fromstring
L['asio::ip::make_address'] = _fromstring


# ---- algorithms on lists of pointers
@lib('std::find')
def _(E, f, this, a, e):
    x = val(E, a[2])
    return _algo(E, e, val(E, a[0]), val(E, a[1]), lambda p: E.branch(geneq(E, E.read(p), x, f)))

def _remove(E, f, this, a, e):
    """list::remove: every element that equals the value; here, at most one may."""
    v = veq(E, this); x = val(E, a[0]); at, n = v.at, v.n
    if E.holds_for_all(n, lambda j: z3.Not(geneq(E, at(j), x, f)), 'no such element'): return bv(0)
    w = E.st.terms[-1]
    j = E.fconst(BV64, 'other')
    E.st.terms.append(j)
    E.oblige(z3.Implies(z3.And(z3.ULT(j, n), j != w), z3.Not(geneq(E, at(j), x, f))), 'only one element equals the one removed')
    E.write(this, Vec(v.ety, simp(n - 1), lambda i: ite(z3.ULT(i, w), at(i), at(simp(i + 1)))))
    return bv(1)
L['std::list::remove'] = _remove

# a map's pair, copied
def _copypair(E, lv, t):
    if t.base != 'std::pair' or not t.ta: raise Unsupported('copy of a pair as %s' % t.s)
    p = E.read(lv)
    return SV('std::pair', {'first': E.read(L['field std::pair'](E, dict(n='first', t=t.ta[0]), lv)), 'second': E.read(p.lv.sub(('m', p.key)))})
L['copy PairRef'] = _copypair
