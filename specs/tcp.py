"""C20, C21: TCP connections and the manager."""
from .common import *
from .actors import *
from .client import rectype, refers_to, anything, snap
from .session import extptr, ev, FakeF
from vc.lib import newobj, TOSTR
from vc import net

CC = 'modbus::AsioClientTcpConnection'
SC = 'modbus::AsioServerTcpConnection'
AS = 'modbus::AsioServer'
LISN = 'modbus::IConnectionListener'
U8, U16, U32 = z3.BitVecSort(8), z3.BitVecSort(16), z3.BitVecSort(32)
EXECUTOR, SOCKET, RESOLVER = z3.Const('m_executor', IdSort), z3.Const('m_tcp_socket', IdSort), z3.Const('m_resolver', IdSort)
NAMES.update(on_receive='bytes passed to the listener', on_error='errors reported to the listener', on_write_done='completions reported to the listener', on_connected='connections reported to the listener',
             read='reads started', write='transmissions started', writesome='transmissions of a part started', resolve='resolving started', connect='connecting started', connectall='connecting to all endpoints started', sock_close='socket closed', remove='server told of the end',
             post='actions posted')


def status(E, name):
    """The declared number of a connection status, read from the code."""
    for t in E.prog.types.values():
        if t.k == 'enum' and t.n.endswith('ConnectionStatus') and t.e:
            for n, v in (t.e.items() if isinstance(t.e, dict) else t.e):
                if n == name: return bv(int(v), t.w)
    raise Unsupported('no connection status %s' % name)


class Conn:
    """A connection in an arbitrary state."""
    CONST = ('m_logger', 'm_ip_endpoint', 'm_executor', 'm_adapter', 'm_resolver', 'm_tcp_socket', 'm_server')
    def __init__(self, E, cls, lv=None, base=None):
        self.E, self.cls, self.client = E, cls, cls == CC
        ty = {x['n']: x['t'] for x in E.fields(cls)}
        need = {'m_executor', 'm_tcp_socket', 'm_is_shutdown', 'm_read_buffer', 'm_write_buffer', 'm_write_queue', 'm_is_writing', 'm_connection_listener'}
        need |= {'m_ip_endpoint', 'm_adapter', 'm_resolver', 'm_current_connection_status'} if self.client else {'m_server', 'm_is_connected'}
        if not need <= set(ty): raise Unsupported('the connection has other fields than the specification speaks of')
        if lv is None:
            f = {}
            for n, t in ty.items():
                if t.k == 'rec' and t.base == 'std::shared_ptr' and n in self.CONST: f[n] = extptr(t.ta[0].n, n)
                elif n == 'm_server': f[n] = WkPtr(E.fconst(z3.BoolSort(), 'noserver'), ExtV(AS, z3.Const('m_server', IdSort)))
                elif n == 'm_tcp_socket': f[n] = ExtV('asio::basic_stream_socket', SOCKET)
                elif n == 'm_resolver': f[n] = ExtV('asio::ip::basic_resolver', RESOLVER)
                else: f[n] = self.value(n, t)
            self.lv = E.alloc(SV(cls, f))
        else:
            self.lv = lv
            for n, t in ty.items():
                if n not in self.CONST: E.write(lv.sub(n), self.value(n, t))
            E.st.ghost = {k: v for k, v in E.st.ghost.items() if k == 'curexc'}
        o = E.read(self.lv).f
        self.shut = o['m_is_shutdown']
        if self.client:
            st = o['m_current_connection_status']
            self.NC, self.CG, self.CD = (status(E, n) for n in ('NotConnected', 'Connecting', 'Connected'))
            E.assume(z3.Or(st == self.NC, st == self.CG, st == self.CD))
            self.connected = st == self.CD
        else: self.connected = o['m_is_connected']
        self.wb, self.q, self.writing = o['m_write_buffer'], o['m_write_queue'], o['m_is_writing']
        # the invariant: what is submitted waits only behind a transmission under way, and on a connection
        E.assume(z3.Implies(z3.Not(self.shut), z3.Or(z3.And(self.connected, self.writing), self.q.n == 0)))
        E.assume(z3.ULE(self.q.n, 1 << 32))
        self.base = base or (list(E.st.pc), list(E.st.qf))
        self.snap()
    def value(self, n, t):
        E = self.E
        if n == 'm_write_buffer':
            if t.base != 'std::unique_ptr': raise Unsupported('the bytes to send are held by a %s' % t.base)
            at = z3.Function(E.name('pending.byte'), BV64, U8); k = E.fconst(BV64, 'pending.n')
            E.assume(z3.ULE(k, 1 << 32))
            return UPtr(E.fconst(z3.BoolSort(), 'nothing pending'), Buf(k, lambda i: at(i)))
        if n == 'm_write_queue':
            if t.base not in ('std::deque', 'std::list', 'std::vector') or t.ta[0].base != 'std::unique_ptr': raise Unsupported('the bytes waiting are held by a %s' % t.s)
            at = z3.Function(E.name('waiting.byte'), BV64, BV64, U8); n_ = z3.Function(E.name('waiting.n'), BV64, BV64); k = E.fconst(BV64, 'waiting')
            return Vec(t.ta[0], k, lambda j: UPtr(F(), Buf(n_(j) & ((1 << 32) - 1), lambda i: at(j, i))))
        if n == 'm_connection_listener':
            null = E.fconst(z3.BoolSort(), 'nolistener')
            x = ExtV(LISN, z3.Const('listener', IdSort))
            return WkPtr(null, x) if t.base == 'std::weak_ptr' else ShPtr(null, x)
        return E.fresh(t, n)
    def snap(self):
        E = self.E
        self.before = dict(E.read(self.lv).f)
        self.cells = {c: v for c, v in E.st.cells.items() if c != self.lv.cell}
        return self
    def later(self):
        """An arbitrary later state: only what was known when the connection was made is known of it."""
        E = self.E
        E.st.pc, E.st.qf = list(self.base[0]), list(self.base[1])
        return Conn(E, self.cls, self.lv, self.base)
    def now(self, n): return self.E.read(self.lv).f[n]
    def stays(self, label, but=()):
        E = self.E; o = E.read(self.lv)
        for n, v in self.before.items():
            if n not in but and o.f[n] is not v: E.prove_eq(v, o.f[n], '%s: %s stays' % (label, n))
        for c, v in self.cells.items():
            if E.st.cells[c] is not v: E.prove_eq(v, E.st.cells[c], label + ': nothing else changes')
    def buffer_is(self, v, label):
        """What is waiting to be sent: those bytes, or nothing."""
        E = self.E; w = self.now('m_write_buffer')
        if v is None: E.oblige(w.null, label + ': nothing is left to send'); return
        E.oblige(z3.Not(w.null), label + ': the bytes are kept until they can be sent')
        same_bytes(E, v, w.val, label + ': the bytes kept')
    def queue_is(self, n, at, writing, label):
        """What waits behind the transmission under way."""
        E = self.E; q = self.now('m_write_queue')
        E.oblige(q.n == n, label + ': how many wait')
        E.oblige(self.now('m_is_writing') == writing, label + ': whether a transmission is under way')
        j = skolem(E, 'nth'); pc = list(E.st.pc); E.st.pc.append(z3.ULT(j, n))
        x = q.at(j)
        E.oblige(z3.Not(x.null), label + ': the bytes waiting are kept')
        same_bytes(E, at(j), x.val, label + ': what waits, in the order submitted')
        E.st.pc = pc
    def submits(self, want, data, label):
        """On a connection: the transmission of data is started, or data waits for those before it. Returns what judges the queue."""
        E = self.E; q = self.q; w = E.branch(self.writing)
        if w:
            at = lambda j: pick(z3.ULT(j, q.n), q.at(j).val, data)
            return lambda: self.queue_is(simp(q.n + 1), at, T(), label)
        writes(want, self, data)
        return lambda: self.queue_is(bv(0), lambda j: data, T(), label)
    def same_queue(self, label, writing=None): self.queue_is(self.q.n, lambda j: self.q.at(j).val, self.writing if writing is None else writing, label)
    def emptied(self, label, writing=None): self.queue_is(bv(0), lambda j: None, self.writing if writing is None else writing, label)
    def is_status(self, want, label):
        if self.client: self.E.oblige(self.now('m_current_connection_status') == {'no': self.NC, 'ing': self.CG, 'yes': self.CD}[want], label + ': connection status')
        else: self.E.oblige(self.now('m_is_connected') == (want == 'yes'), label + ': connection status')
    STATUS = property(lambda self: 'm_current_connection_status' if self.client else 'm_is_connected')
    def has_listener(self):
        """There is a listener, and it still lives."""
        E = self.E; p = self.before['m_connection_listener']
        if isinstance(p, ShPtr): return z3.Not(p.null)
        g = E.st.ghost.get(('alive', str(p.tgt)))
        return z3.And(z3.Not(p.null), g if g is not None else E.fconst(z3.BoolSort(), 'alive'))
    def server_lives(self):
        E = self.E; p = self.before['m_server']
        g = E.st.ghost.get(('alive', str(p.tgt)))
        return z3.And(z3.Not(p.null), g if g is not None else E.fconst(z3.BoolSort(), 'alive'))


def pick(c, a, b): return Buf(z3.If(c, a.n, b.n), lambda i: z3.If(c, a.at(i), b.at(i)))
QUEUE = ('m_write_queue', 'm_is_writing')


def same_bytes(E, a, b, label):
    if a is None or b is None: E.oblige(F(), label); return
    E.oblige(a.n == b.n, label + ' (how many)')
    i = skolem(E, 'ix')
    E.oblige(z3.Implies(z3.ULT(i, a.n), a.at(i) == b.at(i)), label)


def listener_event(name):
    def h(E, f, this, a, e):
        E.st.log.append((name, E.read(this).id) + ((snap(E, val(E, a[0])),) if name == 'on_receive' else ()))
    return h


def remove(E, f, this, a, e):
    p = val(E, a[0])
    E.st.log.append(('remove', E.read(this).id, p))

CONTRACTS = {'ext %s::%s' % (LISN, n): listener_event(n) for n in ('on_receive', 'on_error', 'on_write_done', 'on_connected')}
CONTRACTS['ext %s::remove_connection' % AS] = remove


class Judged(Exception):
    """The path on which a handler was judged ends there; the path on which it was not goes on."""


def apart(E, c, fn, what, judge):
    """Judge a handler on a path of its own; what follows is judged on the other path, from the same state. It is judged in an
    arbitrary later state, of which nothing is known but what the construction of the connection established: that is done once for
    each handler, wherever it comes from (a handler met again, or while it is being judged, is the same again)."""
    if not isinstance(fn, FnV): E.oblige(F(), what + ': an action'); return
    key = ('judged', what, like(c, fn)); here = (E.decpath, tuple(E.dec.taken))
    if E.memo.setdefault(key, here) != here: return
    if E.choose(2) == 0:
        judge()
        raise Judged()


def like(c, v, d=0):
    """What distinguishes a handler from another: its code and what it holds, objects but the connection apart."""
    if d > 12: raise Unsupported('captures nested too deep')
    if isinstance(v, LV): return 'self' if v.cell == c.lv.cell and not v.path else ('part',) + tuple(str(x) for x in v.path) if v.cell == c.lv.cell else 'other'
    if isinstance(v, FnV):
        if v.kind == 'lambda': return ('lambda', id(v.node), v.this is not None and like(c, v.this, d + 1)) + tuple((i, k, like(c, x, d + 1)) for i, (k, x) in sorted(v.caps.items(), key=str))
        if v.kind == 'bind': return ('bind', like(c, v.f, d + 1)) + tuple(like(c, x, d + 1) for x in v.args)
        if v.kind == 'wrap': return ('wrap', str(v.ex), like(c, v.inner, d + 1))
        if v.kind == 'func': return ('func', v.f.m)
        return (v.kind, id(v))
    if isinstance(v, (ShPtr, WkPtr, Ptr)): return (type(v).__name__, str(simp(v.null)), like(c, v.tgt, d + 1))
    if isinstance(v, (Rseq, Wseq)): return ('view', like(c, v.buf, d + 1))
    if isinstance(v, (Vec, Buf, MapV)): return type(v).__name__
    if isinstance(v, Opaque): return v.desc
    if isinstance(v, ExtV) and v.cls == net.ITER: return 'an endpoint'
    if isinstance(v, V): return (v.tag(),) + tuple((n, like(c, x, d + 1)) for n, x in v.parts())
    return str(simp(v)) if isz(v) else str(v)


def whole(fn, E):
    try: fn(E)
    except Judged: pass


def tcp_unit(cls, name, props='C21'):
    def d(fn):
        @unit(props + (' C16' if cls == SC else ''), cls + '::' + name, 'tcp')
        def _(E):
            E.contracts = CONTRACTS
            return E.unit(cls + '::' + name, lambda: whole(fn, E))
        return fn
    return d


# ---- what an operation started must look like
def wrapped(E, fn, label):
    if not (isinstance(fn, FnV) and fn.kind == 'wrap'): E.oblige(F(), label + ': its handler runs in the strand'); return False
    E.oblige(fn.ex == EXECUTOR, label + ': its handler runs in the strand of the connection')
    return True


def owned(E, fn, cell, label):
    """The handler keeps that storage alive."""
    if cell not in (self_contained(E, fn, label) or ()): E.oblige(F(), label + ': the handler keeps the storage alive')


class Want(Ev):
    """Expected events; 'free' kinds may occur or not, and are judged one by one when they do."""
    def __init__(self): super().__init__(); self.free = {}
    def maybe(self, kind, *args): self.free[kind] = args


def settle(E, want, label, ignore=()):
    log = E.st.log
    for k, args in want.free.items():
        for e in log:
            if e[0] == k: same_args(E, args, e[1:], '%s: %s' % (label, NAMES.get(k, k)))
    compare(E, want, log, label, ignore=tuple(want.free) + QUIETSOCK + tuple(ignore))

QUIETSOCK = ('sock_shutdown', 'sock_set_option', 'sock_open', 'sock_bind', 'sock_cancel', 'resolver_cancel')


def self_arg(c):
    return lambda E, x, lab: refers_to(c.lv)(E, x, lab)


def reads(want, c): want.add('read', SOCKET, into_own_buffer(c), lambda E, fn, lab: read_done(E, c, fn, lab))


def into_own_buffer(c):
    def j(E, v, label):
        if v.buf is None or v.buf.cell != c.lv.cell or not v.buf.path or v.buf.path[0] != 'm_read_buffer': E.oblige(F(), label + ': into the buffer for reading'); return
        E.oblige(v.n != 0, label + ': into some bytes')
        E.st.ghost['read view'] = v
    return j


def writes(want, c, data):
    def view(E, v, label):
        if v.buf is None: E.oblige(F(), label + ': some bytes'); return
        b = E.read(v.buf)
        E.oblige(z3.And(z3.ULE(v.off, b.n), z3.ULE(v.n, b.n - v.off)), label + ': inside the storage')
        same_bytes(E, data, snap(E, v), label + ': the bytes submitted')
        E.st.ghost['write cell'] = v.buf.cell
    def handler(E, fn, label):
        wrapped(E, fn, label)
        owned(E, fn, E.st.ghost.get('write cell'), label)
        if E.st.ghost.get('write cell') == c.lv.cell: E.oblige(F(), label + ': storage of its own')
        write_done(E, c, fn, label)
    want.add('write', SOCKET, view, handler)


def closes(want, c, maybe=False):
    j = lambda E, fn, lab: close_action(E, c, fn)
    if maybe: want.maybe('post', j)
    else: want.add('post', j)


def inert(E, c, label):
    """After shutdown: no operation is started, the listener is not called, nothing is changed that matters."""
    want = Want()
    want.maybe('post', lambda E, fn, lab: later(E, fn, lambda: c.later(), lambda d, call: shut_action(E, d, call, lab), lab))
    settle(E, want, label + ' after shutdown', ignore=('remove', 'sock_close'))
    E.oblige(c.now('m_is_shutdown'), label + ' after shutdown: it stays shut down')


def shut_action(E, d, call, label):
    E.assume(d.shut)
    noexcept(E, call, label)
    settle(E, Want(), label + ' after shutdown', ignore=('post', 'remove', 'sock_close'))
    E.oblige(d.now('m_is_shutdown'), label + ' after shutdown: it stays shut down')


# ---- completions, in an arbitrary later state
def completion(E, c, fn, what, nargs, judge, known=()):
    def run(d, call):
        ec = net.fresh_ec(E)
        args = [E.alloc(ec)]
        if nargs == 2: args.append(E.fconst(BV64, 'transferred'))
        if nargs == 'it':
            args.append(ExtV(net.ITER, z3.Const('endpoints', IdSort)))
            E.assume(z3.Implies(z3.Not(net.ECB(ec.id)), z3.Const('endpoints', IdSort) != net.ENDPOINTS))
        d.snap(); E.st.log = []
        if what == 'read completed' and 'read view' in E.st.ghost: E.assume(z3.ULE(args[1], E.st.ghost['read view'].n))
        noexcept(E, lambda: call(*args), what)
        if E.branch(d.shut): inert(E, d, what); d.stays(what + ' after shutdown', but=QUEUE); return
        judge(d, ec, args[1:])
        E.oblige(z3.Not(d.now('m_is_shutdown')), what + ': not shut down')
    def prepare():
        v = E.st.ghost.get('read view')
        d = c.later()
        for x in known: E.assume(x)
        if v is not None: E.st.ghost['read view'] = v
        return d
    apart(E, c, fn, what, lambda: later(E, fn, prepare, run, what))


def failed(E, d, ec, what, quiet=None):
    """The error is reported once and the connection closed."""
    what += ' (error)'
    want = Want()
    if quiet is not None and E.branch(quiet): want.maybe('on_error', z3.Const('listener', IdSort))
    elif E.branch(d.has_listener()): want.add('on_error', z3.Const('listener', IdSort))
    # closed at once, by an action, or by telling the server, which closes it
    closes(want, d, maybe=True)
    want.maybe('sock_close', SOCKET)
    if not d.client: want.maybe('remove', z3.Const('m_server', IdSort), self_arg(d))
    kinds = [e[0] for e in E.st.log]
    if 'post' not in kinds and 'sock_close' not in kinds and (d.client or 'remove' not in kinds):
        E.oblige(z3.Or(*[z3.Not(o) for o in E.st.ghost.get('opens', ())]) if E.st.ghost.get('opens') else F(), what + ': the connection is closed')
    # from then on it is not connected, so that what this closing ends is no further failure
    d.is_status('no', what); d.emptied(what, F() if what.startswith('transmission') else None)
    settle(E, want, what)
    d.stays(what, but=(d.STATUS,) + QUEUE)


def read_done(E, c, fn, label):
    wrapped(E, fn, label)
    owned(E, fn, c.lv.cell, label)
    def judge(d, ec, args):
        what = 'read completed'
        if not E.branch(d.connected):
            # the connection was closed meanwhile
            what += ' (closed)'
            settle(E, Want(), what); d.same_queue(what); d.stays(what, but=QUEUE); return
        if E.branch(net.ECB(ec.id)):
            eof = ec.id == net.ECV(bv(2, 32))
            failed(E, d, ec, what, eof if d.client else None); return
        v = E.st.ghost.get('read view')
        got = snap(E, Rseq(v.buf, v.off, args[0])) if v is not None else None
        want = Want()
        if E.branch(d.has_listener()): want.add('on_receive', z3.Const('listener', IdSort), lambda E, b, lab: same_bytes(E, got, b, lab + ': the bytes read'))
        reads(want, d)
        settle(E, want, what)
        d.stays(what)
    completion(E, c, fn, 'read completed', 2, judge)


def write_done(E, c, fn, label):
    def judge(d, ec, args):
        what = 'transmission completed'
        if not E.branch(d.connected):
            what += ' (closed)'
            settle(E, Want(), what); d.emptied(what, F()); d.stays(what, but=QUEUE); return
        if E.branch(net.ECB(ec.id)): failed(E, d, ec, what); return
        want = Want()
        if E.branch(d.has_listener()): want.add('on_write_done', z3.Const('listener', IdSort))
        if E.branch(d.q.n == 0): after = lambda: d.emptied(what, F())
        else:
            writes(want, d, d.q.at(bv(0)).val)
            after = lambda: d.queue_is(simp(d.q.n - 1), lambda j: d.q.at(simp(j + 1)).val, T(), what)
        settle(E, want, what); after()
        d.stays(what, but=QUEUE)
    completion(E, c, fn, 'transmission completed', 2, judge)


def endpoint_of(it):
    def j(E, x, label):
        E.oblige(z3.And(x.id == it, it != net.ENDPOINTS) if isinstance(x, ExtV) and x.cls != net.ITER else F(), label + ': to the endpoint found')
    return j


def attempt(E, d, it, what, but=()):
    """Connecting from the adapter to that endpoint is started, or it is said why not."""
    log = list(E.st.log); ad = d.before['m_adapter'].s; any_ = ad == E.strlit('').s
    started = [e for e in log if e[0] in ('connect', 'connectall')]
    if not started:
        ecs = E.st.ghost.get('ecs', ())
        E.oblige(z3.Or(*[net.ECB(x) for x in ecs]) if ecs else F(), what + ': connecting is started unless an operation fails')
        failed(E, d, None, what); return
    before = log[:log.index(started[0])]
    if started[0][0] == 'connectall': E.oblige(any_, what + ': connecting from the adapter')
    else:
        # what the socket was bound to since it was opened
        while [e for e in before if e[0] == 'sock_close']: before = before[[e[0] for e in before].index('sock_close') + 1:]
        binds = [e for e in before if e[0] == 'sock_bind' and e[1].eq(SOCKET)]
        if not binds or not [e for e in before[:before.index(binds[-1])] if e[0] == 'sock_open']: E.oblige(any_, what + ': bound to the adapter')
        else: E.prove_eq(net.ADDR(z3.If(any_, E.strlit('0.0.0.0').s, ad)), binds[-1][2].addr.id, what + ': bound to the adapter')
        # nothing goes on with a socket that could not be prepared
        for x in E.st.ghost.get('ecs', ()): E.oblige(z3.Not(net.ECB(x)), what + ': connecting is started only when what it needs succeeded')
    want = Want()
    if started[0][0] == 'connect': want.add('connect', SOCKET, endpoint_of(it), lambda E, fn, lab: connect_done(E, d, fn, lab, it))
    else: want.add('connectall', SOCKET, ExtV(net.ITER, it), lambda E, fn, lab: connect_done(E, d, fn, lab, None))
    want.maybe('sock_close', SOCKET)
    settle(E, want, what)
    d.stays(what, but=but)


def resolve_done(E, c, fn, label):
    wrapped(E, fn, label)
    def judge(d, ec, args):
        what = 'resolving completed'
        if E.branch(net.ECB(ec.id)): failed(E, d, ec, what); return
        attempt(E, d, z3.Const('endpoints', IdSort), what)
    completion(E, c, fn, 'resolving completed', 'it', judge)


def connect_done(E, c, fn, label, it):
    """it: the endpoint tried (None: all of them)."""
    wrapped(E, fn, label)
    what = 'connecting completed' if it is not None else 'connecting to all endpoints completed'
    def judge(d, ec, args):
        if E.branch(net.ECB(ec.id)):
            if it is not None and E.branch(z3.And(d.before[d.STATUS] == d.CG, net.NEXT(it) != net.ENDPOINTS)): attempt(E, d, net.NEXT(it), what + ' (error, next endpoint)')
            else: failed(E, d, ec, what)
            return
        want = Want()
        if E.branch(d.has_listener()): want.add('on_connected', z3.Const('listener', IdSort))
        after = d.submits(want, d.wb.val, what) if not E.branch(d.wb.null) else lambda: d.same_queue(what)
        reads(want, d)
        settle(E, want, what); after()
        d.stays(what, but=(d.STATUS, 'm_write_buffer') + QUEUE)
        d.is_status('yes', what); d.buffer_is(None, what)
    completion(E, c, fn, what, 1, judge, [it != net.ENDPOINTS] if it is not None else ())


def close_action(E, c, fn):
    what = 'close action'
    def run(d, call):
        d.snap(); E.st.log = []
        noexcept(E, call, what)
        if E.branch(d.shut): inert(E, d, what); d.stays(what + ' after shutdown', but=QUEUE); return
        want = Want()
        closed = [e for e in E.st.log if e[0] == 'sock_close']
        if closed: want.add('sock_close', SOCKET)
        else: E.oblige(z3.Or(*[z3.Not(o) for o in E.st.ghost.get('opens', ())]) if E.st.ghost.get('opens') else F(), what + ': the socket is closed')
        if not d.client:
            want.maybe('remove', z3.Const('m_server', IdSort), self_arg(d))
            if closed and not [e for e in E.st.log if e[0] == 'remove']: E.oblige(z3.Not(d.server_lives()), what + ': the server is told')
        settle(E, want, what)
        d.stays(what, but=(d.STATUS,) + QUEUE); d.is_status('no', what); d.emptied(what)
    apart(E, c, fn, what, lambda: later(E, fn, lambda: c.later(), run, what))


# ---- the functions
def both(name, props='C21'):
    def d(fn):
        for cls in (CC, SC): tcp_unit(cls, name, props)(lambda E, cls=cls: fn(E, cls))
        return fn
    return d


@both('close')
def _(E, cls):
    c = Conn(E, cls); E.st.log = []
    noexcept(E, lambda: E.call_body(method(E, cls, 'close'), c.lv, []), 'close')
    if E.branch(c.shut): inert(E, c, 'close')
    else:
        want = Want(); closes(want, c)
        settle(E, want, 'close')
    c.stays('close')


@both('shutdown')
def _(E, cls):
    c = Conn(E, cls); E.st.log = []
    noexcept(E, lambda: E.call_body(method(E, cls, 'shutdown'), c.lv, []), 'shutdown')
    def posted(E, fn, lab):
        what = 'shutdown action'
        def run(d, call):
            d.snap(); E.st.log = []
            noexcept(E, call, what)
            ended = [e for e in E.st.log if e[0] in ('sock_close', 'sock_cancel') and e[1].eq(SOCKET)]
            if not ended: E.oblige(d.shut, what + ': pending operations are ended')
            want = Want()
            want.maybe('sock_close', SOCKET)
            if not d.client:
                want.maybe('remove', z3.Const('m_server', IdSort), self_arg(d))
                if not [e for e in E.st.log if e[0] == 'remove']: E.oblige(z3.Or(d.shut, z3.Not(d.server_lives())), what + ': the server is told')
            settle(E, want, what)
            d.stays(what, but=(d.STATUS, 'm_is_shutdown', 'm_write_buffer', 'm_connection_listener') + QUEUE)
            E.oblige(d.now('m_is_shutdown'), what + ': shut down')
        later(E, fn, lambda: c.later(), run, what)
    want = Want()
    if E.branch(c.shut): want.maybe('post', posted)
    else: want.add('post', posted)
    settle(E, want, 'shutdown')
    c.stays('shutdown')


@both('set_listener')
def _(E, cls):
    c = Conn(E, cls); E.st.log = []
    p = ShPtr(E.fconst(z3.BoolSort(), 'nolistener'), ExtV(LISN, z3.Const('newlistener', IdSort)))
    noexcept(E, lambda: E.call_body(method(E, cls, 'set_listener'), c.lv, [p]), 'set_listener')
    settle(E, Want(), 'set_listener')
    q = c.now('m_connection_listener')
    E.prove_eq(p, ShPtr(q.null, q.tgt), 'set_listener: the listener')
    c.stays('set_listener', but=('m_connection_listener',))


def submitted(E):
    d = E.fresh(rectype(E, 'ser4cpp::rseq_t'), 'data')
    return d, E.alloc(d)


@tcp_unit(SC, 'send')
def _(E):
    c = Conn(E, SC); d, a = submitted(E)
    c.snap(); E.st.log = []
    data = snap(E, d)
    noexcept(E, lambda: E.call_body(method(E, SC, 'send'), c.lv, [a]), 'send')
    if E.branch(c.shut): inert(E, c, 'send'); return
    want = Want()
    on = E.branch(c.connected)
    after = c.submits(want, data, 'send') if on else lambda: c.same_queue('send')
    settle(E, want, 'send'); after()
    c.buffer_is(None if on else data, 'send')
    c.stays('send', but=('m_write_buffer',) + QUEUE)


@tcp_unit(SC, 'start')
def _(E):
    c = Conn(E, SC); E.st.log = []
    noexcept(E, lambda: E.call_body(method(E, SC, 'start'), c.lv, []), 'start')
    if E.branch(c.shut): inert(E, c, 'start'); return
    want = Want()
    after = c.submits(want, c.wb.val, 'start') if not E.branch(c.wb.null) else lambda: c.same_queue('start')
    reads(want, c)
    settle(E, want, 'start'); after()
    c.stays('start', but=(c.STATUS, 'm_write_buffer') + QUEUE)
    c.is_status('yes', 'start'); c.buffer_is(None, 'start')


@tcp_unit(SC, 'get_socket')
def _(E):
    c = Conn(E, SC); E.st.log = []
    r = noexcept(E, lambda: E.call_body(method(E, SC, 'get_socket'), c.lv, []), 'get_socket')
    E.prove_eq(ExtV('asio::basic_stream_socket', SOCKET), val(E, r), 'get_socket: its socket')
    if not (isinstance(r, LV) and r.cell == c.lv.cell): E.oblige(F(), 'get_socket: its own socket')
    c.stays('get_socket')


@tcp_unit(CC, 'send', 'C20 C21')
def _(E):
    c = Conn(E, CC); d, a = submitted(E)
    c.snap(); E.st.log = []
    data = snap(E, d)
    st = c.before['m_current_connection_status']
    noexcept(E, lambda: E.call_body(method(E, CC, 'send'), c.lv, [a]), 'send')
    if E.branch(c.shut): inert(E, c, 'send'); return
    want = Want()
    if E.branch(c.connected):
        after = c.submits(want, data, 'send (connected)')
        settle(E, want, 'send (connected)'); after()
        c.buffer_is(None, 'send (connected)')
        c.stays('send (connected)', but=('m_write_buffer',) + QUEUE)
        return
    if E.branch(st == c.CG):
        settle(E, want, 'send (connecting)')
        c.buffer_is(data, 'send (connecting)')
        c.stays('send (connecting)', but=('m_write_buffer',))
        return
    get = lambda n: val(E, E.call_body(method(E, 'modbus::Ipv4Endpoint', n), c.lv.sub('m_ip_endpoint'), []))
    log = list(E.st.log); what = 'send (not connected)'
    if [e for e in log if e[0] == 'resolve']:
        def query(E, q, label):
            E.prove_eq(get('get_hostname'), StrV(q.host.s), label + ': the host of the endpoint')
            p = get('get_port')
            t = simp(q.service.s)
            if not (z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith('to_string')): E.oblige(F(), label + ': the port of the endpoint'); return
            x = t.arg(0)
            E.oblige(z3.ZeroExt(64 - x.size(), x) == zx(p), label + ': the port of the endpoint')
        want.add('resolve', RESOLVER, query, lambda E, fn, lab: resolve_done(E, c, fn, lab))
        settle(E, want, what)
        c.is_status('ing', what); c.buffer_is(data, what)
        c.stays(what, but=('m_write_buffer', c.STATUS))
        return
    # it could not begin: something failed, and it says so by not being connected (then it was the adapter)
    what += ', failing'
    ecs = E.st.ghost.get('ecs', ())
    E.oblige(z3.Or(*[net.ECB(x) for x in ecs]) if ecs else F(), what + ': only when an operation fails')
    closes(want, c, maybe=True)
    want.maybe('on_error', z3.Const('listener', IdSort)); want.maybe('sock_close', SOCKET)
    settle(E, want, what)
    c.is_status('no', what)
    c.stays(what, but=('m_write_buffer', c.STATUS))


@both('(constructor)', 'C20 C21')
def _(E, cls):
    a = [extptr('modbus::Logger', 'logger'), extptr('exe4cpp::StrandExecutor', 'm_executor')]
    if cls == CC:
        ep, ad = E.fresh(rec(E, 'modbus::Ipv4Endpoint'), 'endpoint'), StrV(z3.Const('adapter', StrSort))
        a += [E.alloc(ep), E.alloc(ad)]
    else:
        sv = WkPtr(E.fconst(z3.BoolSort(), 'noserver'), ExtV(AS, z3.Const('m_server', IdSort)))
        a.append(sv)
    E.st.log = []
    lv = E.newobject(cls, a)
    o = E.read(lv).f
    E.prove_eq(a[1], o['m_executor'], 'constructor: the executor')
    E.oblige(z3.Not(o['m_is_shutdown']), 'constructor: not shut down')
    E.oblige(o['m_write_buffer'].null, 'constructor: nothing to send')
    E.oblige(z3.And(o['m_write_queue'].n == 0, z3.Not(o['m_is_writing'])), 'constructor: nothing waits and nothing is transmitted')
    E.oblige(o['m_connection_listener'].null, 'constructor: no listener')
    if cls == CC:
        E.prove_eq(ep, o['m_ip_endpoint'], 'constructor: the endpoint'); E.prove_eq(ad, o['m_adapter'], 'constructor: the adapter')
        E.oblige(o['m_current_connection_status'] == status(E, 'NotConnected'), 'constructor: not connected')
    else:
        E.prove_eq(sv, o['m_server'], 'constructor: the server')
        E.oblige(z3.Not(o['m_is_connected']), 'constructor: not connected')
    settle(E, Want(), 'constructor')


# ---- C20: the manager
MM = 'modbus::ModbusManagerImpl'
LISTS = ('m_client_channels', 'm_server_channels')
IO = z3.Const('m_io_service', IdSort)
NAMES.update(newstrand='strands made', newtcp='client connections made', newserver='listening servers made', newclientchannel='client channels made', newserverchannel='server channels made',
             m_client_channels='client channels told to shut down', m_server_channels='server channels told to shut down', pool='thread pools made')


class Unlocked(Opaque):
    """A list of channels while the lock is not held: other threads may be changing it."""
    def __getattr__(self, n):
        if n in ('ety', 'n', 'at', 'parts'): raise NotLocked()
        raise AttributeError(n)


class NotLocked(Exception): pass


class Manager:
    """A manager that other threads use as well. What its lock protects is arbitrary whenever the lock is taken; what is left when it
    is released is judged (a resource invariant)."""
    def __init__(self, E):
        self.E = E
        ty = {x['n']: x['t'] for x in E.fields(MM)}
        if not set(LISTS) | {'m_io_service', 'm_logger', 'm_mutex', 'm_thread_pool'} <= set(ty): raise Unsupported('the manager has other fields than the specification speaks of')
        f = {}
        for n, t in ty.items():
            if n in LISTS: f[n] = Unlocked('the channels while the lock is not held')
            elif t.k == 'rec' and t.base == 'std::shared_ptr': f[n] = extptr(t.ta[0].n, n)
            elif n == 'm_mutex': f[n] = MutexV(F())
            elif n == 'm_thread_pool': f[n] = ExtV('exe4cpp::ThreadPool', z3.Const('m_thread_pool', IdSort))
            else: f[n] = E.fresh(t, n)
        self.lv = E.alloc(SV(MM, f))
        self.ety = {n: ty[n].ta[0] for n in LISTS}
        self.regions = []      # what each list was when the lock was taken, and when it was released
        self.cur = None
        E.onlock = self.onlock
    def onlock(self, lv, taken):
        E = self.E
        if lv.key() != self.lv.sub('m_mutex').key(): return
        if taken:
            self.cur = {}
            for n in LISTS:
                cid = z3.Function(E.name(n), BV64, IdSort); k = E.fconst(BV64, n + '.n')
                E.assume(z3.ULT(k, 1 << 32))
                cls = self.ety[n].ta[0].n
                v = Vec(self.ety[n], k, lambda i, cid=cid, cls=cls: ShPtr(F(), ExtV(cls, cid(i))))
                E.write(self.lv.sub(n), v)
                self.cur[n] = (v, cid)
        else:
            self.regions.append({n: self.cur[n] + (E.read(self.lv.sub(n)),) for n in LISTS})
            for n in LISTS: E.write(self.lv.sub(n), Unlocked('the channels while the lock is not held'))
            self.cur = None
    def ended(self, label):
        E = self.E
        E.oblige(z3.BoolVal(self.cur is None), label + ': the lock is released')
        for n in LISTS:
            if not isinstance(E.read(self.lv.sub(n)), Unlocked): E.oblige(F(), label + ': the lists of channels are changed with the lock held only')
    def unchanged(self, label, but=None):
        for r in self.regions:
            for n in LISTS:
                if n != but and r[n][0] is not r[n][2]: self.E.prove_eq(r[n][0], r[n][2], label + ': no other channel is registered or dropped')


def made(kind, cls, pick, fails=False):
    def h(E, t, a, ps, lv):
        x = [val(E, v) for v in a]
        if fails and E.branch(E.fconst(z3.BoolSort(), 'cannot listen')): raise ThrowX(exc(E))
        i = E.ident(kind)
        E.st.log.append((kind, i) + tuple(pick(E, x)))
        return ShPtr(F(), ExtV(cls, i))
    return h


MANAGER = {
    'make_shared exe4cpp::StrandExecutor': made('newstrand', 'exe4cpp::StrandExecutor', lambda E, x: (x[0],)),
    'make_shared ' + CC: made('newtcp', CC, lambda E, x: tuple(x)),
    'make_shared ' + AS: made('newserver', AS, lambda E, x: tuple(x), fails=True),
    'make_shared modbus::ClientChannelTcp': made('newclientchannel', 'modbus::ClientChannelTcp', lambda E, x: tuple(x)),
    'make_shared modbus::ServerChannelTcp': made('newserverchannel', 'modbus::ServerChannelTcp', lambda E, x: tuple(x)),
    'ext modbus::IClientChannel::shutdown': lambda E, f, this, a, e: E.st.log.append(('m_client_channels', E.read(this).id)),
    'ext modbus::IServerChannel::shutdown': lambda E, f, this, a, e: E.st.log.append(('m_server_channels', E.read(this).id)),
    'ext modbus::IChannel::shutdown': lambda E, f, this, a, e: E.st.log.append(('m_client_channels' if 'Client' in E.read(this).cls else 'm_server_channels', E.read(this).id)),
}


def manager_unit(name):
    def d(fn):
        @unit('C20', name, 'tcp')
        def _(E):
            E.contracts = MANAGER
            def path():
                E.onlock = None
                try: fn(E)
                except NotLocked: E.oblige(F(), 'the lists of channels are used with the lock held only')
                finally: E.onlock = None
            return E.unit(name, path)
        return fn
    return d


def only(E, log, kind, label):
    x = [e for e in log if e[0] == kind]
    if len(x) != 1: E.oblige(F(), '%s: %s: %d instead of 1' % (label, NAMES[kind], len(x))); return None
    return x[0]


def logger_of(E, log, p, level, label):
    """The logger given is a copy of the manager's with the level asked for."""
    if not isinstance(p, ShPtr) or not isinstance(p.tgt, ExtV): E.oblige(F(), label + ': its logger'); return
    for e in log:
        if e[0] == 'logclone' and e[-1].eq(p.tgt.id): E.prove_eq(level, e[2], label + ': the logging level'); return
    E.oblige(F(), label + ': a logger with the level asked for')


def create(E, fname, n, connkind, chankind):
    m = Manager(E)
    ep = E.alloc(E.fresh(rec(E, 'modbus::Ipv4Endpoint'), 'endpoint'))
    f = method(E, MM, fname)
    level = E.fresh(ptype(f, 3), 'level')
    last = E.fresh(ptype(f, 2), 'adapter')
    E.st.log = []
    k, r = outcome(E, lambda: E.call_body(f, m.lv, [E.alloc(StrV(z3.Const('name', StrSort))), ep, E.alloc(last) if f.ps[2].k == 'ref' else last, level]))
    label = fname; log = E.st.log
    m.ended(label)
    if k == 'throw':
        m.unchanged(label + ' throwing')
        E.oblige(z3.BoolVal(fname == 'create_server_tcp_channel'), label + ': throws')
        return
    ex, co, ch = only(E, log, 'newstrand', label), only(E, log, connkind, label), only(E, log, chankind, label)
    if not ex or not co or not ch: return
    E.prove_eq(IO, ex[2].tgt.id, label + ': a strand of the thread pool of the manager')
    # connection: logger, executor, endpoint, adapter or limit
    E.prove_eq(ex[1], co[3].tgt.id, label + ': the connection runs in that strand')
    E.prove_eq(E.read(ep), co[4], label + ': the endpoint given')
    if len(co) > 5: E.prove_eq(last, co[5], label + ': the adapter or limit given')
    else: E.oblige(F(), label + ': the adapter or limit given')
    logger_of(E, log, co[2], level, label + ': connection')
    pos = dict(ex=2, log=3, conn=4) if chankind == 'newclientchannel' else dict(log=2, ex=3, conn=4)
    E.prove_eq(ex[1], ch[pos['ex']].tgt.id, label + ': the channel runs in that strand')
    E.prove_eq(co[1], ch[pos['conn']].tgt.id, label + ': the channel uses that connection')
    logger_of(E, log, ch[pos['log']], level, label + ': channel')
    r = val(E, r)
    E.oblige(z3.Not(r.null), label + ': a channel')
    E.prove_eq(ch[1], r.tgt.id, label + ': the channel made is given back')
    changed = [x for x in m.regions if x[n][0] is not x[n][2]]
    if len(changed) != 1: E.oblige(F(), label + ': the channel is registered, once, with the lock held'); return
    old, _, new = changed[0][n]
    at, k = old.at, old.n
    E.oblige(new.n == k + 1, label + ': one channel more is registered')
    E.oblige(z3.Not(new.at(k).null), label + ': the channel made is registered')
    E.oblige(new.at(k).tgt.id == ch[1], label + ': the channel made is registered')
    i = skolem(E, 'ix')
    E.oblige(z3.Implies(z3.ULT(i, k), z3.And(z3.Not(new.at(i).null), new.at(i).tgt.id == at(i).tgt.id)), label + ': the channels registered before stay')
    m.unchanged(label, n)
    want = [e for e in log if e[0] in LISTS]
    E.oblige(z3.BoolVal(not want), label + ': no channel is shut down')


@manager_unit(MM + '::create_client_tcp_channel')
def _(E): create(E, 'create_client_tcp_channel', 'm_client_channels', 'newtcp', 'newclientchannel')


@manager_unit(MM + '::create_server_tcp_channel')
def _(E): create(E, 'create_server_tcp_channel', 'm_server_channels', 'newserver', 'newserverchannel')


def shuts_down(E, m, fname):
    E.st.log = []
    noexcept(E, lambda: E.call_body(method(E, MM, fname), m.lv, []), fname)
    m.ended(fname)
    want = Ev()
    for n in LISTS:
        taken = [x for x in m.regions if x[n][0] is not x[n][2]]
        if len(taken) != 1: E.oblige(F(), '%s: the channels registered are taken, once, with the lock held (%s)' % (fname, n)); return
        old, cid, new = taken[0][n]
        E.oblige(new.n == 0, fname + ': no channel is left registered')
        want.cover(n, old.n, lambda i, cid=cid: (cid(i),), by_id(cid))
    compare(E, want, E.st.log, fname)


@manager_unit(MM + '::shutdown')
def _(E): shuts_down(E, Manager(E), 'shutdown')


@manager_unit(MM + '::~ModbusManagerImpl')
def _(E): shuts_down(E, Manager(E), '~ModbusManagerImpl')


def pool(E, f, t, a, e, lv):
    i = E.ident('pool')
    E.st.log.append(('pool', val(E, a[0]), val(E, a[1])))
    return ExtV('exe4cpp::ThreadPool', i)


def new_manager(E, t, a, ps, lv):
    newobj(E, t, FakeF(a, ps), a, lv)
    return E.read(lv)


def built_manager(E, o, n, label):
    """A manager with its own thread pool of n threads and no channel."""
    e = only(E, E.st.log, 'pool', label)
    if e is None: return
    E.prove_eq(o.f['m_io_service'], e[1], label + ': threads that serve the manager')
    E.oblige(e[2] == n, label + ': the number of threads')
    for x in LISTS: E.oblige(o.f[x].n == 0, label + ': no channel')
    E.oblige(z3.Not(o.f['m_mutex'].held), label + ': unlocked')


@manager_unit(MM + '::(constructor)')
def _(E):
    n = E.fconst(U32, 'threads')
    E.st.log = []
    o = E.read(E.newobject(MM, [extptr('modbus::Logger', 'logger'), n]))
    built_manager(E, o, n, 'constructor')
    E.prove_eq(z3.Const('logger', IdSort), o.f['m_logger'].tgt.id, 'constructor: the logger')


def creates(k):
    @manager_unit('modbus::IModbusManager::create' + (' (number of threads)' if k == 2 else ''))
    def _(E):
        n = E.fconst(U32, 'threads')
        E.st.log = []
        f = method(E, 'modbus::IModbusManager', 'create', lambda f: len(f.ps) == k)
        a = [extptr('modbus::Logger', 'logger')] + ([n] if k == 2 else [])
        r = val(E, noexcept(E, lambda: E.call_body(f, None, [x if p.k != 'ref' else E.alloc(x) for x, p in zip(a, f.ps)]), 'create'))
        e = only(E, E.st.log, 'pool', 'create')
        if e is None: return
        E.oblige(z3.Not(r.null), 'create: a manager')
        E.oblige(z3.UGE(e[2], 1), 'create: at least one thread')
        if k == 2: E.oblige(z3.Implies(z3.UGE(n, 1), e[2] == n), 'create: the number of threads asked for')
        built_manager(E, r.val, e[2], 'create')
creates(1); creates(2)
net.L['ctor exe4cpp::ThreadPool'] = pool
