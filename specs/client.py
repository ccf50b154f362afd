"""C12-C14: the client channel.

The state of a channel, as a user sees it: whether it is shut down, its sessions, and the queue L of the accepted requests
that are not yet answered, oldest first; request i of L has the serial number s0+i, counted from 0 when the channel is made.
The invariant that ties the object to it: the request in flight is L[0], m_pending_requests is the rest, the transaction
identifier of L[i] is its serial number modulo 65536, so is m_next_transaction_id for the number of accepted requests, and the
handle of the timer that runs for L[0] is the one kept. Every function that can change a channel, and every action it hands to
the executor (run in an arbitrary state that satisfies the invariant), is verified against its transition of L."""
from .common import *
from .actors import *

C = 'modbus::ClientChannelTcp'
PR = 'modbus::PendingRequest'
U8, U16 = z3.BitVecSort(8), z3.BitVecSort(16)
VALID = z3.Function('message.is_valid', IdSort, z3.BoolSort())
FLEN = z3.Function('frame.length', IdSort, BV64)
FBYTE = z3.Function('frame.byte', U8, U16, IdSort, BV64, U8)
NAMES.update(call='handler called', send='frames sent', start='timers started', post='actions posted', set_listener='listener registered', parse='bytes given to the parser',
             reset='parser reset', conn_shutdown='connection shut down', session_shutdown='sessions shut down', newsession='session made', conn_close='connection closed')


# ---- contracts of what the channel uses
def build_message(E, f, this, a, e):
    """Contract proved under C01."""
    u, t, m, w = val(E, a[0]), val(E, a[1]), val(E, a[2]), E.read(a[3])
    if not isinstance(m, ExtV): raise Unsupported('framing %r' % (m,))
    E.oblige(VALID(m.id), 'only valid requests are framed')
    n = FLEN(m.id)
    E.assume(z3.And(z3.UGE(n, 8), z3.ULE(n, 260)))
    E.oblige(z3.ULE(n, w.n), 'the frame fits the buffer')
    uu, tt = u.f['m_value'], t.f['m_value']
    b = E.read(w.buf); at = b.at; off = w.off
    E.write(w.buf, b.with_part('at', lambda i: z3.If(z3.And(z3.ULE(off, i), z3.ULT(i - off, n)), FBYTE(uu, tt, m.id, simp(i - off)), at(i))))
    E.write(a[3], Wseq(w.buf, simp(off + n), simp(w.n - n)))
    return Rseq(w.buf, off, n)


def snap(E, v):
    if v.buf is None: return Buf(bv(0), lambda i: bv(0, 8))
    at, off = E.read(v.buf).at, v.off
    return Buf(v.n, lambda i: at(simp(off + i)))


def event(name, *pick):
    def h(E, f, this, a, e):
        o = E.read(this)
        E.st.log.append((name,) + ((o.id,) if isinstance(o, ExtV) else ()) + tuple(val(E, a[i]) for i in pick))
    return h


def send(E, f, this, a, e):
    E.st.log.append(('send', E.read(this).id, snap(E, val(E, a[0]))))

def newparser(E, f, lv, a, e):
    E.st.log.append(('newparser', val(E, a[0])))
    return SV('modbus::MbapParser', {})

def newsession(E, t, a, ps, lv):
    x = [val(E, v) for v in a]
    if len(x) != 5: raise Unsupported('session from %d arguments' % len(x))
    s = E.ident('session')
    E.st.log.append(('newsession', x[0], x[2], x[3], x[4], s))
    return ShPtr(F(), ExtV('modbus::IClientSession', s))

CONTRACTS = {
    'modbus::MbapMessage::build_message': build_message,
    'ext modbus::IMessage::is_valid': lambda E, f, this, a, e: VALID(E.read(this).id),
    'ext modbus::IMessage::clone': lambda E, f, this, a, e: UPtr(F(), E.read(this)),
    'ext modbus::IMessage::get_message_length': lambda E, f, this, a, e: E.fconst(BV64, 'length'),
    'ext modbus::ITcpConnection::send': send,
    'ext modbus::ITcpConnection::set_listener': event('set_listener', 0),
    'ext modbus::ITcpConnection::shutdown': event('conn_shutdown'),
    'ext modbus::ITcpConnection::close': event('conn_close'),
    'ext modbus::IClientSession::shutdown': event('session_shutdown'),
    'modbus::MbapParser::MbapParser': newparser,
    'modbus::MbapParser::parse': event('parse', 0),
    'modbus::MbapParser::reset': event('reset'),
    'make_shared modbus::ClientSessionImpl': newsession,
}


# ---- the abstract queue
class Q:
    """n requests; elem(i) is a PendingRequest, s0 the serial number of the first."""
    def __init__(self, n, elem, s0): self.n, self.elem, self.s0 = n, elem, s0
    def tail(self): e = self.elem; return Q(simp(self.n - 1), lambda i: e(simp(i + 1)), simp(self.s0 + 1))
    def append(self, r): e, n = self.elem, self.n; return Q(simp(n + 1), lambda i: ite(i == n, r, e(i)), self.s0)
    def none(self): return Q(bv(0), self.elem, simp(self.s0 + self.n))


def request(E, unit, serial, msg, timeout, handler):
    return SV(PR, dict(unit_id=SV('modbus::UnitIdentifier', {'m_value': unit}), transaction_id=tid(serial), request=UPtr(F(), ExtV('modbus::IMessage', msg)),
                       timeout=timeout, response_handler=FnV('opaque', id=handler, fty=handlertype(E))))


def tid(serial): return SV('modbus::TransactionIdentifier', {'m_value': simp(z3.Extract(15, 0, serial))})


def handlertype(E):
    for f in E.fields(PR):
        if f['n'] == 'response_handler': return f['t'].ta[0]
    raise Unsupported('no response handler')


def queue(E, name):
    """An arbitrary queue."""
    u, m, h = (z3.Function(E.name('%s.%s' % (name, x)), BV64, s) for x, s in (('unit', U8), ('message', IdSort), ('handler', IdSort)))
    t = z3.Function(E.name(name + '.timeout'), BV64, BV64)
    n, s0 = E.fconst(BV64, name + '.n'), E.fconst(BV64, name + '.serial')
    E.assume(z3.And(z3.ULE(n, 1 << 32), z3.ULE(s0, 1 << 48)))
    q = Q(n, lambda i: request(E, u(i), simp(s0 + i), m(i), t(i), h(i)), s0)
    q.handler = h
    E.qassume(lambda j: z3.Implies(z3.ULT(j, n), VALID(m(j))), 'the queued requests are valid')
    return q


FIELDS = {'m_executor', 'm_logger', 'm_tcp_connection', 'm_is_shutdown', 'm_sessions', 'm_parser', 'm_pending_requests', 'm_current_request', 'm_current_timer',
          'm_next_transaction_id'}


class Ch:
    """A channel in an arbitrary state that satisfies the invariant."""
    def __init__(self, E, lv=None, after=None):
        self.E = E
        ty = {f['n']: f['t'] for f in E.fields(C)}
        if not FIELDS <= set(ty): raise Unsupported('the channel has other fields than the invariant speaks of')
        if lv is None:
            self.conn = z3.Const('connection', IdSort); self.executor = z3.Const('executor', IdSort)
            f = {}
            for n, t in ty.items():
                f[n] = SV('modbus::MbapParser', {}) if n == 'm_parser' else E.fresh(t, n) if n not in ('m_pending_requests', 'm_current_request') else None
            f['m_tcp_connection'] = ShPtr(F(), ExtV('modbus::ITcpConnection', self.conn))
            f['m_executor'] = ShPtr(F(), ExtV('exe4cpp::IExecutor', self.executor))
            f['m_logger'] = ShPtr(F(), ExtV('modbus::Logger', E.ident('logger')))
            self.lv = E.alloc(SV(C, f))
        else: self.lv, self.conn, self.executor = lv, after.conn, after.executor
        name = 'L' if after is None else 'later'
        self.q = queue(E, name)
        self.shut = E.fconst(z3.BoolSort(), name + '.shutdown')
        self.timer = E.ident(name + '.timer')
        if after is not None:
            E.assume(z3.Implies(after.shut, self.shut))                      # a channel stays shut down
            E.assume(z3.UGE(self.q.s0 + self.q.n, after.q.s0 + after.q.n))   # and no accepted request is forgotten
            E.assume(z3.UGE(self.q.s0, after.q.s0))
        E.assume(z3.Implies(self.shut, self.q.n == 0))
        q = self.q
        put = lambda n, v: E.write(self.lv.sub(n), v)
        put('m_is_shutdown', self.shut)
        put('m_current_request', UPtr(q.n == 0, q.elem(bv(0))))
        put('m_pending_requests', Vec(pending_type(ty), simp(z3.If(q.n == 0, bv(0), q.n - 1)), lambda i: UPtr(F(), q.elem(simp(i + 1)))))
        put('m_next_transaction_id', tid(simp(q.s0 + q.n)))
        sid = z3.Function(E.name('session'), BV64, IdSort); sn = E.fconst(BV64, 'sessions.n')
        E.assume(z3.ULE(sn, 1 << 32))
        self.session, self.nsessions = sid, sn
        put('m_sessions', Vec(ty['m_sessions'].ta[0], sn, lambda i: ShPtr(F(), ExtV('modbus::IClientSession', sid(i)))))
        tn = E.fconst(z3.BoolSort(), 'timer.null')
        E.assume(z3.Implies(q.n != 0, z3.Not(tn)))
        put('m_current_timer', TimerV(tn, self.timer))
        # fields the invariant does not speak of
        for n, t in ty.items():
            if n not in FIELDS: put(n, E.fresh(t, n))
        self.before = dict(E.read(self.lv).f)
        self.cells = {c: v for c, v in E.st.cells.items() if c != self.lv.cell}

    @property
    def ptr(self): return ShPtr(F(), self.lv)
    def get(self, n): return self.E.read(self.lv).f[n]


def pending_type(ty): return ty['m_pending_requests'].ta[0]


def is_exception(cls):
    def j(E, x, label):
        if not isinstance(x, ExpV): E.oblige(F(), label + ': an expected'); return
        E.oblige(z3.Not(x.valid), label + ': an error')
        E.prove_eq(ExcV(bv(E.exctag(cls), 8), x.exc.mtype, x.exc.id), x.exc, label + ': ' + cls)
    return j


def is_data(view):
    def j(E, x, label):
        if not isinstance(x, ExpV): E.oblige(F(), label + ': an expected'); return
        E.oblige(x.valid, label + ': a value')
        E.prove_eq(view, x.val, label + ': the bytes received')
    return j


def refers_to(lv):
    def j(E, x, label):
        E.oblige(z3.Not(x.null), label + ': not null')
        if not (isinstance(x.tgt, LV) and x.tgt.key() == lv.key()): E.oblige(F(), label + ': the channel itself')
    return j


anything = lambda E, x, label: None


def frame_of(r):
    u, t, m = r.f['unit_id'].f['m_value'], r.f['transaction_id'].f['m_value'], r.f['request'].val.id
    def j(E, x, label):
        E.oblige(x.n == FLEN(m), label + ': length of the frame')
        i = skolem(E, 'ix')
        E.oblige(z3.Implies(z3.ULT(i, x.n), x.at(i) == FBYTE(u, t, m, i)), label + ': bytes of the frame')
    return j


def arm(E, ch, want, q, depth, label):
    """q[0] becomes the request in flight."""
    r = q.elem(bv(0))
    want.add('set_listener', ch.conn, refers_to(ch.lv))
    want.add('send', ch.conn, frame_of(r))
    want.add('start', r.f['timeout'], lambda E, fn, lab: timeout_action(E, ch, fn, r, q.s0, depth, lab), anything)


def timeout_action(E, ch, fn, r, serial, depth, label):
    """The action completes that request if it is still in flight, and does nothing otherwise, whenever it runs."""
    if depth >= 2: return     # made by an action judged at depth 1, in an arbitrary state: the same again
    label = 'timeout action'
    def prepare():
        c = Ch(E, ch.lv, ch)
        E.assume(z3.UGE(c.q.s0, serial)); E.assume(z3.UGT(c.q.s0 + c.q.n, serial))   # that request was accepted
        E.assume(z3.ULT(c.q.s0 - serial, 65536))
        if E.branch(z3.And(c.q.s0 == serial, c.q.n != 0)):
            # the same request, so the same content
            E.assume(eqv(E, c.q.elem(bv(0)), r, excid=True))
        return c
    def run(c, call):
        noexcept(E, call, label)
        want = Ev()
        after = c.q
        if E.branch(z3.And(z3.Not(c.shut), c.q.s0 == serial, c.q.n != 0)):
            want.add('call', c.q.elem(bv(0)).f['response_handler'].id, is_exception('modbus::TimeoutException'))
            after = c.q.tail()
            head_changes(E, c, want, after, depth + 1, label)
        settle(E, c, want, after, c.shut, label)
    later(E, fn, prepare, run, label)


def head_changes(E, ch, want, q, depth, label):
    if E.branch(q.n != 0): arm(E, ch, want, q, depth, label)


def settle(E, ch, want, q, shut, label, but=(), ignore=()):
    """What was done is what was wanted, and the object stands for the queue q."""
    log = list(E.st.log)
    compare(E, want, log, label, ignore=('cancel', 'newparser') + tuple(ignore))
    o = E.read(ch.lv)
    E.prove_eq(shut, o.f['m_is_shutdown'], label + ': whether the channel is shut down')
    cur, pend = o.f['m_current_request'], o.f['m_pending_requests']
    E.oblige(cur.null == (q.n == 0), label + ': a request is in flight exactly when one is left')
    if not ctrue(cur.null) and not E.valid(cur.null):
        pc = list(E.st.pc)
        E.st.pc.append(q.n != 0)
        E.prove_eq(q.elem(bv(0)), cur.val, label + ': the request in flight')
        E.st.pc = pc
    E.oblige(pend.n == z3.If(q.n == 0, bv(0), q.n - 1), label + ': the number of waiting requests')
    i = skolem(E, 'ix')
    pc = list(E.st.pc)
    E.st.pc.append(z3.And(q.n != 0, z3.ULT(i, q.n - 1)))
    r, _ = E.smt(E.st.pc, level=1, timeout=3000)
    if r != z3.unsat:
        x = pend.at(i)
        E.oblige(z3.Not(x.null), label + ': a waiting request')
        E.prove_eq(q.elem(simp(i + 1)), x.val, label + ': the waiting requests')
        E.oblige(VALID(q.elem(simp(i + 1)).f['request'].val.id), label + ': the waiting requests are valid')
    E.st.pc = pc
    E.prove_eq(tid(simp(q.s0 + q.n)), o.f['m_next_transaction_id'], label + ': the next transaction identifier')
    E.oblige(z3.Implies(shut, q.n == 0), label + ': nothing is left after shutdown')
    # the timer of the request in flight runs and its handle is the one kept
    starts = [e for e in log if e[0] == 'start']
    if E.branch(q.n != 0):
        live = starts[-1][3] if starts else TimerV(F(), ch.timer)
        fresh = log.index(starts[-1]) if starts else -1
        E.prove_eq(live, o.f['m_current_timer'], label + ': the timer kept is the one of the request in flight')
        for k, e in enumerate(log):
            if e[0] == 'cancel' and k > fresh: E.oblige(e[1] != live.id, label + ': the timer of the request in flight is not cancelled')
    for n in ('m_executor', 'm_tcp_connection'): E.prove_eq(ch.before[n], o.f[n], '%s: %s stays' % (label, n))
    if 'm_sessions' not in but: E.prove_eq(ch.before['m_sessions'], o.f['m_sessions'], label + ': the sessions stay')
    for c, v in ch.cells.items():
        if E.st.cells[c] is not v and c not in but: E.prove_eq(v, E.st.cells[c], label + ': nothing else changes')


def channel_unit(props, name, slow=1):
    def d(fn):
        @unit(props, C + '::' + name, 'client', slow)
        def _(E):
            E.contracts = CONTRACTS
            return E.unit(C + '::' + name, lambda: fn(E))
        return fn
    return d


@channel_unit('C12 C13 C14', C.split('::')[1] + ' (constructor)')
def _(E):
    ex, lo, co = (ShPtr(F(), ExtV(c, z3.Const(n, IdSort))) for c, n in (('exe4cpp::IExecutor', 'executor'), ('modbus::Logger', 'logger'), ('modbus::ITcpConnection', 'connection')))
    E.st.log = []
    lv = E.newobject(C, [ex, lo, co])
    o = E.read(lv)
    E.oblige(z3.And(z3.Not(o.f['m_is_shutdown']), o.f['m_current_request'].null, o.f['m_pending_requests'].n == 0, o.f['m_sessions'].n == 0), 'a new channel runs and is empty')
    E.prove_eq(tid(bv(0)), o.f['m_next_transaction_id'], 'transaction identifiers start at 0')
    E.prove_eq(co, o.f['m_tcp_connection'], 'the connection given'); E.prove_eq(ex, o.f['m_executor'], 'the executor given')
    ps = [e for e in E.st.log if e[0] == 'newparser']
    E.oblige(z3.BoolVal(len(ps) == 1), 'one parser')
    refers_to(lv)(E, ps[0][1], 'the parser reports to the channel')
    compare(E, Ev(), E.st.log, 'constructor', ignore=('newparser',))


@channel_unit('C12 C13 C14', 'send_request')
def _(E):
    ch = Ch(E)
    f = method(E, C, 'send_request')
    unit_, msg, t = E.fconst(U8, 'unit'), z3.Const('message', IdSort), E.fconst(BV64, 'timeout')
    h = z3.Const('handler', IdSort)
    args = [E.alloc(SV('modbus::UnitIdentifier', {'m_value': unit_})), E.alloc(ExtV('modbus::IMessage', msg)), E.alloc(t), FnV('opaque', id=h, fty=handlertype(E))]
    E.st.log = []
    noexcept(E, lambda: E.call_body(f, ch.lv, args), 'send_request')
    want = Ev()
    log = E.st.log
    if E.branch(ch.shut):
        # nothing has to happen any more; what is posted must be harmless
        for e in log:
            if e[0] == 'post': posted(E, ch, e[1], msg, unit_, t, h)
        settle(E, ch, want, ch.q, ch.shut, 'send_request after shutdown', ignore=('post',))
        return
    want.add('post', lambda E, fn, lab: posted(E, ch, fn, msg, unit_, t, h))
    settle(E, ch, want, ch.q, ch.shut, 'send_request')


def posted(E, ch, fn, msg, unit_, t, h):
    label = 'action posted by send_request'
    def run(c, call):
        noexcept(E, call, label)
        want = Ev()
        if E.branch(VALID(msg)):
            if E.branch(c.shut): settle(E, c, want, c.q, c.shut, label); return
            r = request(E, unit_, simp(c.q.s0 + c.q.n), msg, t, h)
            after = c.q.append(r)
            if E.branch(c.q.n == 0): arm(E, c, want, after, 0, label)
            settle(E, c, want, after, c.shut, label)
        else:
            # told at once that the request is malformed; after a shutdown in between it may not be told
            if any(e[0] == 'call' for e in E.st.log) or not E.branch(c.shut):
                want.add('call', h, is_exception('modbus::MalformedModbusRequestException'))
            settle(E, c, want, c.q, c.shut, label)
    later(E, fn, lambda: Ch(E, ch.lv, ch), run, label)


@channel_unit('C12 C13 C14', 'on_mbap_message')
def _(E):
    ch = Ch(E)
    f = method(E, C, 'on_mbap_message')
    u, t = E.fconst(U8, 'unit'), E.fconst(U16, 'transaction')
    data = E.fresh(E.prog.types['ser4cpp::rseq_t'] if 'ser4cpp::rseq_t' in E.prog.types else rectype(E, 'ser4cpp::rseq_t'), 'data')
    m = E.alloc(SV('modbus::MbapMessage', dict(unit_id=SV('modbus::UnitIdentifier', {'m_value': u}), transaction_id=SV('modbus::TransactionIdentifier', {'m_value': t}), data=data)))
    ch.cells = dict(E.st.cells); ch.cells.pop(ch.lv.cell)
    E.st.log = []
    noexcept(E, lambda: E.call_body(f, ch.lv, [m]), 'message received')
    want = Ev(); q = ch.q
    r = q.elem(bv(0))
    if E.branch(z3.And(z3.Not(ch.shut), q.n != 0, r.f['unit_id'].f['m_value'] == u, r.f['transaction_id'].f['m_value'] == t)):
        want.add('call', r.f['response_handler'].id, is_data(data))
        q = q.tail()
        head_changes(E, ch, want, q, 0, 'message received')
    settle(E, ch, want, q, ch.shut, 'message received')


def rectype(E, n):
    for t in E.prog.types.values():
        if t.n == n: return t
    raise Unsupported('no type ' + n)


@channel_unit('C12 C13 C14', 'on_error')
def _(E):
    ch = Ch(E)
    f = method(E, C, 'on_error')
    E.st.log = []
    s = E.alloc(StrV(z3.Const('reason', StrSort)))
    ch.cells = {c: v for c, v in E.st.cells.items() if c != ch.lv.cell}
    noexcept(E, lambda: E.call_body(f, ch.lv, [s]), 'connection error')
    want = Ev(); q = ch.q
    if not E.branch(ch.shut):
        want.cover('call', q.n, lambda i: (ch.q.handler(i), is_exception('modbus::ConnectionException')), by_id(ch.q.handler))
        E.oblige(z3.BoolVal(any(e[0] == 'reset' for e in E.st.log)), 'connection error: the parser forgets what it received')
        q = q.none()
    settle(E, ch, want, q, ch.shut, 'connection error', ignore=('reset',))


@channel_unit('C14 C12', 'on_connected')
def _(E):
    ch = Ch(E)
    f = method(E, C, 'on_connected')
    E.st.log = []
    noexcept(E, lambda: E.call_body(f, ch.lv, []), 'connected')
    if not E.branch(ch.shut):
        E.oblige(z3.BoolVal(any(e[0] == 'reset' for e in E.st.log)), 'connected: the parser forgets what it received before')
    settle(E, ch, Ev(), ch.q, ch.shut, 'connected', ignore=('reset',))


@channel_unit('C14 C12', 'on_receive')
def _(E):
    ch = Ch(E)
    f = method(E, C, 'on_receive')
    data = E.fresh(rectype(E, 'ser4cpp::rseq_t'), 'data')
    a = E.alloc(data)
    ch.cells = {c: v for c, v in E.st.cells.items() if c != ch.lv.cell}
    E.st.log = []
    noexcept(E, lambda: E.call_body(f, ch.lv, [a]), 'bytes received')
    want = Ev()
    if not E.branch(ch.shut): want.add('parse', data)
    settle(E, ch, want, ch.q, ch.shut, 'bytes received')


@channel_unit('C12 C19', 'shutdown')
def _(E):
    ch = Ch(E)
    f = method(E, C, 'shutdown')
    E.st.log = []
    noexcept(E, lambda: E.call_body(f, ch.lv, []), 'shutdown')
    def posted(E, fn, lab):
        def run(c, call):
            noexcept(E, call, 'shutdown action')
            want = Ev()
            want.cover('session_shutdown', c.nsessions, lambda i: (c.session(i),), by_id(c.session))
            if not E.branch(c.shut): want.add('conn_shutdown', c.conn)
            settle(E, c, want, c.q.none(), T(), 'shutdown action', but=('m_sessions',), ignore=('reset',) + (('conn_shutdown',) if E.valid(c.shut) else ()))
            E.oblige(E.read(c.lv).f['m_sessions'].n == 0, 'shutdown action: no session is left')
        later(E, fn, lambda: Ch(E, ch.lv, ch), run, 'shutdown action')
    want = Ev()
    want.add('post', posted)
    settle(E, ch, want, ch.q, ch.shut, 'shutdown')


@channel_unit('C19 C12', 'create_session')
def _(E):
    ch = Ch(E)
    f = method(E, C, 'create_session')
    u, t = E.fconst(U8, 'unit'), E.fconst(BV64, 'timeout')
    uv = SV('modbus::UnitIdentifier', {'m_value': u})
    a = [E.alloc(uv), E.alloc(t)]
    E.st.log = []
    r = noexcept(E, lambda: E.call_body(f, ch.lv, a), 'create_session')
    r = E.read(r) if isinstance(r, LV) else r
    want = Ev()
    ss = E.read(ch.lv).f['m_sessions']
    if E.branch(ch.shut):
        E.oblige(r.null, 'create_session: none after shutdown')
        E.prove_eq(ch.before['m_sessions'], ss, 'create_session: the sessions stay')
        settle(E, ch, want, ch.q, ch.shut, 'create_session'); return
    E.oblige(z3.Not(r.null), 'create_session: a session')
    got = [e for e in E.st.log if e[0] == 'newsession']
    want.add('newsession', ch.before['m_executor'], refers_to(ch.lv), uv, t, anything)
    settle(E, ch, want, ch.q, ch.shut, 'create_session', but=('m_sessions',))
    if len(got) == 1:
        E.prove_eq(ExtV('modbus::IClientSession', got[0][5]), r.tgt, 'create_session: returns the session made')
        old = ch.before['m_sessions']
        E.prove_eq(Vec(old.ety, simp(old.n + 1), lambda i: ite(i == old.n, ShPtr(F(), ExtV('modbus::IClientSession', got[0][5])), old.at(i))), ss, 'create_session: the channel knows it')
