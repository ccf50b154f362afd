"""C15, C16, C24: the server channel, its listening server and the connections' listeners."""
from .common import *
from .actors import *
from .codec import MSGS
from .client import rectype, refers_to, anything, snap
from .session import extptr, ev, FakeF
from vc.lib import newobj

CH = 'modbus::ServerChannelTcp'
LI = 'modbus::ServerConnectionListener'
BU = 'modbus::ServerConnectionListenerBuilder'
AS = 'modbus::AsioServer'
CONN = 'modbus::AsioServerTcpConnection'
U8, U16, U32 = z3.BitVecSort(8), z3.BitVecSort(16), z3.BitVecSort(32)
NAMES.update(ask='sessions asked', session_shutdown='sessions told', server_start='listening server started', server_shutdown='listening server shut down', mbap='frames handed to the channel',
             close='connections closed', start_conn='connections started', accept='accepts started', sock_close='acceptor closed', newconn='connection made', build='listener built', listen='listening')


# ---- C15
class Served:
    """A server channel in an arbitrary state: which sessions are registered, whether it runs."""
    def __init__(self, E, lv=None):
        self.E = E
        if lv is None:
            f = {}
            for x in E.fields(CH):
                n, t = x['n'], x['t']
                f[n] = extptr(t.ta[0].n, n) if t.k == 'rec' and t.base == 'std::shared_ptr' else E.fresh(t, n)
            if not {'m_executor', 'm_server', 'm_is_shutdown', 'm_is_started', 'm_sessions'} <= set(f): raise Unsupported('the server channel has other fields than the specification speaks of')
            self.lv = E.alloc(SV(CH, f))
        else:
            self.lv = lv
            for x in E.fields(CH):
                if not (x['t'].k == 'rec' and x['t'].base == 'std::shared_ptr'): E.write(lv.sub(x['n']), E.fresh(x['t'], 'later.' + x['n']))
        self.sid = z3.Function(E.name('session'), BV64, IdSort)
        m = E.read(self.lv).f['m_sessions']
        self.ms = MapV(m.vty, m.kw, m.pres, lambda k, s=self.sid: ShPtr(F(), ExtV('modbus::IServerSession', s(k))), None, m.ordered, m.nxt)
        E.write(self.lv.sub('m_sessions'), self.ms)
        self.snap()
    def snap(self):
        E = self.E
        self.before = dict(E.read(self.lv).f)
        self.shut, self.started = self.before['m_is_shutdown'], self.before['m_is_started']
        self.cells = {c: v for c, v in E.st.cells.items() if c != self.lv.cell}
        return self
    def later(self): return Served(self.E, self.lv)
    def stays(self, label, but=()):
        o = self.E.read(self.lv)
        for n, v in self.before.items():
            if n not in but: self.E.prove_eq(v, o.f[n], '%s: %s stays' % (label, n))
        for c, v in self.cells.items():
            if self.E.st.cells[c] is not v: self.E.prove_eq(v, self.E.st.cells[c], label + ': nothing else changes')


def framing(E, f, this, a, e):
    """Contract proved under C01: what the frame holds is known by the number of the framing."""
    u, t, m, w = val(E, a[0]), val(E, a[1]), E.read(a[2]), E.read(a[3])
    n = E.fconst(BV64, 'frame.n'); byte = z3.Function(E.name('frame.byte'), BV64, U8)
    E.assume(z3.And(z3.UGE(n, 8), z3.ULE(n, 260)))
    E.oblige(z3.ULE(n, w.n), 'the frame fits the buffer')
    E.st.log.append(('frame', u, t, m, n, byte))
    b = E.read(w.buf); at = b.at; off = w.off
    E.write(w.buf, b.with_part('at', lambda i: z3.If(z3.And(z3.ULE(off, i), z3.ULT(i - off, n)), byte(simp(i - off)), at(i))))
    E.write(a[3], Wseq(w.buf, simp(off + n), simp(w.n - n)))
    return Rseq(w.buf, off, n)


def sent_frame(unit_, tid_, judge):
    """The bytes sent are one frame, and it was made of those."""
    def j(E, x, label):
        fr = [e for e in E.st.log if e[0] == 'frame']
        if len(fr) != 1: E.oblige(F(), '%s: %d frames made' % (label, len(fr))); return
        _, u, t, m, n, byte = fr[0]
        E.prove_eq(unit_, u, label + ': the unit identifier of the request')
        E.prove_eq(tid_, t, label + ': the transaction identifier of the request')
        E.oblige(x.n == n, label + ': the whole frame')
        i = skolem(E, 'ix')
        E.oblige(z3.Implies(z3.ULT(i, n), x.at(i) == byte(i)), label + ': the bytes of the frame')
        judge(E, m, label)
    return j


def message_is(make, what):
    """The same message as the one the real constructor builds."""
    def j(E, m, label):
        w = make()
        if isinstance(m, ExtV): E.oblige(F(), label + ': ' + what); return
        if m.cls != w.cls: E.oblige(F(), '%s: %s instead of %s' % (label, m.cls, w.cls)); return
        E.prove_eq(w, m, '%s: %s' % (label, what))
    return j


def mtype_of(x): return x.mtype


@unit('C15', CH + '::on_mbap', 'server', 3)
def _(E):
    f = method(E, CH, 'on_mbap')
    parsers = {}
    for m in MSGS: parsers[method(E, m.reqimpl, 'parse').m] = m
    def path():
        s = Served(E)
        uv, tv = E.fresh(rec(E, 'modbus::UnitIdentifier'), 'unit'), E.fresh(rec(E, 'modbus::TransactionIdentifier'), 'transaction')
        data = E.fresh(rectype(E, 'ser4cpp::rseq_t'), 'data')
        msg = E.alloc(SV('modbus::MbapMessage', dict(unit_id=uv, transaction_id=tv, data=data)))
        conn = E.alloc(ExtV('modbus::ITcpConnection', z3.Const('connection', IdSort)))
        s.snap()
        got = {}
        def parse(E, f2, this, a, e):
            """Contract proved under C04."""
            mm = parsers.get(f2.m)
            if mm is None: raise Unsupported('parse of ' + f2.q)
            E.prove_eq(data, val(E, a[0]), 'the PDU of the frame is decoded')
            if mm.name not in got: got[mm.name] = E.fresh(f2.ret, 'request')
            return got[mm.name]
        answers = []
        def on_request(E, f2, this, a, e):
            r = E.fresh(f2.ret, 'answer')
            answers.append((stripq(ptype(f2, 0).n), r))
            E.st.log.append(('ask', E.read(this).id, E.read(a[0])))
            return r
        E.contracts = {'modbus::MbapMessage::build_message': framing, 'ext modbus::IServerSession::on_request': on_request,
                       'ext modbus::ITcpConnection::send': lambda E, f2, this, a, e: E.st.log.append(('send', E.read(this).id, snap(E, val(E, a[0]))))}
        for m in MSGS: E.contracts[stripq(method(E, m.reqimpl, 'parse').q)] = parse
        E.st.log = []
        noexcept(E, lambda: E.call_body(f, s.lv, [msg, conn]), 'frame received')
        want = Ev(); cid = E.read(conn).id
        def reply(judge): want.add('send', cid, sent_frame(uv, tv, judge))
        def exception(fc, t): reply(message_is(lambda: E.read(E.newobject('modbus::ExceptionResponse', [fc, t])), 'the exception response'))
        key = z3.ZeroExt(56, uv.f['m_value'])
        if E.branch(z3.And(z3.Not(s.shut), s.ms.pres(key), data.n != 0)):
            fc = E.read(data.buf).at(simp(data.off))
            for m in MSGS:
                if E.branch(fc == m.fc): break
            else: m = None
            if m is None: exception(fc, enumv(E, 'IllegalFunction'))
            else:
                p = got.get(m.name)
                if p is None: E.oblige(F(), 'the PDU is decoded as %s' % m.name); return
                def failure(x):
                    if E.branch(x.exc.tagv == E.exctag('modbus::ModbusException')): exception(fc, x.exc.mtype)
                if not E.branch(p.valid): failure(p)
                else:
                    want.add('ask', s.sid(key), p.val)
                    if len(answers) == 1:
                        n, r = answers[0]
                        if n != m.req: E.oblige(F(), 'the session is asked as %s' % m.name); return
                        if E.branch(r.valid): reply(message_is(lambda: E.read(E.newobject(m.respimpl, [r.val])), 'the response of the session'))
                        else: failure(r)
        compare(E, want, E.st.log, 'frame received', ignore=('frame',))
        s.stays('frame received')
    return E.unit(CH + '::on_mbap', path)


# ---- C24
def channel_unit(props, name):
    def d(fn):
        @unit(props, CH + '::' + name, 'server')
        def _(E):
            E.contracts = CHANNEL
            return E.unit(CH + '::' + name, lambda: fn(E))
        return fn
    return d


def newbuilder(E, t, a, ps, lv):
    newobj(E, t, FakeF(a, ps), a, lv)
    return ShPtr(F(), lv)

CHANNEL = {
    'ext modbus::IServer::start': lambda E, f, this, a, e: E.st.log.append(('server_start', E.read(this).id, val(E, a[0]))),
    'ext modbus::IServer::shutdown': ev('server_shutdown'),
    'ext modbus::IServerSession::shutdown': ev('session_shutdown'),
}


@channel_unit('C24 C15', '(constructor)')
def _(E):
    a = [extptr('modbus::Logger', 'logger'), extptr('exe4cpp::IExecutor', 'executor'), extptr('modbus::IServer', 'server')]
    E.st.log = []
    o = E.read(E.newobject(CH, a))
    E.prove_eq(a[1], o.f['m_executor'], 'constructor: the executor'); E.prove_eq(a[2], o.f['m_server'], 'constructor: the server')
    E.oblige(z3.And(z3.Not(o.f['m_is_shutdown']), z3.Not(o.f['m_is_started'])), 'constructor: neither started nor shut down')
    k = skolem(E, 'key')
    E.oblige(z3.Implies(z3.ULT(k, o.f['m_sessions'].END), z3.Not(o.f['m_sessions'].pres(k))), 'constructor: no session')
    compare(E, Ev(), E.st.log, 'constructor')


def channel_posts(E, s, args, name, run):
    f = method(E, CH, name)
    s.snap(); E.st.log = []
    noexcept(E, lambda: E.call_body(f, s.lv, args), name)
    label = 'action posted by ' + name
    def judge(E, fn, lab): later(E, fn, s.later, lambda c, call: run(c, call, label), label)
    want = Ev()
    if E.branch(s.shut):
        # nothing has to happen any more, what is posted all the same must do nothing more than it does later
        for e in E.st.log:
            if e[0] == 'post': judge(E, e[1], label)
        compare(E, want, E.st.log, name + ' after shutdown', ignore=('post',))
    else:
        want.add('post', judge)
        compare(E, want, E.st.log, name)
    s.stays(name)


def builder_for(lv):
    def j(E, x, label):
        E.oblige(z3.Not(x.null), label + ': a listener builder')
        o = E.read(x.tgt) if isinstance(x.tgt, LV) else None
        if not isinstance(o, SV) or o.cls != BU: E.oblige(F(), label + ': a listener builder'); return
        refers_to(lv)(E, o.f['m_channel'], label + ': it builds listeners for this channel')
    return j


@channel_unit('C24', 'start')
def _(E):
    s = Served(E)
    def run(c, call, label):
        noexcept(E, call, label)
        want = Ev()
        if E.branch(z3.Or(c.shut, c.started)):
            compare(E, want, E.st.log, label); c.stays(label); return
        want.add('server_start', z3.Const('m_server', IdSort), builder_for(c.lv))
        compare(E, want, E.st.log, label)
        c.stays(label, but=('m_is_started',))
        E.oblige(E.read(c.lv).f['m_is_started'], label + ': started')
    channel_posts(E, s, [], 'start', run)


@channel_unit('C24', 'add_session')
def _(E):
    s = Served(E)
    u = E.fresh(rec(E, 'modbus::UnitIdentifier'), 'unit')
    new = extptr('modbus::IServerSession', 'new')
    def run(c, call, label):
        noexcept(E, call, label)
        compare(E, Ev(), E.st.log, label)
        if E.branch(c.shut): c.stays(label); return
        c.stays(label, but=('m_sessions',))
        k, x = z3.ZeroExt(56, u.f['m_value']), skolem(E, 'key')
        now = E.read(c.lv).f['m_sessions']
        pc = list(E.st.pc)
        E.st.pc.append(z3.ULT(x, now.END))
        E.oblige(now.pres(x) == z3.Or(x == k, c.ms.pres(x)), label + ': the units served')
        E.st.pc.append(now.pres(x))
        E.prove_eq(ite(x == k, new, c.ms.val(x)), now.val(x), label + ': the session of each unit')
        E.st.pc = pc
    channel_posts(E, s, [E.alloc(u), new], 'add_session', run)


@channel_unit('C24', 'shutdown')
def _(E):
    s = Served(E)
    f = method(E, CH, 'shutdown')
    E.st.log = []
    noexcept(E, lambda: E.call_body(f, s.lv, []), 'shutdown')
    def posted(E, fn, lab):
        label = 'action posted by shutdown'
        def run(c, call):
            noexcept(E, call, label)
            want = Ev()
            if E.branch(c.started): want.add('server_shutdown', z3.Const('m_server', IdSort))
            want.by.setdefault('session_shutdown', []).append(('eachkey', None, c.ms, lambda k: (c.sid(k),)))
            compare(E, want, E.st.log, label)
            c.stays(label, but=('m_is_shutdown', 'm_is_started', 'm_sessions'))
            o = E.read(c.lv)
            E.oblige(z3.And(o.f['m_is_shutdown'], z3.Not(o.f['m_is_started'])), label + ': shut down')
            k = skolem(E, 'key')
            E.oblige(z3.Implies(z3.ULT(k, o.f['m_sessions'].END), z3.Not(o.f['m_sessions'].pres(k))), label + ': no session is left')
        later(E, fn, s.later, run, label)
    want = Ev(); want.add('post', posted)
    compare(E, want, E.st.log, 'shutdown')
    s.stays('shutdown')


# ---- the listener of a connection
class Listener:
    """A listener the real constructor made for an arbitrary channel and connection."""
    def __init__(self, E):
        self.E = E
        self.chan = WkPtr(E.fconst(z3.BoolSort(), 'nochannel'), ExtV('modbus::IServerChannelImpl', z3.Const('channel', IdSort)))
        self.conn = WkPtr(E.fconst(z3.BoolSort(), 'noconnection'), ExtV('modbus::ITcpConnection', z3.Const('connection', IdSort)))
        E.contracts = LISTENER
        E.st.log = []
        old = set(E.st.cells)
        self.lv = E.newobject(LI, [self.chan, self.conn])
        self.own = set(E.st.cells) - old
        self.log = E.st.log
        E.st.log = []


def parser_op(name):
    def h(E, f, this, a, e): E.st.log.append((name, E.alloc(this.cell).cell if False else LV(this.cell, this.path)) + tuple(val(E, x) for x in a))
    return h

LISTENER = {
    'modbus::MbapParser::MbapParser': lambda E, f, lv, a, e: (E.st.log.append(('newparser', lv, val(E, a[0]))), SV('modbus::MbapParser', {}))[1],
    'modbus::MbapParser::parse': parser_op('parse'),
    'modbus::MbapParser::reset': parser_op('reset'),
    'ext modbus::IServerChannelImpl::on_mbap': lambda E, f, this, a, e: E.st.log.append(('mbap', E.read(this).id, E.read(a[0]), E.read(a[1]).id)),
}


def listener_unit(name):
    def d(fn):
        @unit('C24', LI + '::' + name, 'server')
        def _(E): return E.unit(LI + '::' + name, lambda: fn(E))
        return fn
    return d


def own_parser(l):
    """The parser made for this listener, and the only one it has."""
    made = [e for e in l.log if e[0] == 'newparser']
    def j(E, x, label):
        if len(made) != 1: E.oblige(F(), label + ': one parser'); return
        if not (isinstance(x, LV) and x.cell in l.own): E.oblige(F(), label + ': the parser of this connection')
    return j


@listener_unit('(constructor)')
def _(E):
    l = Listener(E)
    o = E.read(l.lv)
    made = [e for e in l.log if e[0] == 'newparser']
    if len(made) != 1: E.oblige(F(), 'constructor: a parser of its own'); return
    refers_to(l.lv)(E, made[0][2], 'constructor: the parser reports to this listener')
    compare(E, Ev(), l.log, 'constructor', ignore=('newparser',))


@listener_unit('on_receive')
def _(E):
    l = Listener(E)
    data = E.fresh(rectype(E, 'ser4cpp::rseq_t'), 'data')
    a = E.alloc(data)
    before = dict(E.st.cells)
    noexcept(E, lambda: E.call_body(method(E, LI, 'on_receive'), l.lv, [a]), 'bytes received')
    want = Ev(); want.add('parse', own_parser(l), data)
    compare(E, want, E.st.log, 'bytes received')
    frame(E, before, 'bytes received', ())


@listener_unit('on_error')
def _(E):
    l = Listener(E)
    a = E.alloc(StrV(z3.Const('reason', StrSort)))
    before = dict(E.st.cells)
    noexcept(E, lambda: E.call_body(method(E, LI, 'on_error'), l.lv, [a]), 'connection error')
    want = Ev(); want.add('reset', own_parser(l))
    compare(E, want, E.st.log, 'connection error')
    frame(E, before, 'connection error', ())


@listener_unit('on_mbap_message')
def _(E):
    l = Listener(E)
    m = E.alloc(E.fresh(rec(E, 'modbus::MbapMessage'), 'message'))
    mv = E.read(m)
    before = dict(E.st.cells)
    noexcept(E, lambda: E.call_body(method(E, LI, 'on_mbap_message'), l.lv, [m]), 'frame received')
    alive = []
    for p in (l.chan, l.conn):
        g = E.st.ghost.get(('alive', str(p.tgt)))
        alive.append(z3.And(z3.Not(p.null), g if g is not None else E.fconst(z3.BoolSort(), 'alive')))
    want = Ev()
    if E.branch(z3.And(*alive)): want.add('mbap', l.chan.tgt.id, mv, l.conn.tgt.id)
    compare(E, want, E.st.log, 'frame received')
    frame(E, before, 'frame received', ())


@listener_unit('on_write_done')
def _(E):
    l = Listener(E)
    before = dict(E.st.cells)
    noexcept(E, lambda: E.call_body(method(E, LI, 'on_write_done'), l.lv, []), 'sent')
    compare(E, Ev(), E.st.log, 'sent')
    frame(E, before, 'sent', ())


@unit('C24', BU + '::build', 'server')
def _(E):
    E.contracts = LISTENER
    def path():
        chan = WkPtr(F(), ExtV('modbus::IServerChannelImpl', z3.Const('channel', IdSort)))
        conn = WkPtr(E.fconst(z3.BoolSort(), 'noconnection'), ExtV('modbus::ITcpConnection', z3.Const('connection', IdSort)))
        b = E.newobject(BU, [chan])
        E.prove_eq(chan, E.read(b).f['m_channel'], 'constructor: the channel')
        E.st.log = []
        r = noexcept(E, lambda: E.call_body(method(E, BU, 'build'), b, [conn]), 'build')
        r = val(E, r)
        E.oblige(z3.Not(r.null), 'build: a listener')
        o = r.val
        if not isinstance(o, SV) or o.cls != LI: E.oblige(F(), 'build: a listener'); return
        E.prove_eq(chan, o.f['m_channel'], 'build: for this channel'); E.prove_eq(conn, o.f['m_connection'], 'build: for this connection')
        compare(E, Ev(), E.st.log, 'build', ignore=('newparser',))
        E.oblige(z3.BoolVal(len([e for e in E.st.log if e[0] == 'newparser']) == 1), 'build: with a parser of its own')
    return E.unit(BU + '::build', path)


# ---- C16
SOCK = z3.Function('connection.socket', IdSort, IdSort)
LISTEN = z3.Function('connection.listener', IdSort, IdSort)


def socket_of(E, f, this, a, e):
    return E.alloc(ExtV('asio::basic_stream_socket', SOCK(E.read(this).id)))


def built(E, f, this, a, e):
    c = val(E, a[0])
    E.st.log.append(('build', E.read(this).id, c))
    return UPtr(F(), ExtV('modbus::IConnectionListener', LISTEN(c.tgt.id)))


def set_listener(E, f, this, a, e):
    p = val(E, a[0])
    E.st.log.append(('set_listener', E.read(this).id, p.tgt.id if isinstance(p.tgt, ExtV) else E.read(p.tgt).id))


class Srv:
    """A listening server in an arbitrary state that satisfies the invariant: the list holds the connections being served, oldest
    first, and behind them the one being accepted, if any; as many as counted are served, at most the maximum; none after shutdown."""
    CONST = ('m_logger', 'm_executor', 'm_max_connections', 'm_tcp_acceptor')
    def __init__(self, E, pending=None, lv=None, max_=None, running=None):
        """pending: whether a connection is being accepted (None: either); running: True if not shut down."""
        self.E = E
        ty = {x['n']: x['t'] for x in E.fields(AS)}
        if not set(self.CONST) | {'m_is_shutdown', 'm_num_connections', 'm_connections', 'm_connection_listener_builder'} <= set(ty):
            raise Unsupported('the server has other fields than the invariant speaks of')
        if lv is None:
            f = {}
            for n, t in ty.items():
                if t.k == 'rec' and t.base == 'std::shared_ptr': f[n] = extptr(t.ta[0].n, n)
                elif n == 'm_tcp_acceptor': f[n] = ExtV('asio::basic_socket_acceptor', z3.Const('acceptor', IdSort))
                elif n == 'm_connections': f[n] = None
                else: f[n] = E.fresh(t, n)
            self.lv = E.alloc(SV(AS, f))
        else:
            self.lv = lv
            for n, t in ty.items():
                if n not in self.CONST + ('m_connections', 'm_connection_listener_builder'): E.write(lv.sub(n), E.fresh(t, 'later.' + n))
        put = lambda n, v: E.write(self.lv.sub(n), v)
        self.cid = z3.Function(E.name('connection'), BV64, IdSort); self.pos = z3.Function(E.name('position'), IdSort, BV64)
        self.n = E.fconst(BV64, 'connections')
        self.shut = E.fconst(z3.BoolSort(), 'shut') if running is None else z3.BoolVal(not running)
        self.pending = z3.And(z3.Not(self.shut), E.fconst(z3.BoolSort(), 'pending') if pending is None else z3.BoolVal(pending))
        self.max = E.read(self.lv).f['m_max_connections']
        E.assume(z3.ULT(zx(self.max), 1 << 31))
        self.num = E.fresh(ty['m_num_connections'], 'num')    # counted in a field of any width: that it does not wrap is to be proved
        p = z3.If(self.pending, bv(1), bv(0))
        E.assume(z3.Implies(self.shut, self.n == 0))
        E.assume(z3.Implies(z3.Not(self.shut), z3.And(self.n == zx(self.num) + p, z3.ULE(zx(self.num), zx(self.max)))))
        n, pos, cid = self.n, self.pos, self.cid
        E.qassume(lambda j: z3.Implies(z3.ULT(j, n), pos(cid(j)) == j), 'each connection is in the list once')
        self.ety = ty['m_connections'].ta[0]
        put('m_is_shutdown', self.shut); put('m_num_connections', self.num)
        put('m_connections', Vec(self.ety, n, self.at))
        self.snap()
    def at(self, i): return ShPtr(F(), ExtV(CONN, self.cid(i)))
    def last(self): return self.cid(simp(self.n - 1))
    def snap(self):
        E = self.E
        self.before = dict(E.read(self.lv).f)
        self.cells = {c: v for c, v in E.st.cells.items() if c != self.lv.cell}
        return self
    def now(self, label, conns=None, num=None, shut=None, but=()):
        """The list, the count and whether it is shut down."""
        E = self.E
        o = E.read(self.lv)
        E.prove_eq(self.shut if shut is None else shut, o.f['m_is_shutdown'], label + ': whether it is shut down')
        E.prove_eq(self.before['m_connections'] if conns is None else conns, o.f['m_connections'], label + ': the connections')
        if not ctrue(self.shut if shut is None else shut):
            E.oblige(z3.Or(self.shut if shut is None else shut, zx(o.f['m_num_connections']) == (zx(self.num) if num is None else num)), label + ': the number of connections served')
        for n in self.CONST + ('m_connection_listener_builder',):
            if n not in but: E.prove_eq(self.before[n], o.f[n], '%s: %s stays' % (label, n))
        for c, v in self.cells.items():
            if E.st.cells[c] is not v: E.prove_eq(v, E.st.cells[c], label + ': nothing else changes')


def newconn(s):
    def h(E, t, a, ps, lv):
        x = [val(E, v) for v in a]
        i = E.ident('newconnection')
        # a new object, so another one than those in the list
        E.assume(E.srv.pos(i) == E.srv.n)
        E.st.log.append(('newconn', x[1], x[2], i))
        return ShPtr(F(), ExtV(CONN, i))
    return h


def server_contracts(E): return {
    'ext %s::close' % CONN: ev('close'), 'ext %s::start' % CONN: ev('start_conn'), 'ext %s::set_listener' % CONN: set_listener, 'ext %s::get_socket' % CONN: socket_of,
    'ext modbus::ITcpConnection::close': ev('close'), 'ext modbus::ITcpConnection::set_listener': set_listener,
    'make_shared ' + CONN: newconn(None), 'ext modbus::IServerConnectionListenerBuilder::build': built,
}


def in_strand(fn, E, label):
    """The handler runs in the strand of the server."""
    if not (isinstance(fn, FnV) and fn.kind == 'wrap'): E.oblige(F(), label + ': it runs in the strand'); return
    E.oblige(fn.ex == z3.Const('m_executor', IdSort), label + ': it runs in the strand of the server')


def server_unit(name):
    def d(fn):
        @unit('C16 C20' if name == '(constructor)' else 'C16', AS + '::' + name, 'server')
        def _(E):
            E.contracts = server_contracts(E)
            return E.unit(AS + '::' + name, lambda: fn(E))
        return fn
    return d


def accepting(E, s, want, depth, label):
    """The next accept is under way: an action is posted that starts it."""
    want.add('post', lambda E, fn, lab: accept_action(E, s, fn, depth))


def accept_action(E, s, fn, depth):
    if depth >= 2: return      # made by a handler that was judged in an arbitrary state: the same again
    label = 'accept action'
    def run(c, call):
        E.srv = c
        noexcept(E, call, label)
        want = Ev()
        if E.branch(c.shut):
            compare(E, want, E.st.log, label); c.now(label); return
        made = [e for e in E.st.log if e[0] == 'newconn']
        if len(made) != 1: E.oblige(F(), '%s: %d connections made' % (label, len(made))); return
        i = made[0][3]
        want.add('newconn', c.before['m_executor'], refers_to(c.lv), anything)
        want.by['newconn'][0] += ()
        want.add('accept', z3.Const('acceptor', IdSort), SOCK(i), lambda E, f2, lab: accepted(E, c, f2, i, depth, lab))
        compare(E, want, E.st.log, label)
        at = c.at; n = c.n
        c.now(label, conns=Vec(c.ety, simp(n + 1), lambda k: ite(k == n, ShPtr(F(), ExtV(CONN, i)), at(k))))
    later(E, fn, lambda: Srv(E, pending=False, lv=s.lv), run, label)


def accepted(E, s, fn, i, depth, label):
    in_strand(fn, E, label)
    label = 'handler of the accept'
    from vc.net import fresh_ec, ECB
    def prepare():
        c = Srv(E, pending=True, lv=s.lv)
        if E.branch(z3.Not(c.shut)): E.assume(c.last() == i)
        return c
    def run(c, call):
        E.srv = c
        ec = fresh_ec(E)
        a = E.alloc(ec)
        c.snap()
        noexcept(E, lambda: call(a), label)
        want = Ev()
        if E.branch(c.shut):
            compare(E, want, E.st.log, label); c.now(label); return
        at, n = c.at, c.n
        if E.branch(ECB(ec.id)):
            label2 = label + ' (error)'
            accepting(E, c, want, depth + 1, label2)
            compare(E, want, E.st.log, label2, ignore=('close',))
            for e in E.st.log:
                if e[0] == 'close': E.oblige(e[1] == i if len(e) > 1 else F(), label2 + ': no other connection is closed')
            c.now(label2, conns=Vec(c.ety, simp(n - 1), at))
            return
        evict = E.branch(zx(c.num) == zx(c.max))
        want.add('build', z3.Const('m_connection_listener_builder', IdSort), lambda E, x, lab: E.prove_eq(ExtV('modbus::ITcpConnection', i), x.tgt, lab + ': for this connection'))
        want.add('set_listener', i, LISTEN(i))
        want.add('start_conn', i)
        if evict: want.add('close', c.cid(bv(0)))
        accepting(E, c, want, depth + 1, label)
        compare(E, want, E.st.log, label)
        order = [e[0] for e in E.st.log]
        if 'start_conn' in order and 'set_listener' in order and order.index('start_conn') < order.index('set_listener'): E.oblige(F(), label + ': the listener is set before the connection starts')
        if evict: c.now(label, conns=Vec(c.ety, simp(n - 1), lambda k: at(simp(k + 1))), num=zx(c.num))
        else: c.now(label, num=simp(zx(c.num) + 1))
    later(E, fn, prepare, run, label)


@server_unit('(constructor)')
def _(E):
    lo, ex = extptr('modbus::Logger', 'logger'), extptr('exe4cpp::StrandExecutor', 'm_executor')
    host, port, mx = z3.Const('host', StrSort), E.fconst(U32, 'port'), E.fconst(U32, 'max')
    ept = [f for f in E.prog.funcs.values() if f.cls is not None and f.cls.n == AS and f.ctor and f.ctor not in ('copy', 'move')][0]
    ep = E.fresh(rec(E, 'modbus::Ipv4Endpoint'), 'endpoint')
    E.st.log = []
    lv = E.newobject(AS, [lo, ex, ep, mx])
    o = E.read(lv)
    E.prove_eq(ex, o.f['m_executor'], 'constructor: the executor')
    E.prove_eq(mx, o.f['m_max_connections'], 'constructor: the maximum')
    E.oblige(z3.And(z3.Not(o.f['m_is_shutdown']), o.f['m_num_connections'] == 0, o.f['m_connections'].n == 0), 'constructor: it serves no connection yet')
    want = Ev()
    def where(E, x, label):
        g = lambda n: val(E, E.call_body(method(E, 'modbus::Ipv4Endpoint', n), E.alloc(ep), []))
        from vc.net import ADDR
        E.prove_eq(ADDR(g('get_hostname').s), x.addr.id, label + ': on the address of the endpoint')
        E.prove_eq(z3.Extract(15, 0, g('get_port')), x.port, label + ': on the port of the endpoint')
    want.add('listen', where, o.f['m_tcp_acceptor'].id)
    compare(E, want, E.st.log, 'constructor')


@server_unit('start')
def _(E):
    s = Srv(E, pending=False); E.srv = s
    E.write(s.lv.sub('m_connection_listener_builder'), ShPtr(T(), None)); s.snap()
    b = extptr('modbus::IServerConnectionListenerBuilder', 'm_connection_listener_builder')
    E.st.log = []
    noexcept(E, lambda: E.call_body(method(E, AS, 'start'), s.lv, [b]), 'start')
    E.prove_eq(b, E.read(s.lv).f['m_connection_listener_builder'], 'start: the listener builder')
    want = Ev()
    if E.branch(s.shut):
        for e in E.st.log:
            if e[0] == 'post': accept_action(E, s, e[1], 0)
        compare(E, want, E.st.log, 'start', ignore=('post',))
    else:
        accepting(E, s, want, 0, 'start')
        compare(E, want, E.st.log, 'start')
    s.now('start', but=('m_connection_listener_builder',))


@server_unit('remove_connection')
def _(E):
    s = Srv(E); E.srv = s
    x = z3.Const('ended', IdSort)
    # only a connection that was accepted reports its end
    E.assume(z3.Implies(s.pending, s.last() != x))
    E.st.log = []
    E.st.terms.append(simp(s.n - 1))
    noexcept(E, lambda: E.call_body(method(E, AS, 'remove_connection'), s.lv, [ShPtr(F(), ExtV(CONN, x))]), 'connection ended')
    p, n, at = s.pos(x), s.n, s.at
    served = z3.And(z3.ULT(p, n), s.cid(p) == x)
    E.st.terms.append(p)
    want = Ev()
    if E.branch(served):
        want.add('close', x)
        compare(E, want, E.st.log, 'connection ended')
        s.now('connection ended', conns=Vec(s.ety, simp(n - 1), lambda k: ite(z3.ULT(k, p), at(k), at(simp(k + 1)))), num=simp(zx(s.num) - 1))
    else:
        compare(E, want, E.st.log, 'unknown connection ended')
        s.now('unknown connection ended')


@server_unit('shutdown')
def _(E):
    s = Srv(E); E.srv = s
    E.st.log = []
    noexcept(E, lambda: E.call_body(method(E, AS, 'shutdown'), s.lv, []), 'shutdown')
    def posted(E, fn, lab):
        label = 'shutdown action'
        def run(c, call):
            E.srv = c
            noexcept(E, call, label)
            want = Ev()
            want.cover('close', c.n, lambda i: (c.cid(i),), by_id(c.cid))
            if not E.branch(c.shut): want.add('sock_close', z3.Const('acceptor', IdSort))
            compare(E, want, E.st.log, label, ignore=('sock_close',) if E.valid(c.shut) else ())
            c.now(label, conns=Vec(c.ety, bv(0), c.at), shut=T())
        later(E, fn, lambda: Srv(E, lv=s.lv), run, label)
    want = Ev(); want.add('post', posted)
    compare(E, want, E.st.log, 'shutdown')
    s.now('shutdown')


@server_unit('get_num_connections')
def _(E):
    s = Srv(E); E.srv = s
    E.st.log = []
    r = val(E, noexcept(E, lambda: E.call_body(method(E, AS, 'get_num_connections'), s.lv, []), 'get_num_connections'))
    E.oblige(z3.Or(s.shut, r == zx(s.num)), 'get_num_connections: the number of connections served')
    compare(E, Ev(), E.st.log, 'get_num_connections')
    s.now('get_num_connections')
