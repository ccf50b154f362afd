"""C18 scheduled requests, C19 client sessions."""
from .common import *
from .actors import *
from .codec import MSGS, MAL_RESP
from .client import rectype, refers_to, anything
from vc.lib import newobj

S = 'modbus::ClientSessionImpl'
SR = 'modbus::ScheduledRequest'
NAMES.update(submit='requests submitted', newscheduled='scheduled request made', poll='polling started', stop='polling stopped')


def chan_submit(E, f, this, a, e):
    x = [E.read(v) if isinstance(v, LV) else v for v in a]
    E.st.log.append(('submit', E.read(this).id) + tuple(x))


def ev(name):
    def h(E, f, this, a, e): E.st.log.append((name, E.read(this).id))
    return h


def newscheduled(E, t, a, ps, lv):
    """The real constructor is run: what it stores is what the contract speaks of; the object is known by its identity."""
    fake = FakeF(a, ps)
    newobj(E, t, fake, a, lv)
    i = E.ident('scheduled')
    E.st.log.append(('newscheduled', E.read(lv), i))
    return ShPtr(F(), ExtV('modbus::IScheduledRequest', i))


class FakeF:
    def __init__(self, a, ps): self.ps = ps


CONTRACTS = {
    'ext modbus::IClientChannelImpl::send_request': chan_submit,
    'ext modbus::IClientSession::send_request': chan_submit,
    'make_shared modbus::ScheduledRequest': newscheduled,
    'ext modbus::ScheduledRequest::start': ev('poll'), 'ext modbus::IScheduledRequest::start': ev('poll'),
    'ext modbus::ScheduledRequest::is_running': lambda E, f, this, a, e: E.fconst(z3.BoolSort(), 'running'), 'ext modbus::IScheduledRequest::is_running': lambda E, f, this, a, e: E.fconst(z3.BoolSort(), 'running'),
    'ext modbus::ScheduledRequest::stop': ev('stop'), 'ext modbus::IScheduledRequest::stop': ev('stop'),
}


def extptr(cls, name): return ShPtr(F(), ExtV(cls, z3.Const(name, IdSort)))


class Session:
    def __init__(self, E):
        self.E = E
        f = {}
        for x in E.fields(S):
            n, t = x['n'], x['t']
            if t.k == 'rec' and t.base == 'std::shared_ptr': f[n] = extptr(t.ta[0].n, n)
            elif n == 'm_scheduled_requests': f[n] = None
            else: f[n] = E.fresh(t, n)
        self.ety = [x['t'].ta[0] for x in E.fields(S) if x['n'] == 'm_scheduled_requests'][0]
        self.lv = E.alloc(SV(S, f))
        self.some()
    def later(self):
        """Other requests are scheduled in the meantime."""
        n = Session.__new__(Session); n.E, n.lv, n.ety = self.E, self.lv, self.ety
        return n.some()
    def some(self):
        E = self.E
        self.sid = z3.Function(E.name('scheduled'), BV64, IdSort)
        self.n = E.fconst(BV64, 'scheduled.n'); E.assume(z3.ULE(self.n, 1 << 32))
        E.write(self.lv.sub('m_scheduled_requests'), Vec(self.ety, self.n, lambda i, f=self.sid: ShPtr(F(), ExtV('modbus::IScheduledRequest', f(i)))))
        self.before = dict(E.read(self.lv).f)
        self.cells = {c: v for c, v in E.st.cells.items() if c != self.lv.cell}
        return self
    def get(self, n): return self.before[n]
    def stays(self, label, but=()):
        o = self.E.read(self.lv)
        for n, v in self.before.items():
            if n not in but: self.E.prove_eq(v, o.f[n], '%s: %s stays' % (label, n))
        for c, v in self.cells.items():
            if self.E.st.cells[c] is not v: self.E.prove_eq(v, self.E.st.cells[c], label + ': nothing else changes')


def overloads(E, name, m, n):
    """The overload for the message with n parameters."""
    return method(E, S, name, lambda f: len(f.ps) == n and ptype(f, 0).n == m.req)


def send_unit(m, default):
    nm = '%s::send_request(%s%s)' % (S, m.name, '' if default else ', timeout')
    @unit('C19 C12', nm, 'client')
    def _(E):
        f = overloads(E, 'send_request', m, 2 if default else 3)
        E.contracts = dict(CONTRACTS)
        def path():
            s = Session(E)
            req, v = message(E, m)
            t = s.get('m_default_timeout') if default else E.fconst(BV64, 'timeout')
            h = z3.Const('handler', IdSort)
            args = [E.alloc(v)] + ([] if default else [E.alloc(t)]) + [FnV('opaque', id=h, fty=ptype(f, len(f.ps) - 1).ta[0])]
            s.cells = {c: w for c, w in E.st.cells.items() if c != s.lv.cell}
            E.st.log = []
            noexcept(E, lambda: E.call_body(f, s.lv, args), 'send_request')
            want = Ev()
            want.add('submit', s.get('m_channel').tgt.id, s.get('m_unit_identifier'), req, t, lambda E, fn, lab: answer(E, s, m, fn, req, h))
            compare(E, want, E.st.log, 'send_request')
            s.stays('send_request')
        return E.unit(nm, path)


def message(E, m):
    """The request object made of an arbitrary request."""
    v = E.fresh(rec(E, m.req), 'request')
    return E.read(E.newobject(m.reqimpl, [v])), v


def answer(E, s, m, fn, req, h):
    """What the channel's answer does."""
    label = 'answer of the channel'
    def run(c, call):
        r = E.fresh(rectype(E, 'ser4cpp::rseq_t'), 'bytes')
        valid = E.fconst(z3.BoolVal(True).sort(), 'answered')
        x = ExcV(E.fconst(z3.BitVecSort(8), 'tag'), E.fconst(z3.BitVecSort(32), 'type'), E.ident('error'))
        p = method(E, m.respimpl, 'parse')
        dec = E.fresh(p.ret, 'decoded')
        def parse(E, f, this, a, e):
            """Contract proved under C06."""
            if f.m != p.m: E.oblige(F(), label + ': decoded as the response of that request')
            E.prove_eq(req, E.read(a[0]), label + ': decoded against the request')
            E.prove_eq(r, val(E, a[1]), label + ': the received bytes are decoded')
            return dec
        E.contracts = dict(CONTRACTS); E.contracts[stripq(p.q)] = parse
        good = E.branch(valid)
        a = E.alloc(ExpV(rectype(E, 'ser4cpp::rseq_t'), valid, r, x))
        noexcept(E, lambda: call(a), label)
        E.contracts = dict(CONTRACTS)
        want = Ev()
        def delivered(E, y, lab):
            if not isinstance(y, ExpV): E.oblige(F(), lab + ': an expected'); return
            if good: E.prove_eq(dec, y, lab + ': the decoding', excid=True)
            else:
                E.oblige(z3.Not(y.valid), lab + ': the error')
                E.prove_eq(x, y.exc, lab + ': the very error', excid=True)
        want.add('call', h, delivered)
        compare(E, want, E.st.log, label)
        c.stays(label)
    later(E, fn, lambda: s.later(), run, label)


def schedule_unit(m, default):
    nm = '%s::schedule_request(%s%s)' % (S, m.name, '' if default else ', timeout')
    @unit('C19 C18', nm, 'client')
    def _(E):
        f = overloads(E, 'schedule_request', m, 3 if default else 4)
        E.contracts = dict(CONTRACTS)
        def path():
            s = Session(E)
            v = E.fresh(rec(E, m.req), 'request')
            t = s.get('m_default_timeout') if default else E.fconst(BV64, 'timeout')
            p = E.fconst(BV64, 'period')
            h = z3.Const('handler', IdSort)
            args = [E.alloc(v)] + ([] if default else [E.alloc(t)]) + [E.alloc(p), FnV('opaque', id=h, fty=ptype(f, len(f.ps) - 1).ta[0])]
            s.cells = {c: w for c, w in E.st.cells.items() if c != s.lv.cell}
            E.st.log = []
            r = noexcept(E, lambda: E.call_body(f, s.lv, args), 'schedule_request')
            r = E.read(r) if isinstance(r, LV) else r
            made = [e for e in E.st.log if e[0] == 'newscheduled']
            if len(made) != 1: E.oblige(F(), 'schedule_request: %d scheduled requests made' % len(made)); return
            o, i = made[0][1], made[0][2]
            lab = 'schedule_request: the scheduled request has '
            for n, w in (('m_executor', s.get('m_executor')), ('m_request', v), ('m_timeout', t), ('m_frequency', p)): E.prove_eq(w, o.f[n], lab + 'the ' + n[2:])
            refers_to(s.lv)(E, o.f['m_session'], lab + 'this session')
            E.prove_eq(FnV('opaque', id=h, fty=None), o.f['m_handler'], lab + 'the handler')
            E.prove_eq(ShPtr(F(), ExtV('modbus::IScheduledRequest', i)), r, 'schedule_request: returns it')
            want = Ev()
            want.add('newscheduled', anything, anything)
            want.add('poll', i)
            want.add('post', lambda E, fn, lab: remembered(E, s, fn, i))
            compare(E, want, E.st.log, 'schedule_request')
            s.stays('schedule_request')
        return E.unit(nm, path)


def remembered(E, s, fn, i):
    label = 'action posted by schedule_request'
    def run(c, call):
        noexcept(E, call, label)
        compare(E, Ev(), E.st.log, label)
        c.stays(label, but=('m_scheduled_requests',))
        old = c.before['m_scheduled_requests']
        E.prove_eq(Vec(old.ety, simp(old.n + 1), lambda k: ite(k == old.n, ShPtr(F(), ExtV('modbus::IScheduledRequest', i)), old.at(k))),
                   E.read(s.lv).f['m_scheduled_requests'], label + ': the session knows it')
    later(E, fn, lambda: s.later(), run, label)


for m in MSGS:
    for d in (False, True): send_unit(m, d)
    if m.name.startswith('Read') or m.req.startswith('modbus::Read'):
        for d in (False, True): schedule_unit(m, d)


@unit('C19 C18', S + '::shutdown', 'client')
def _(E):
    f = method(E, S, 'shutdown')
    E.contracts = CONTRACTS
    def path():
        s = Session(E)
        E.st.log = []
        noexcept(E, lambda: E.call_body(f, s.lv, []), 'shutdown')
        def posted(E, fn, lab):
            lab = 'action posted by shutdown'
            def run(c, call):
                noexcept(E, call, lab)
                want = Ev()
                want.cover('stop', c.n, lambda i: (c.sid(i),), by_id(c.sid))
                compare(E, want, E.st.log, lab)
                c.stays(lab, but=('m_scheduled_requests',))
                E.oblige(E.read(c.lv).f['m_scheduled_requests'].n == 0, lab + ': no scheduled request is left')
            later(E, fn, lambda: s.later(), run, lab)
        want = Ev(); want.add('post', posted)
        compare(E, want, E.st.log, 'shutdown')
        s.stays('shutdown')
    return E.unit(S + '::shutdown', path)


@unit('C19', S + ' (constructor)', 'client')
def _(E):
    def path():
        a = [extptr('exe4cpp::IExecutor', 'executor'), extptr('modbus::Logger', 'logger'), extptr('modbus::IClientChannelImpl', 'channel'),
             E.fresh(rec(E, 'modbus::UnitIdentifier'), 'unit'), E.fconst(BV64, 'timeout')]
        E.st.log = []
        lv = E.newobject(S, a)
        o = E.read(lv)
        for n, x in zip(('m_executor', None, 'm_channel', 'm_unit_identifier', 'm_default_timeout'), a):
            if n: E.prove_eq(x, o.f[n], 'constructor: ' + n)
        E.oblige(o.f['m_scheduled_requests'].n == 0, 'constructor: nothing is scheduled')
        compare(E, Ev(), E.st.log, 'constructor')
    return E.unit(S + ' (constructor)', path)


# ---- C18
def cls_of(m): return '%s<%s, %s>' % (SR, m.req, m.resp)


class Sched:
    """A scheduled request in an arbitrary state: running or not, and the number of its latest run."""
    CONST = ('m_session', 'm_handler', 'm_executor', 'm_request', 'm_timeout')
    def __init__(self, E, cls):
        self.E, self.cls = E, cls
        f = {}
        for x in E.fields(cls):
            n, t = x['n'], x['t']
            if t.k == 'rec' and t.base == 'std::shared_ptr': f[n] = extptr(t.ta[0].n, n)
            elif n == 'm_handler': f[n] = FnV('opaque', id=z3.Const('handler', IdSort), fty=t.ta[0])
            else: f[n] = E.fresh(t, n)
        if not {'m_running', 'm_run', 'm_frequency', 'm_timer'} | set(self.CONST) <= set(f): raise Unsupported('the scheduled request has other fields than the invariant speaks of')
        self.lv = E.alloc(SV(cls, f))
        self.snap()
    def snap(self):
        E = self.E
        self.before = dict(E.read(self.lv).f)
        self.running, self.run, self.period = (self.before[n] for n in ('m_running', 'm_run', 'm_frequency'))
        # fewer runs than these: of a narrower counter it is to be proved that it does not wrap
        if self.run.size() >= 32: E.assume(z3.ULT(zx(self.run), (1 << min(62, self.run.size())) - (1 << 20)))
        self.cells = {c: v for c, v in E.st.cells.items() if c != self.lv.cell}
        return self
    def later(self, run=None):
        """Any number of starts, stops, period changes, responses and timers in between; run: one that has begun."""
        E = self.E
        old = self.run if run is None else run
        for x in E.fields(self.cls):
            if x['n'] not in self.CONST: E.write(self.lv.sub(x['n']), E.fresh(x['t'], 'later.' + x['n']))
        n = Sched.__new__(Sched); n.E, n.cls, n.lv = E, self.cls, self.lv
        n.snap()
        E.assume(z3.UGE(n.run, old))
        return n
    def settle(self, label, want, ignore=(), own=None, **now):
        """now: the fields that change, and what they become (None: anything). A timer may be cancelled where no run waits for it: before or
        after a run, or (own) in the response or timer action of the present run, whose timer has expired, but not the timer started there."""
        E = self.E
        o = E.read(self.lv)
        started = [e[-1].id for e in E.st.log if e[0] in ('start', 'start_at') and isinstance(e[-1], TimerV)]
        for e in E.st.log:
            if e[0] != 'cancel': continue
            ok = [z3.Not(self.running), z3.Not(o.f['m_running'])]
            if own is not None: ok.append(z3.And(own, *[e[1] != t for t in started]))
            E.oblige(z3.Or(ok), label + ': the timer the run waits for is not cancelled')
        compare(E, want, E.st.log, label, ignore=('cancel',) + tuple(ignore))
        for n, v in self.before.items():
            w = now.get(n, v)
            if n == 'm_timer' or w is None: continue
            E.prove_eq(w, o.f[n], '%s: %s' % (label, n if n in now else n + ' stays'))
        for c, v in self.cells.items():
            if E.st.cells[c] is not v: E.prove_eq(v, E.st.cells[c], label + ': nothing else changes')


def submission(E, s, want, run, depth):
    b = s.before
    want.add('submit', b['m_session'].tgt.id, b['m_request'], b['m_timeout'], lambda E, fn, lab: response(E, s, fn, run, depth))


def response(E, s, fn, run, depth):
    """The handler is told; while that very run lasts, the next sending is set one current period later."""
    if depth >= 2: return    # made by an action that was judged in an arbitrary state: the same again
    label = 'response'
    def go(c, call):
        h = c.before['m_handler']
        t = h.fty.ps[0]
        x = E.fresh(t.to if t.k == 'ref' else t, 'response')
        a = E.alloc(x)
        c.cells = {k: v for k, v in E.st.cells.items() if k != c.lv.cell}
        noexcept(E, lambda: call(a), label)
        want = Ev()
        def same(E, y, lab): E.prove_eq(x, y, lab, excid=True)
        want.add('call', h.id, same)
        if E.branch(z3.And(c.running, c.run == run)):
            want.add('start', c.period, lambda E, f2, lab: timer(E, c, f2, run, depth), anything)
        c.settle(label, want, own=c.run == run)
    later(E, fn, lambda: s.later(run), go, label)


def timer(E, s, fn, run, depth):
    """Sends while that very run lasts, and else does nothing."""
    label = 'timer action'
    def go(c, call):
        noexcept(E, call, label)
        want = Ev()
        if E.branch(z3.And(c.running, c.run == run)): submission(E, c, want, run, depth + 1)
        c.settle(label, want, own=c.run == run)
    later(E, fn, lambda: s.later(run), go, label)


def sched_unit(m, name):
    nm = '%s::%s' % (cls_of(m), name)
    def d(body):
        @unit('C18', nm, 'client')
        def _(E):
            E.contracts = CONTRACTS
            f = method(E, cls_of(m), name)
            return E.unit(nm, lambda: body(E, f))
    return d


def posts(E, s, f, args, name, run):
    """The member only posts an action; run(c, call) judges it, run later."""
    s.cells = {c: v for c, v in E.st.cells.items() if c != s.lv.cell}
    E.st.log = []
    noexcept(E, lambda: E.call_body(f, s.lv, args), name)
    want = Ev()
    want.add('post', lambda E, fn, lab: later(E, fn, lambda: s.later(), run, 'action posted by ' + name))
    s.settle(name, want)


def sched_units(m):
    @sched_unit(m, 'start')
    def _(E, f):
        s = Sched(E, cls_of(m))
        def run(c, call):
            label = 'action posted by start'
            noexcept(E, call, label)
            want = Ev()
            if E.branch(c.running): c.settle(label, want); return
            now = E.read(c.lv).f['m_run']
            E.oblige(z3.And(z3.UGT(zx(now), zx(c.run)), z3.ULE(zx(now), zx(c.run) + 65536)), label + ': a new run')
            submission(E, c, want, now, 0)
            c.settle(label, want, m_running=T(), m_run=None)
        posts(E, s, f, [], 'start', run)
    @sched_unit(m, 'stop')
    def _(E, f):
        s = Sched(E, cls_of(m))
        def run(c, call):
            noexcept(E, call, 'action posted by stop')
            c.settle('action posted by stop', Ev(), m_running=F())
        posts(E, s, f, [], 'stop', run)
    @sched_unit(m, 'set_frequency')
    def _(E, f):
        s = Sched(E, cls_of(m))
        p = E.fconst(BV64, 'period')
        def run(c, call):
            noexcept(E, call, 'action posted by set_frequency')
            c.settle('action posted by set_frequency', Ev(), m_frequency=p)
        posts(E, s, f, [E.alloc(p)], 'set_frequency', run)
    @sched_unit(m, 'is_running')
    def _(E, f):
        s = Sched(E, cls_of(m)); E.st.log = []
        E.prove_eq(s.running, val(E, noexcept(E, lambda: E.call_body(f, s.lv, []), 'is_running')), 'is_running')
        s.settle('is_running', Ev())
    @sched_unit(m, 'get_frequency')
    def _(E, f):
        s = Sched(E, cls_of(m)); E.st.log = []
        E.prove_eq(s.period, val(E, noexcept(E, lambda: E.call_body(f, s.lv, []), 'get_frequency')), 'get_frequency')
        s.settle('get_frequency', Ev())
    @unit('C18 C19', cls_of(m) + ' (constructor)', 'client')
    def _(E):
        nm = cls_of(m) + ' (constructor)'
        def path():
            a = [extptr('modbus::IClientSession', 'session'), FnV('opaque', id=z3.Const('handler', IdSort), fty=None), extptr('exe4cpp::IExecutor', 'executor'),
                 E.fresh(rec(E, m.req), 'request'), E.fconst(BV64, 'timeout'), E.fconst(BV64, 'period')]
            E.st.log = []
            o = E.read(E.newobject(cls_of(m), a))
            for n, x in zip(('m_session', 'm_handler', 'm_executor', 'm_request', 'm_timeout', 'm_frequency'), a): E.prove_eq(x, o.f[n], 'constructor: ' + n)
            E.oblige(z3.Not(o.f['m_running']), 'constructor: it does not run')
            E.oblige(z3.ULT(zx(o.f['m_run']), 1 << 31), 'constructor: the runs are counted from the start')
            compare(E, Ev(), E.st.log, 'constructor')
        return E.unit(nm, path)


for m in MSGS:
    if m.req.startswith('modbus::Read'): sched_units(m)
