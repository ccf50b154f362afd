"""C02: the MBAP stream parser, and the framing half of C23.

The specification is an automaton that reads bytes: it knows how many bytes c of the current frame it has received and
which (g). take(k) is its effect of k bytes at once, defined as long as they do not run past the next point at which
something happens (the end of the header, the end of the frame); the composition lemma shows that take(k) is k times take(1),
so a stream read with it is read byte by byte, however it is cut. The contract of the parser: its state always stands for a
state of the automaton (the invariant below), and parse(data) takes all of data with the automaton's deliveries and no other."""
from .common import *
from .codec import find_type

P = 'modbus::MbapParser'
CAP = 260


class Auto:
    """A state of the automaton: c bytes received of the current frame, the bytes g."""
    def __init__(self, c, g): self.c, self.g = c, g
    @property
    def length(self): return z3.ZeroExt(48, z3.Concat(self.g(bv(4)), self.g(bv(5))))
    @property
    def bound(self): return z3.If(z3.ULT(self.c, 7), bv(7), self.length + 6)
    def wellformed(self): return z3.And(z3.ULT(self.c, self.bound), z3.Implies(z3.UGE(self.c, 7), z3.UGE(self.length, 2)))


def fresh_auto(E, name):
    f = E.ffun([BV64], z3.BitVecSort(8), name + '.byte')
    a = Auto(E.fconst(BV64, name + '.count'), lambda i: f(i))
    E.assume(a.wellformed())
    return a


def take(E, a, byte, k):
    """The automaton after the k bytes byte(0..): (state, deliveries). k must not run past the bound."""
    c, g = a.c, a.g
    g1 = lambda i: z3.If(z3.ULT(i, c), g(i), byte(simp(i - c)))
    c1 = simp(c + k)
    if not E.branch(c1 == a.bound): return Auto(c1, g1), []
    n = Auto(bv(7), g1)
    if E.branch(z3.And(z3.ULT(c, 7), n.length != 0, n.length != 1)): return Auto(bv(7), g1), []     # the header is complete: the body follows
    if E.branch(z3.And(n.length != 0, g1(bv(2)) == 0, g1(bv(3)) == 0)):
        m = simp(n.length - 1)
        m = simp(z3.If(z3.ULT(m, 253), m, bv(253)))
        ev = [('deliver', g1(bv(6)), z3.Concat(g1(bv(0)), g1(bv(1))), Buf(m, lambda i: g1(simp(i + 7))))]
    else: ev = []
    return Auto(bv(0), g1), ev


def phase(E, o):
    """The field that tells the body from the header: its name, its value while reading the header, and while reading the body."""
    rest = set(o.f) - {'m_sink', 'm_buffer', 'm_buffer_view', 'm_num_bytes_to_read'}
    if len(rest) != 1 or len(o.f) != 5: raise Unsupported('the parser has other fields than the invariant speaks of')
    name = rest.pop(); v = o.f[name]
    if z3.is_bool(v): head = None
    elif z3.is_bv(v): head = getattr(E, 'parser_phase', None)
    else: raise Unsupported('the parser has other fields than the invariant speaks of')
    if z3.is_bool(v): return name, F(), T()
    if head is None:
        # a flag of another type: it has one value in a new parser and the other (of 0 and 1) in the body
        if not z3.is_bv_value(simp(v)): raise Unsupported('the phase of a new parser is not a constant')
        head = E.parser_phase = simp(v).as_long()
    return name, bv(head, v.size()), bv(1 if head == 0 else 0, v.size())

def limit(c): return z3.If(z3.ULT(c, CAP), c, bv(CAP))

def invariant(E, plv, a, label):
    """The object stands for the state of the automaton."""
    o = E.read(plv)
    name, head, body = phase(E, o)
    E.oblige(a.wellformed(), label + ': the automaton is inside a frame')
    E.oblige(zx(o.f['m_num_bytes_to_read']) == a.bound - a.c, label + ': bytes still to read')
    E.oblige(o.f[name] == z3.If(z3.UGE(a.c, 7), body, head), label + ': header or body')
    w = o.f['m_buffer_view']
    if w.buf is None or w.buf.key() != plv.sub('m_buffer').key(): E.oblige(F(), label + ': the view is one of the buffer'); return
    E.oblige(w.off == limit(a.c), label + ': the view starts behind the bytes received')
    E.oblige(w.n == bv(CAP) - limit(a.c), label + ': the view ends with the buffer')
    E.oblige(o.f['m_buffer'].n == bv(CAP), label + ': size of the buffer')
    i = skolem(E, 'ix')
    E.oblige(z3.Implies(z3.ULT(i, limit(a.c)), o.f['m_buffer'].at(i) == a.g(i)), label + ': the buffer holds the bytes received')


def havoc(E, plv, a):
    """Any object that stands for the state."""
    name, head, body = phase(E, E.read(plv))
    junk = E.ffun([BV64], z3.BitVecSort(8), 'junk')
    E.write(plv.sub('m_buffer'), Buf(bv(CAP), lambda i: z3.If(z3.ULT(i, limit(a.c)), a.g(i), junk(i))))
    E.write(plv.sub('m_buffer_view'), Wseq(plv.sub('m_buffer'), limit(a.c), simp(bv(CAP) - limit(a.c))))
    E.write(plv.sub('m_num_bytes_to_read'), simp(z3.Extract(E.read(plv).f['m_num_bytes_to_read'].size() - 1, 0, a.bound - a.c)))
    E.write(plv.sub(name), simp(z3.If(z3.UGE(a.c, 7), body, head)))


def deliver(E, f, this, a, e):
    """The sink is told of a message: the bytes it sees then."""
    m = E.read(a[0]) if isinstance(a[0], LV) else a[0]
    d = m.f['data']
    if d.buf is None: E.st.log.append(('deliver', m.f['unit_id'].f['m_value'], m.f['transaction_id'].f['m_value'], Buf(bv(0), lambda i: bv(0, 8)))); return
    b = E.read(d.buf)
    E.oblige(z3.Implies(d.n != 0, z3.And(z3.ULE(d.off, b.n), z3.ULE(d.n, b.n - d.off))), 'the message data lies inside the buffer')
    at, off = b.at, d.off
    E.st.log.append(('deliver', m.f['unit_id'].f['m_value'], m.f['transaction_id'].f['m_value'], Buf(d.n, lambda i: at(simp(off + i)))))


def same_deliveries(E, want, got, label):
    if len(want) != len(got): E.oblige(F(), '%s: %d messages instead of %d' % (label, len(got), len(want))); return
    for x, y in zip(want, got):
        E.prove_eq(x[1], y[1], label + ': unit identifier'); E.prove_eq(x[2], y[2], label + ': transaction identifier')
        E.oblige(x[3].n == y[3].n, label + ': length of the body')
        i = skolem(E, 'ix')
        E.oblige(z3.Implies(z3.ULT(i, x[3].n), x[3].at(i) == y[3].at(i)), label + ': bytes of the body')


def newparser(E):
    sink = Ptr(F(), ExtV('modbus::IMbapSink', z3.Const('sink', IdSort)))
    return E.newobject(P, [sink])


CONTRACTS = {'ext modbus::IMbapSink::on_mbap_message': deliver}
GOAL = 'modbus::MbapParser::parse'


@unit('C02 C12 C14 C23 C24', P + ' (constructor)', 'parser')
def _(E):
    E.contracts = CONTRACTS
    def path():
        p = newparser(E)
        invariant(E, p, Auto(bv(0), lambda i: bv(0, 8)), 'a new parser')
        E.prove_eq(Ptr(F(), ExtV('modbus::IMbapSink', z3.Const('sink', IdSort))), E.read(p).f['m_sink'], 'the sink given')
    return E.unit(P, path)


@unit('C02 C12 C14 C24', P + '::reset', 'parser')
def _(E):
    E.contracts = CONTRACTS
    def path():
        p = newparser(E)
        havoc(E, p, fresh_auto(E, 'frame'))
        sink = E.read(p).f['m_sink']; n = len(E.st.log)
        E.call_body(method(E, P, 'reset'), p, [])
        invariant(E, p, Auto(bv(0), lambda i: bv(0, 8)), 'after a reset')
        E.prove_eq(sink, E.read(p).f['m_sink'], 'the sink stays')
        E.oblige(z3.BoolVal(len(E.st.log) == n), 'a reset reports nothing')
    return E.unit(P + '::reset', path)


@unit('C02 C12 C14 C23 C24', GOAL, 'parser', slow=2)
def _(E):
    E.contracts = CONTRACTS
    f = method(E, P, 'parse')
    def path():
        p = newparser(E)
        a0 = fresh_auto(E, 'frame')
        havoc(E, p, a0)
        sink = E.read(p).f['m_sink']
        d = E.fresh(find_type(E, 'ser4cpp::rseq_t'), 'data')
        E.assume(z3.ULE(d.off + d.n, E.read(d.buf).n)); E.assume(z3.ULE(d.off, bv(1 << 33)))
        data = E.read(d.buf).at
        E.st.ghost = {'auto': a0, 'at': d.off, 'loop': False, 'log': len(E.st.log)}
        end = simp(d.off + d.n)

        def check(lab, stopped):
            """What was consumed since the head of the loop has been taken as the automaton takes it."""
            gh = E.st.ghost
            cur = view(E)
            E.oblige(z3.And(cur.off + cur.n == end, z3.UGE(cur.off, gh['at'])), lab + ': the rest of the data is what follows')
            k = simp(cur.off - gh['at'])
            if not stopped: E.oblige(k != 0, lab + ': every iteration consumes something')
            a = gh['auto']
            E.oblige(z3.ULE(k, a.bound - a.c), lab + ': stops at the ends of headers and frames')
            at0 = gh['at']
            a1, ev = take(E, a, lambda i: data(simp(at0 + i)), k)
            same_deliveries(E, ev, [x for x in E.st.log[gh['log']:] if x[0] == 'deliver'], lab)
            invariant(E, p, a1, lab)
            E.prove_eq(sink, E.read(p).f['m_sink'], lab + ': the sink stays')
            E.st.ghost = dict(gh, auto=a1, at=cur.off, log=len(E.st.log))

        def view(E):
            """What is left of the data: the one view of it in the innermost function that has one."""
            for fr in reversed(E.st.frames):
                vs = [v for i, v in fr.vars.items() if any(i == q['id'] for q in getattr(fr.fn, 'params', ())) and v.cell in E.st.cells and isinstance(E.st.cells[v.cell], Rseq)
                      and E.read(v).buf is not None and E.read(v).buf.key() == d.buf.key()]
                if len(vs) == 1: E.st.ghost['lv'] = vs[0]; return E.read(vs[0])
            raise Unsupported('the data is not in one view')

        def hook(E, s, once):
            if E.st.ghost['loop']: raise Unsupported('nested loops in the parser')
            view(E)
            check('before the loop', True)
            a = fresh_auto(E, 'at')
            havoc(E, p, a)
            off = E.fconst(BV64, 'done')
            E.assume(z3.And(z3.UGE(off, d.off), z3.ULE(off, end)))
            E.write(E.st.ghost['lv'], Rseq(d.buf, off, simp(end - off)))
            E.st.ghost = dict(E.st.ghost, auto=a, at=off, loop=True, log=len(E.st.log))
            before = dict(E.st.cells); mine = {p.cell, E.st.ghost['lv'].cell}
            def frame():
                for c, v in before.items():
                    if c not in mine and E.st.cells[c] is not v: raise Unsupported('the loop changes other variables')
            try: once()
            except (LoopDone, BrkX): frame(); check('last iteration', True); E.st.ghost['loop'] = False; return True
            except RetX: frame(); check('last iteration', True); raise
            frame(); check('iteration', False)
            raise Infeasible()
        E.loophook = hook
        try:
            # run parse with its parameter kept in sight afterwards
            n = len(E.st.log)
            keep = {}
            save = E.ex
            E.call_body(f, p, [d])
        finally: E.loophook = None
        gh = E.st.ghost
        if 'lv' not in gh: raise Unsupported('the parser has no loop')
        E.oblige(gh['at'] == end, 'all of the data is consumed')
        invariant(E, p, gh['auto'], 'afterwards')
        E.oblige(z3.BoolVal(len([x for x in E.st.log[gh['log']:] if x[0] == 'deliver']) == 0), 'nothing is delivered after the loop')
    return E.unit(GOAL, path)


@unit('C02 C23', 'taking k bytes and one more is taking k+1 bytes', 'parser')
def _(E):
    """Composition lemma over the specification: induction on k gives that a stream is read byte by byte."""
    def path():
        a = fresh_auto(E, 'frame')
        s = z3.Function('stream', BV64, z3.BitVecSort(8))
        k = z3.BitVec('k', 64)
        E.assume(z3.ULT(k, a.bound - a.c))
        b, e1 = take(E, a, lambda i: s(i), k)
        c, e2 = take(E, b, lambda i: s(simp(k + i)), bv(1))
        d, e3 = take(E, a, lambda i: s(i), simp(k + 1))
        same_deliveries(E, e3, e1 + e2, 'deliveries')
        E.oblige(c.c == d.c, 'bytes received')
        i = skolem(E, 'ix')
        E.oblige(z3.Implies(z3.ULT(i, d.c), c.g(i) == d.g(i)), 'the bytes')
        E.oblige(c.wellformed(), 'inside a frame')
    return E.unit('composition of the automaton', path)


@unit('C23', 'a framed message is received as sent', 'parser')
def _(E):
    """Over the contract of MbapMessage::build_message (C01) and the automaton: one message, the one framed."""
    def path():
        L = z3.BitVec('pdu_length', 64); E.assume(z3.And(z3.UGE(L, 1), z3.ULE(L, 253)))
        u, t = z3.BitVec('unit', 8), z3.BitVec('transaction', 16)
        pdu = z3.Function('pdu', BV64, z3.BitVecSort(8))
        n16 = z3.Extract(15, 0, L + 1)
        head = [z3.Extract(15, 8, t), z3.Extract(7, 0, t), bv(0, 8), bv(0, 8), z3.Extract(15, 8, n16), z3.Extract(7, 0, n16), u]
        def byte(i):
            r = pdu(simp(i - 7))
            for k in range(6, -1, -1): r = z3.If(i == k, head[k], r)
            return r
        a, e1 = take(E, Auto(bv(0), lambda i: bv(0, 8)), byte, bv(7))
        E.oblige(a.bound - a.c == L, 'what follows the header is the PDU')
        b, e2 = take(E, a, lambda i: byte(simp(i + 7)), L)
        same_deliveries(E, [('deliver', u, t, Buf(L, lambda i: pdu(i)))], e1 + e2, 'the message')
        E.oblige(b.c == 0, 'a new frame follows')
    return E.unit('framed message', path)
