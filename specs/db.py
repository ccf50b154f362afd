"""C08-C11: the single-type databases and the in-memory server built from them.

A database is seen as a map from 16-bit addresses to values; the contracts are those of the public functions, and the
in-memory database is verified against them (not against their bodies)."""
from .common import *

NS = 'modbus::'
STD = 'modbus::SingleTypeDatabase'
TYPES = ('bool', 'unsigned short')


def mapfield(E, lv):
    """Where the entries are kept: the database's only map."""
    o = E.read(lv)
    fs = [n for n, v in o.f.items() if isinstance(v, MapV)]
    if len(fs) != 1: raise Unsupported('the database does not keep its entries in one map')
    return lv.sub(fs[0])


def access(E, lv):
    """A table is touched: recorded for the locking property."""
    E.st.log.append(('table', lv.key()))


# ---- contracts of SingleTypeDatabase<T>
def add_value(E, f, this, a, e=None):
    access(E, this)
    lv = mapfield(E, this); m = E.read(lv); k, v = zx(val(E, a[0])), val(E, a[1])
    had = m.pres(k)
    if E.branch(had): return F()
    E.write(lv, MapV(m.vty, m.kw, lambda i: z3.Or(i == k, m.pres(i)), lambda i: ite(i == k, v, m.val(i)), None, m.ordered))
    return T()

def set_value(E, f, this, a, e=None):
    access(E, this)
    lv = mapfield(E, this); m = E.read(lv); k, v = zx(val(E, a[0])), val(E, a[1])
    if not E.branch(m.pres(k)): return F()
    E.write(lv, m.with_part('val', lambda i: ite(i == k, v, m.val(i))))
    return T()

def get_value(E, f, this, a, e=None):
    access(E, this)
    m = E.read(mapfield(E, this)); k = zx(val(E, a[0]))
    if not E.branch(m.pres(k)): return F()
    E.write(a[1], m.val(k))
    return T()

def is_valid(E, f, this, a, e=None):
    access(E, this)
    m = E.read(mapfield(E, this))
    return m.pres(zx(val(E, a[0])))

def valid_range(E, m, start, n):
    """Decides whether the range exists: count at least 1 and every address of it present."""
    if E.branch(n == 0): return False
    if E.branch(z3.UGT(n, bv(65536))): return False
    if E.branch(z3.UGT(zx(start) + n, bv(65536))): return False
    return E.holds_for_all(n, lambda j: m.pres(simp(zx(start) + j)), 'range')

def is_valid_range(E, f, this, a, e=None):
    access(E, this)
    return z3.BoolVal(valid_range(E, E.read(mapfield(E, this)), val(E, a[0]), val(E, a[1])))

def get_values(E, f, this, a, e=None):
    access(E, this)
    m = E.read(mapfield(E, this)); start = val(E, a[0]); out = E.read(a[1])
    if not valid_range(E, m, start, out.n): return F()
    E.write(a[1], Vec(out.ety, out.n, lambda i: m.val(simp(zx(start) + i))))
    return T()

def set_values(E, f, this, a, e=None):
    access(E, this)
    lv = mapfield(E, this); m = E.read(lv); start = val(E, a[0]); v = E.read(a[1])
    if not valid_range(E, m, start, v.n): return F()
    s = zx(start)
    E.write(lv, m.with_part('val', lambda k: ite(z3.And(z3.ULE(s, k), z3.ULT(k - s, v.n)), v.at(simp(k - s)), m.val(k))))
    return T()

CONTRACTS = {STD + '::' + n: g for n, g in dict(add_value=add_value, set_value=set_value, get_value=get_value, is_valid=is_valid,
                                                is_valid_range=is_valid_range, get_values=get_values, set_values=set_values).items()}


def db_unit(prop, T_, name, uses=()):
    @unit(prop, '%s<%s>::%s' % (STD, T_, name), 'db')
    def _(E):
        cls = '%s<%s>' % (STD, T_)
        for u in uses: E.contracts[STD + '::' + u] = CONTRACTS[STD + '::' + u]
        f = method(E, cls, name)
        def setup(E):
            return dict(this=E.alloc(E.fresh(rec(E, cls), 'db')), args=freshargs(E, f))
        return E.against(f.q, setup, lambda E, c: CONTRACTS[STD + '::' + name](E, f, c['this'], c['args']),
                         lambda E, c: E.call_body(f, c['this'], c['args']), keep=())

for T_ in TYPES:
    for n in ('add_value', 'set_value', 'get_value', 'is_valid'): db_unit('C08 C10', T_, n)
    db_unit('C09 C10', T_, 'is_valid_range')
    for n in ('get_values', 'set_values'): db_unit('C09 C10', T_, n, ('is_valid_range',))


@unit('C08 C10', 'a new database is empty', 'db')
def _(E):
    def path():
        for T_ in TYPES:
            lv = E.alloc(E.default(rec(E, '%s<%s>' % (STD, T_))))
            m = E.read(mapfield(E, lv)); k = skolem(E, 'key')
            E.oblige(z3.Not(m.pres(k)), 'a new database has no entry')
    return E.unit('SingleTypeDatabase: initial state', path)


# ---- the in-memory database
IMD = 'modbus::InMemoryDatabase'
TABLES = (('coil', 'bool'), ('discrete', 'bool'), ('holding', 'unsigned short'), ('input_reg', 'unsigned short'))


def tablefield(E, lv, what):
    """The table of the given kind: the field of the database class whose name says so."""
    cands = [(n, v) for n, v in E.read(lv).f.items() if isinstance(v, SV) and v.cls.startswith(STD)]
    ty = dict(TABLES)[what]
    r = [n for n, v in cands if what in n.lower() and v.cls.endswith('<%s>' % ty)]
    if len(r) != 1: raise Unsupported('no field for the %s table' % what)
    return lv.sub(r[0])


def mutexfield(E, lv):
    fs = [n for n, v in E.read(lv).f.items() if isinstance(v, MutexV)]
    if len(fs) != 1: raise Unsupported('the database does not have exactly one mutex')
    return lv.sub(fs[0])


def read_spec(what, resp, elt, qty):
    def spec(E, f, this, a, e=None):
        req = E.read(a[0])
        start, n = req.f['starting_address'], zx(req.f[qty])
        t = tablefield(E, this, what); access(E, t)
        m = E.read(mapfield(E, t))
        vty = f.ret.ta[0]
        if not valid_range(E, m, start, n): return fail(E, vty, exc(E, mtype=enumv(E, 'IllegalDataAddress')))
        vec = Vec(rec(E, elt), n, lambda i: SV(elt, {'address': z3.Extract(15, 0, zx(start) + i), 'value': m.val(simp(zx(start) + i))}))
        E.spechints.append(Vec(None, n, lambda i: m.val(simp(zx(start) + i))))
        return good(E, vty, SV(resp, {'values': vec}))
    return spec


def write1_spec(what, resp):
    def spec(E, f, this, a, e=None):
        v = E.read(a[0]).f['value']
        vty = f.ret.ta[0]
        ok = set_value(E, None, tablefield(E, this, what), [v.f['address'], v.f['value']])
        if not E.branch(ok): return fail(E, vty, exc(E, mtype=enumv(E, 'IllegalDataAddress')))
        return good(E, vty, SV(resp, {'value': v}))
    return spec


def writen_spec(what, resp, qty):
    def spec(E, f, this, a, e=None):
        r = E.read(a[0])
        vty = f.ret.ta[0]
        ok = set_values(E, None, tablefield(E, this, what), [r.f['starting_address'], a[0].sub('values')])
        if not E.branch(ok): return fail(E, vty, exc(E, mtype=enumv(E, 'IllegalDataAddress')))
        return good(E, vty, SV(resp, {'starting_address': r.f['starting_address'], qty: z3.Extract(15, 0, r.f['values'].n)}))
    return spec


REQUESTS = {
    'ReadCoilsRequest': read_spec('coil', NS + 'ReadCoilsResponse', NS + 'SingleBitValue', 'qty_of_bits'),
    'ReadDiscreteInputsRequest': read_spec('discrete', NS + 'ReadDiscreteInputsResponse', NS + 'SingleBitValue', 'qty_of_bits'),
    'ReadHoldingRegistersRequest': read_spec('holding', NS + 'ReadHoldingRegistersResponse', NS + 'RegisterValue', 'qty_of_registers'),
    'ReadInputRegistersRequest': read_spec('input_reg', NS + 'ReadInputRegistersResponse', NS + 'RegisterValue', 'qty_of_registers'),
    'WriteSingleCoilRequest': write1_spec('coil', NS + 'WriteSingleCoilResponse'),
    'WriteSingleRegisterRequest': write1_spec('holding', NS + 'WriteSingleRegisterResponse'),
    'WriteMultipleCoilsRequest': writen_spec('coil', NS + 'WriteMultipleCoilsResponse', 'qty_of_coils'),
    'WriteMultipleRegistersRequest': writen_spec('holding', NS + 'WriteMultipleRegistersResponse', 'qty_of_registers'),
}


def imd(E, held=False):
    lv = E.alloc(E.fresh(rec(E, IMD), 'imd'))
    if held: E.write(mutexfield(E, lv), MutexV(T()))
    return lv


def on_request(E, req):
    return method(E, IMD, 'on_request', lambda f: ptype(f, 0).n == NS + req)


def prequest(E, c, req):
    """Quantities as far as the protocol allows them to be encoded: at least 1 address, at most 65535."""
    r = E.read(c['args'][0])
    for q in ('qty_of_bits', 'qty_of_registers'):
        if q in r.f: E.assume(r.f[q] != 0)
    if 'values' in r.f: E.assume(z3.And(z3.UGE(r.f['values'].n, 1), z3.ULE(r.f['values'].n, 65535)))


for req, spec in REQUESTS.items():
    def mk(req, spec):
        @unit('C10', IMD + '::on_request(%s)' % req, 'db')
        def _(E):
            E.contracts.update(CONTRACTS)
            f = on_request(E, req)
            def setup(E):
                c = dict(this=imd(E), args=freshargs(E, f)); prequest(E, c, req); return c
            return E.against(f.q + '(' + req + ')', setup, lambda E, c: spec(E, f, c['this'], c['args']), lambda E, c: E.call_body(f, c['this'], c['args']), keep=())
    mk(req, spec)

SIMPLE = [('add_coil', 'coil', add_value), ('add_discrete_input', 'discrete', add_value), ('add_holding_register', 'holding', add_value), ('add_input_register', 'input_reg', add_value)]
for w, names in (('coil', 'coil'), ('discrete', 'discrete_input'), ('holding', 'holding_register'), ('input_reg', 'input_register')):
    SIMPLE += [('get_' + names, w, get_value), ('set_' + names, w, set_value)]
for name, what, spec in SIMPLE:
    def mk(name, what, spec):
        @unit('C10', IMD + '::' + name, 'db')
        def _(E):
            E.contracts.update(CONTRACTS)
            f = method(E, IMD, name)
            def setup(E): return dict(this=imd(E), args=freshargs(E, f))
            return E.against(f.q, setup, lambda E, c: spec(E, f, tablefield(E, c['this'], what), c['args']), lambda E, c: E.call_body(f, c['this'], c['args']), keep=())
    mk(name, what, spec)


@unit('C10 C11', IMD + '::execute_transaction', 'db')
def _(E):
    """The transaction is called once, with this database, in one critical section, and the lock is released if it throws."""
    E.contracts.update(CONTRACTS)
    f = method(E, IMD, 'execute_transaction')
    def path():
        this = imd(E)
        def run(E, args):
            E.st.log.append(('transaction', E.deref(args[0]).key() if not isinstance(args[0], LV) else args[0].key()))
            E.oblige(E.read(mutexfield(E, this)).held, f.q + ': the mutex is held during the transaction')
            # what a transaction can do: any change of the tables
            for w, t in TABLES: E.write(tablefield(E, this, w), E.fresh(rec(E, '%s<%s>' % (STD, t)), 'after'))
            if E.choose(2) == 1: raise ThrowX(exc(E))
        fn = E.alloc(FnV('spec', run=run, check=None))
        before = None
        from vc.verify import outcome
        k, v = outcome(E, lambda: E.call_body(f, this, [E.read(fn)]))
        mx = mutexfield(E, this).key()
        want = [('lock', mx), ('transaction', this.key()), ('unlock', mx)]
        E.oblige(z3.BoolVal(E.st.log == want), f.q + ': locks, calls the transaction once with this database, unlocks (%s)' % [x[0] for x in E.st.log])
        E.oblige(z3.Not(E.read(mutexfield(E, this)).held), f.q + ': the mutex is free afterwards')
    return E.unit(f.q, path)


# ---- C11: locking discipline
def locked(E, f, this, label):
    """The recorded accesses all lie in one critical section of the database's own mutex."""
    mx = mutexfield(E, this).key()
    log = [x for x in E.st.log if x[0] in ('lock', 'unlock', 'table')]
    ok = bool(log) and log[0] == ('lock', mx) and log[-1] == ('unlock', mx) and all(x[0] == 'table' for x in log[1:-1])
    E.oblige(z3.BoolVal(ok), label + ': one critical section around all accesses (found %s)' % ' '.join(x[0] for x in log))
    E.oblige(z3.Not(E.read(mutexfield(E, this)).held), label + ': the mutex is free afterwards')


def lock_unit(name, getf, inside=False):
    @unit('C11', IMD + '::' + name + ' [locking]', 'db')
    def _(E):
        E.contracts.update(CONTRACTS)
        f = getf(E)
        def path():
            from vc.verify import outcome
            this = imd(E, held=inside)
            args = freshargs(E, f)
            E.rawaccess = this
            try: outcome(E, lambda: E.call_body(f, this, args))
            finally: E.rawaccess = None
            if inside:
                log = [x[0] for x in E.st.log if x[0] in ('lock', 'unlock')]
                E.oblige(z3.BoolVal(not log), f.q + ': inside a transaction the mutex is not touched')
                E.oblige(E.read(mutexfield(E, this)).held, f.q + ': the mutex is still held')
            else: locked(E, f, this, f.q)
        return E.unit(f.q + ' [locking]', path)

for req in REQUESTS:
    lock_unit('on_request(%s)' % req, lambda E, req=req: on_request(E, req))
for name, what, spec in SIMPLE:
    lock_unit(name, lambda E, name=name: method(E, IMD, name), inside=not name.startswith('add_'))


@unit('C11', IMD + ': every entry point is covered', 'db')
def _(E):
    """No other public or virtual function of the class exists that could reach the tables without a contract here."""
    known = {'on_request', 'execute_transaction'} | {n for n, w, s in SIMPLE}
    def path():
        for m in E.prog.records[IMD]['methods']:
            if m.ctor or m.n.startswith('~') or m.n.startswith('operator='): continue
            if m.access == 2 and not m.virt: continue
            E.oblige(z3.BoolVal(m.n in known), IMD + '::' + m.n + ' has a contract')
        n = [m for m in E.prog.records[IMD]['methods'] if m.n == 'on_request']
        E.oblige(z3.BoolVal(len(n) == 8), 'eight request handlers')
    return E.unit(IMD + ': entry points', path)
