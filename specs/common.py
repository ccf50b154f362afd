"""Building blocks of the specifications."""
import z3
from vc.values import *
from vc.engine import *
from vc.interp import stripq
from vc.registry import unit
from vc.loops import eqv, skolem


def val(E, a): return E.read(a) if isinstance(a, LV) else a


def zx(a): return z3.ZeroExt(64 - a.size(), a) if a.size() < 64 else a


def rec(E, name):
    r = E.prog.records.get(name)
    if r is None: raise Unsupported('no class %s' % name)
    return r['t']


def method(E, cls, name, pred=None):
    """The definition of a member function; its overloads are told apart by pred."""
    fs = [f for f in E.prog.funcs.values() if f.cls is not None and (f.cls.n == cls or stripq(f.cls.n) == cls) and f.n == name and f.body is not None]
    if pred: fs = [f for f in fs if pred(f)]
    if len(fs) != 1: raise Unsupported('%d definitions of %s::%s' % (len(fs), cls, name))
    return fs[0]


def ptype(f, i):
    t = f.ps[i]
    return t.to if t.k == 'ref' else t


def freshargs(E, f, names=None):
    """An arbitrary argument for each parameter (references refer to new objects)."""
    out = []
    for i, t in enumerate(f.ps):
        v = E.fresh(ptype(f, i), names[i] if names else 'a%d' % i)
        out.append(E.alloc(v) if t.k == 'ref' else v)
    return out


def exc(E, cls='modbus::ModbusException', mtype=None):
    return ExcV(bv(E.exctag(cls), 8), mtype if mtype is not None else E.fconst(z3.BitVecSort(32), 'nomtype'), E.ident('exc'))


def fail(E, vty, x): return ExpV(vty, F(), None, x)
def good(E, vty, v): return ExpV(vty, T(), v, ExcV(bv(0, 8), bv(0, 32), E.ident('noexc')))


def enumv(E, name):
    """The declared number of an exception type, read from the code."""
    for t in E.prog.types.values():
        if t.k == 'enum' and t.n == 'modbus::ExceptionType' and t.e:
            for n, v in (t.e.items() if isinstance(t.e, dict) else t.e):
                if n == name: return bv(int(v), t.w)
    raise Unsupported('no enumerator %s' % name)


def table(v, n, default=None):
    """A choice among constants."""
    return v
