"""Contracts assumed for callees at every call site (each proved separately where stated in DESIGN.md)."""
from fractions import Fraction
from .terms import *
from . import terms as T
from .symex import Unsupported, Ptr, UNDEF, nz
from . import ir


def rd(sx, p, i, size=8, ty=ir.DOUBLE):
    return nz(sx.coerce(sx._load(p.r, add(p.o, mul(ic(size), i) if isinstance(i, Term) else ic(size * i)), size, ty), ty))


def c_sincos(sx, av):
    """math::sincos(x, s, c): s = sin x, c = cos x"""
    x, ps, pc = av
    sx.store(ps, fn('sin', nz(x)), 8)
    sx.store(pc, fn('cos', nz(x)), 8)
    return None


def c_pow(sx, av):
    """math::pow(x, n): x^n"""
    return sx.pow(av[0], av[1])


def c_powint(sx, av):
    return fn('pow', av[0], toreal(av[1]))


def c_agv_f(sx, av):
    """abstract smooth function: value of the requested partial derivative"""
    fid, n, pd, px = av
    n = n.args[0]
    d = tuple(sx.coerce(sx._load(pd.r, add(pd.o, ic(4 * i)), 4, ir.I32), ir.I32).args[0] for i in range(n))
    x = [rd(sx, px, i) for i in range(n)]
    return uf('F%d_%d' % (fid.args[0], n), x, d)


def c_binsearch(sx, av):
    """math::binSearch(x, arr, size): -1 to the left of the array, size-1 to the right of it (or if size is 1), otherwise the
    index i<=size-2 with arr[i] <= x < arr[i+1] (x <= arr[i+1] at the end of the array)"""
    x, p, n = nz(av[0]), av[1], av[2]
    if sx.decide(lt(n, ic(1))):
        return ic(-1)
    a = lambda i: rd(sx, p, i)
    if sx.decide(lt(x, a(ic(0)))):
        return ic(-1)
    if sx.decide(lt(a(add(n, ic(-1))), x)) or sx.decide(lt(n, ic(2))):
        return add(n, ic(-1))
    for v, t, nm in getattr(sx.ctx, 'cells', ()):       # the contract has named the cell that contains x
        if t is x and nm == p.r.name and sx.decide(and_(le(ic(0), v), le(v, add(n, ic(-2))), le(a(v), x),
                or_(lt(x, a(add(v, ic(1)))), and_(eq(v, add(n, ic(-2))), eq(x, a(add(v, ic(1)))))))):
            return v
    if n.op == 'i':
        for i in range(n.args[0] - 2):
            if sx.decide(lt(x, a(ic(i + 1)))):
                return ic(i)
        return ic(n.args[0] - 2)
    raise Unsupported('binSearch for a point not named by the contract')


CALLEES = {
    'long math::binSearch<double>(double, double const*, unsigned long)': c_binsearch,
    'math::sincos(double, double&, double&)': c_sincos,
    'math::pow(double, double)': c_pow,
    'math::powInt(double, int)': c_powint,
    'agv_f': c_agv_f,
}
