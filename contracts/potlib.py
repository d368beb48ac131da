"""Shared by the contracts of potentials: what it means that the reported outputs are those of a given Phi."""
from agv.engine import contract
from agv.terms import *
from contracts.c02_coordderiv import HESS

CSS = ('Car', 'Cyl', 'Sph')


def pos(k, cs, degenerate=False):
    """(coordinates, Cartesian coordinates)"""
    if cs == 'Car':
        x = k.reals('x y z')
        return x, x
    if cs == 'Cyl':
        R, z, phi = k.real('R', lo=0), k.real('z'), k.real('phi', ('angle',))
        return [R, z, phi], [R * fn('cos', phi), R * fn('sin', phi), z]
    r, th, phi = k.real('r', lo=0), k.real('theta', lo=0, hi=PI), k.real('phi', ('angle',))
    return [r, th, phi], [r * fn('sin', th) * fn('cos', phi), r * fn('sin', th) * fn('sin', phi), r * fn('cos', th)]


def outputs(k, f, args, p, v, subsets=True, hess=True):
    """value, gradient and second derivatives reported by driver f are those of the term v, for any subset of outputs"""
    V, g, h = k.call(f, *args, 7, k.out(1), k.out(3), k.out(6))
    if subsets:
        for mask in (1, 2, 4, 5):
            v2, g2, h2 = k.call(f, *args, mask, k.out(1), k.out(3), k.out(6))
            if mask & 1:
                k.ensure_eq('same value when requesting subset %d' % mask, V[0], v2[0])
            for i in range(3):
                if mask & 2:
                    k.ensure_eq('same gradient when requesting subset %d' % mask, g[i], g2[i])
            for i in range(6):
                if mask & 4:
                    k.ensure_eq('same second derivatives when requesting subset %d' % mask, h[i], h2[i])
    k.ensure_eq('potential', V[0], v)
    if k.degenerate(p):
        return V, g, h
    for i in range(3):
        k.ensure_eq('gradient %d' % i, g[i], k.D(v, p[i]))
    if hess:
        for n, (i, j) in enumerate(HESS):
            k.ensure_eq('second derivative %d%d' % (i, j), h[n], k.D(k.D(v, p[i]), p[j]))
    return V, g, h


def laplacian(k, v, cs, p):
    d = lambda i: k.D(v, p[i])
    dd = lambda i: k.D(k.D(v, p[i]), p[i])
    if cs == 'Car':
        return dd(0) + dd(1) + dd(2)
    if cs == 'Cyl':
        return dd(0) + d(0) / p[0] + dd(2) / p[0] ** 2 + dd(1)
    r, th, phi = p
    s, c = fn('sin', th), fn('cos', th)
    return dd(0) + q(2) * d(0) / r + (dd(1) + d(1) * c / s + dd(2) / (s * s)) / (r * r)


def find(t, name):
    """the application of the uninterpreted function `name` inside a term"""
    st = [t]
    while st:
        u = st.pop()
        if u.op == 'uf' and u.args[0] == name:
            return u
        st.extend(kids(u))
    return uf(name + '_absent', [ZERO, ZERO])
