"""C05: modifiers and composites evaluate the transformed / summed inner model, for any subset of outputs, one or many points."""
from contracts.potlib import *
from contracts.c04_density import conv, exclude_axis

TUS = ['coord.cpp', 'potential_base.cpp', 'potential_composite.cpp', 'math_core.cpp', 'math_spline.cpp', 'math_linalg.cpp', 'math_specfunc.cpp', 'math_fit.cpp']
DRV = ['drv_potmod.cpp']


def params(k, n=6):
    return [k.real('p%d' % i, 'modreal') for i in range(n)] + [ZERO] * (9 - n) + [k.real('mass')]


def xform(k, name, P, x, t):
    """(position in the inner model, factor of the potential, factor of the density)"""
    s = lambda i: P[i] + P[i + 1] * t
    if name == 'Shifted':
        return [x[i] - s(2 * i) for i in range(3)], ONE, ONE
    if name == 'Tilted':
        # rotation by Euler angles: verified by the C01 contracts; M is obtained from the code by rotating unit vectors
        M = [k.call('d_tilt', P, [lift(int(i == j)) for j in range(3)], k.out(3)) for i in range(3)]
        return [M[0][i] * x[0] + M[1][i] * x[1] + M[2][i] * x[2] for i in range(3)], ONE, ONE
    if name == 'Rotating':
        c, n = fn('cos', s(0)), fn('sin', s(0))
        return [x[0] * c + x[1] * n, x[1] * c - x[0] * n, x[2]], ONE, ONE
    if name == 'Scaled':
        return [a / s(2) for a in x], s(0) / s(2), s(0) / s(2) ** 3


MODS = {'Shifted': 6, 'Tilted': 3, 'Rotating': 2, 'Scaled': 4}


def mrequire(k, name, P, t):
    for i in range(1, MODS[name], 2):
        if name != 'Tilted':
            k.require(not_(eq(P[i], ZERO)))
    if name == 'Scaled':
        k.require(lt(ZERO, P[2] + P[3] * t))


for name in MODS:
    for cs in CSS:
        @contract('C05', '%s potential in %s coordinates is the inner potential at the transformed point' % (name, cs), ring_s=60)
        def ev(k, name=name, cs=cs):
            P, t = params(k, MODS[name]), k.real('t')
            mrequire(k, name, P, t)
            p, x = pos(k, cs)
            y, fp, fd = xform(k, name, P, x, t)
            exclude_axis(k, cs, x)
            outputs(k, 'd_%s_%s' % (name, cs), (P, p, t), p, fp * uf('F0_4', y + [t]))

        @contract('C05', '%s density in %s coordinates' % (name, cs), ring_s=60)
        def de(k, name=name, cs=cs):
            P, t = params(k, MODS[name]), k.real('t')
            mrequire(k, name, P, t)
            p, x = pos(k, cs)
            y, fp, fd = xform(k, name, P, x, t)
            exclude_axis(k, cs, x)
            want = fd * uf('F4_4', y + [t])
            for w in ('', 'D'):
                k.ensure_eq('density%s' % w, k.call('d_%s%s_rho%s' % (name, w, cs), P, p, t), want)

        for w in ('', 'D'):
            @contract('C05', '%s %s: density in %s coordinates at several points' % (name, 'density' if w else 'potential', cs), ring_s=60)
            def dem(k, name=name, cs=cs, w=w):
                P, t = params(k, MODS[name]), k.real('t')
                mrequire(k, name, P, t)
                p, x = pos(k, cs)
                exclude_axis(k, cs, x)
                n = 2 if cs == 'Sph' else 3
                qs = [p] + [secondpoint(k, cs, j) for j in range(1, n)]
                o = k.call('d_%s%s_many%s' % (name, w, cs), P, sum(qs, []), t, n, k.out(n))
                for j in range(n):
                    y, fp, fd = xform(k, name, P, cartesian(cs, qs[j]), t)
                    k.ensure_eq('point %d of %d' % (j + 1, n), o[j], fd * uf('F4_4', y + [t]))


def cartesian(cs, p):
    if cs == 'Car':
        return p
    if cs == 'Cyl':
        return [p[0] * fn('cos', p[2]), p[0] * fn('sin', p[2]), p[1]]
    return [p[0] * fn('sin', p[1]) * fn('cos', p[2]), p[0] * fn('sin', p[1]) * fn('sin', p[2]), p[0] * fn('cos', p[1])]


def secondpoint(k, cs, j):
    if cs == 'Car':
        return [k.real('%s%d' % (a, j)) for a in 'xyz']
    if cs == 'Cyl':
        return [k.real('R%d' % j, lo=0), k.real('z%d' % j), k.real('phi%d' % j, ('angle',))]
    return [k.real('r%d' % j, lo=0), k.real('theta%d' % j, lo=0, hi=PI), k.real('phi%d' % j, ('angle',))]


@contract('C05', 'modifiers: total and enclosed mass')
def masses(k):
    P = params(k, 4)
    r = k.real('r', lo=0)
    m = P[9]
    for name in MODS:
        f = P[0] if name == 'Scaled' else ONE
        for w in ('', 'D'):
            k.ensure_eq('total mass of %s%s' % (name, w), k.call('d_%s%s_mass' % (name, w), P), m * f)
    k.require(lt(ZERO, P[2]))
    k.require(not_(eq(P[1], ZERO)))
    k.require(not_(eq(P[3], ZERO)))
    o = k.call('d_encmass', P, r, k.out(6))
    for i in range(4):
        k.ensure_eq('enclosed mass %d' % i, o[i], m * uf('F7_1', [r]))
    for i in (4, 5):
        k.ensure_eq('enclosed mass %d' % i, o[i], P[0] * m * uf('F7_1', [r / P[2]]))


# symmetry bits: x, y, z reflection, point reflection, rotation about z, any rotation
for name in MODS:
    @contract('C05', '%s: the declared symmetry survives the transformation' % name)
    def sym(k, name=name):
        P = [lift(1)] * 10
        for s in list(range(64)) + [64, 100]:
            r = k.call('d_%s_sym' % name, P, s)
            r = k.concrete(r)
            for i, out in enumerate((r % 1024, r // 1024)):
                out = int(out)
                if s > 63:
                    ok = out > 63
                elif name == 'Shifted':
                    ok = out == 0
                elif name == 'Tilted':        # only the point reflection, unless spherical
                    ok = out == s if s == 63 else out & ~(s & 8) == 0
                elif name == 'Rotating':      # z and point reflections (hence their products) survive unless already rotation symmetric
                    ok = out & ~s == 0 if s & 16 else out & ~(s & 12) == 0
                else:
                    ok = out & ~s == 0
                k.ensure('no more symmetry than the inner %s of type %d retains' % (('potential', 'density')[i], s), TRUE if ok else FALSE)


WHICH = {1: 'one Cartesian', 2: 'one cylindrical', 4: 'one spherical', 8: 'one spherically symmetric', 16: 'one nested composite',
         3: 'Cartesian + cylindrical', 6: 'cylindrical + spherical', 5: 'Cartesian + spherical', 34: 'two cylindrical', 65: 'two Cartesian',
         10: 'cylindrical + spherically symmetric', 31: 'all kinds of components'}
for wh, wn in WHICH.items():
    for cs in CSS:
        @contract('C05', 'composite of %s in %s coordinates is the sum of its components' % (wn, cs), ring_s=100, budget=250)
        def compo(k, wh=wh, cs=cs):
            p, x = pos(k, cs)
            exclude_axis(k, cs, x)
            t = k.real('t')
            v = ZERO
            for bit, N, i in ((1, 'Car', 0), (2, 'Cyl', 1), (4, 'Sph', 2), (16, 'Cyl', 5), (32, 'Cyl', 6), (64, 'Car', 7)):
                if wh & bit:
                    v = v + uf('F%d_4' % i, conv(k, N, cs, p, None) + [t])
            if wh & 8:
                v = v + uf('F3_1', [conv(k, 'Sph', cs, p, None)[0]])
            outputs(k, 'd_comp_' + cs, (wh, p, t), p, v, subsets=wh in (31, 3, 8))

for cs in CSS:
    @contract('C05', 'density of composites in %s coordinates, at one and at several points' % cs)
    def compd(k, cs=cs):
        p, x = pos(k, cs)
        exclude_axis(k, cs, x)
        t = k.real('t')
        f = lambda x: sum([uf('F%d_4' % i, x + [t]) for i in (5, 6)], uf('F4_4', x + [t]))
        k.ensure_eq('composite density', k.call('d_compd_rho' + cs, p, t), f(x))
        k.ensure_eq('composite potential', k.call('d_compp_rho' + cs, p, t), f(x))
        qs = [p] + [secondpoint(k, cs, j) for j in (1, 2)]
        for w in ('compd', 'compp'):
            o = k.call('d_%s_many%s' % (w, cs), sum(qs, []), t, 3, k.out(3))
            for j in range(3):
                k.ensure_eq('%s: point %d of three' % (w, j), o[j], f(cartesian(cs, qs[j])))


@contract('C05', 'composite: total mass and common symmetry', maxvisits=5000, maxsteps=10000000)
def compm(k):
    m = k.reals('m0 m1 m2')
    for w in ('compd', 'compp'):
        k.ensure_eq('total mass', k.call('d_%s_mass' % w, m), m[0] + m[1] + m[2])
    S = [0, 1, 2, 4, 8, 12, 15, 16, 20, 31, 63, 64]
    for a in S:
        for b in S:
            r = k.concrete(k.call('d_comp_sym', a, b))
            for out in (int(r % 1024), int(r // 1024)):
                ok = out > 63 if 64 in (a, b) else out & ~(a & b) == 0
                k.ensure('symmetry of components %d and %d' % (a, b), TRUE if ok else FALSE)


for n, lin in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (4, 1)):
    @contract('C05', 'evolving potential with %d time stamps, %s' % (n, 'linear interpolation' if lin else 'nearest time stamp'))
    def evol(k, n=n, lin=lin):
        T = [k.real('t0')]
        for i in range(1, n):
            T.append(T[-1] + k.real('dt%d' % i, 'mod'))
        t, x = k.real('t'), k.reals('x y z')
        o = k.call('d_evol_Car', n, lin, x, t, T, 7, k.out(10))
        r = k.call('d_evol_rho', n, lin, x, t, T)
        F = [uf('F%d_4' % i, x + [t]) for i in range(n)]
        G = [uf('F%d_4' % (i + 4), x + [t]) for i in range(n)]

        def mix(A):
            v = A[n - 1]
            for i in reversed(range(n - 1)):
                if lin:
                    w = (T[i + 1] - t) / (T[i + 1] - T[i])
                    u = w * A[i] + (ONE - w) * A[i + 1]
                else:
                    u = ite(lt(T[i + 1] - t, t - T[i]), A[i + 1], A[i])
                v = ite(lt(t, T[i + 1]), u, v)
            return ite(lt(t, T[0]), A[0], v)
        k.ensure_eq('potential', o[0], mix(F))
        k.ensure_eq('density', r, mix(G))
        for i in range(3):
            k.ensure_eq('gradient %d' % i, o[1 + i], mix([k.D(f, x[i]) for f in F]))
        for m, (i, j) in enumerate(HESS):
            k.ensure_eq('second derivative %d%d' % (i, j), o[4 + m], mix([k.D(k.D(f, x[i]), x[j]) for f in F]))


@contract('C05', 'evolving potential: common symmetry of the instances', maxvisits=5000, maxsteps=10000000)
def evsym(k):
    S = [0, 1, 2, 4, 8, 12, 15, 16, 31, 63, 64]
    for a in S:
        for b in S:
            out = int(k.concrete(k.call('d_evol_sym', a, b, [ZERO, ONE])))
            k.ensure('symmetry of instances %d and %d' % (a, b), TRUE if (out > 63 if 64 in (a, b) else out & ~(a & b) == 0) else FALSE)


for cs in CSS:
    @contract('C05', 'uniform acceleration in %s coordinates' % cs)
    def unif(k, cs=cs):
        P, t = params(k, 6)[:6], k.real('t')
        p, x = pos(k, cs)
        exclude_axis(k, cs, x)
        for i in (1, 3, 5):
            k.require(not_(eq(P[i], ZERO)))
        v = ZERO
        for i in range(3):
            v = v - x[i] * (P[2 * i] + P[2 * i + 1] * t)
        outputs(k, 'd_unif_' + cs, (P, p, t), p, v)
