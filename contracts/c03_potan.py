"""C03: force and second derivatives of the elementary analytic potentials are derivatives of the documented potential,
in every coordinate system and for any requested subset."""
from contracts.potlib import *
import mpmath

TUS = ['coord.cpp', 'potential_base.cpp', 'potential_analytic.cpp', 'math_specfunc.cpp', 'math_core.cpp']
DRV = ['drv_potan.cpp']
HALF = q(Fraction(1, 2))


def P_(k, names, scale='pos'):
    return [k.real(n, scale) for n in names.split()]


def plummer(k):
    P = [k.real('M', 'modreal'), k.real('b', 'pos')]
    return P, lambda x: -P[0] / sqrt(x[0] ** 2 + x[1] ** 2 + x[2] ** 2 + P[1] ** 2)


def isochrone(k):
    P = [k.real('M', 'modreal'), k.real('b', 'pos')]
    return P, lambda x: -P[0] / (P[1] + sqrt(x[0] ** 2 + x[1] ** 2 + x[2] ** 2 + P[1] ** 2))


def miyamoto(k):
    P = [k.real('M', 'modreal'), k.real('A', 'pos'), k.real('B', 'pos')]
    return P, lambda x: -P[0] / sqrt(x[0] ** 2 + x[1] ** 2 + (P[1] + sqrt(x[2] ** 2 + P[2] ** 2)) ** 2)


def logarithmic(k):
    P = [k.real('v0', 'mod'), k.real('rc', 'mod'), k.real('p', 'mod'), k.real('q', 'mod'), k.real('L', 'mod')]
    return P, lambda x: HALF * P[0] ** 2 * fn('log', (P[1] ** 2 + x[0] ** 2 + (x[1] / P[2]) ** 2 + (x[2] / P[3]) ** 2) / P[4] ** 2)


def harmonic(k):
    P = [k.real('Omega', 'mod'), k.real('p', 'mod'), k.real('q', 'mod')]
    return P, lambda x: HALF * P[0] ** 2 * (x[0] ** 2 + (x[1] / P[1]) ** 2 + (x[2] / P[2]) ** 2)


def nfw(k):
    P = [k.real('M', 'modreal'), k.real('rs', 'mod')]

    def v(x):
        r = sqrt(x[0] ** 2 + x[1] ** 2 + x[2] ** 2)
        k.require(lt(q(Fraction(7, 10000)) * P[1], r))     # closer in, the code uses the Taylor series (contract below)
        return -P[0] * fn('log', ONE + r / P[1]) / r
    return P, v


POTS = dict(Plummer=plummer, Isochrone=isochrone, MiyamotoNagai=miyamoto, Logarithmic=logarithmic, Harmonic=harmonic, NFW=nfw)


def exclude_axis(k, cs, x):
    if cs == 'Car':
        k.require(lt(ZERO, x[0] ** 2 + x[1] ** 2))


for name in POTS:
    for cs in CSS:
        @contract('C03', '%s in %s coordinates: potential, force and second derivatives' % (name, cs), ring_s=60)
        def body(k, name=name, cs=cs):
            P, phi = POTS[name](k)
            p, x = pos(k, cs)
            outputs(k, 'd_%s_%s' % (name, cs), (P, p, k.real('t')), p, phi(x))


@contract('C03', 'NFW near the centre: the series, its force and second derivative')
def nfwser(k):
    P = [k.real('M', 'modreal'), k.real('rs', 'mod')]
    r = P[1] * k.real('s', ('range', 0, 0.00069))
    k.require(lt(ZERO, r))
    k.require(lt(r, q(Fraction(69, 100000)) * P[1]))
    u = r / P[1]
    # truncated Maclaurin series of the documented potential
    v = -P[0] / P[1] * (ONE - u / 2 + u ** 2 / 3 - u ** 3 / 4)
    V, g, h = k.call('d_NFW_Sph', P, [r, k.real('theta', lo=0, hi=PI), k.real('phi', ('angle',))], ZERO, 7, k.out(1), k.out(3), k.out(6))
    k.ensure_eq('potential', V[0], v)
    k.ensure_eq('force', g[0], P[0] / P[1] ** 2 * (HALF - u * 2 / 3 + u ** 2 * 3 / 4))
    k.ensure_eq('second derivative', h[0], P[0] / P[1] ** 3 * (q(Fraction(-2, 3)) + u * 3 / 2))
    for i in (1, 2):
        k.ensure_eq('zero tangential force', g[i], ZERO)
    for i in (1, 2, 3, 4, 5):
        k.ensure_eq('zero tangential second derivatives', h[i], ZERO)


for name in ('Plummer', 'Isochrone', 'Logarithmic', 'Harmonic'):
    @contract('C03', '%s on the axis and at the origin' % name)
    def origin(k, name=name):
        P, phi = POTS[name](k)
        x = k.reals('x y z')
        v = phi(x)
        for on, at in (('origin', [ZERO, ZERO, ZERO]), ('z axis', [ZERO, ZERO, x[2]])):
            if name in ('Plummer', 'Isochrone') and on == 'origin' or name in ('Logarithmic', 'Harmonic'):
                V, g, h = k.call('d_%s_Car' % name, P, at, ZERO, 7, k.out(1), k.out(3), k.out(6))
                m = {a: b for a, b in zip(x, at)}
                k.ensure_eq(on + ': potential', V[0], subst(v, m))
                for i in range(3):
                    k.ensure_eq(on + ': gradient %d' % i, g[i], subst(k.D(v, x[i]), m))
                for n, (i, j) in enumerate(HESS):
                    k.ensure_eq(on + ': second derivative %d%d' % (i, j), h[n], subst(k.D(k.D(v, x[i]), x[j]), m))


def kepler(deriv, a):
    if sum(deriv):
        raise ValueError
    ecc, M = a
    n = mpmath.floor(M / (2 * mpmath.pi))
    M -= 2 * mpmath.pi * n
    lo, hi = M - abs(ecc), M + abs(ecc)
    for _ in range(60):
        m = (lo + hi) / 2
        if m - ecc * mpmath.sin(m) < M:
            lo = m
        else:
            hi = m
    e = (lo + hi) / 2
    for _ in range(4):
        e -= (e - ecc * mpmath.sin(e) - M) / (1 - ecc * mpmath.cos(e))
    return e


KEPLER = {'math::solveKepler(double, double)': lambda sx, av: uf('kepler', av)}


def binary(k, single=False):
    e = k.real('ecc', lo=0, hi=1)
    k.require(lt(e, ONE))
    return [k.real('m', 'mod'), k.real('q', lo=0), k.real('sma', 'mod'), e, k.real('phase', ('angle',))]


@contract('C03', 'KeplerBinary: potential, force and second derivatives are those of two point masses', callees=KEPLER, uf={'kepler': kepler}, ring_s=60)
def kb(k):
    P = binary(k)
    t = k.real('t', 'modreal')
    p = k.reals('x y z')
    X, Y, VX, VY = k.call('d_keplerOrbit', P, t, k.out(2), k.out(2), k.out(2), k.out(2))
    m0, m1 = P[0] / (ONE + P[1]), P[0] * P[1] / (ONE + P[1])
    v = ZERO
    for m, a, b in zip((m0, m1), X, Y):
        v = v - m / sqrt((p[0] - a) ** 2 + (p[1] - b) ** 2 + p[2] ** 2)
    outputs(k, 'd_KeplerBinary_Car', (P, p, t), p, v)
    k.ensure_eq('KeplerBinaryParams::potential', k.call('d_keplerPot', P, p, t), v)


@contract('C03', 'KeplerBinary with a single component is a point mass at the origin', callees=KEPLER, uf={'kepler': kepler})
def kb1(k):
    P = binary(k)
    t = k.real('t', 'modreal')
    for Q in ([P[0], ZERO, P[2], P[3], P[4]], [P[0], P[1], ZERO, P[3], P[4]]):
        if Q[1] is ZERO:
            continue
        for cs in CSS:
            p, x = pos(k, cs)
            exclude_axis(k, cs, x)
            outputs(k, 'd_KeplerBinary_' + cs, (Q, p, t), p, -P[0] / sqrt(x[0] ** 2 + x[1] ** 2 + x[2] ** 2), subsets=False)


@contract('C03', 'KeplerBinary orbit: Kepler ellipse about the common centre of mass, velocity is the rate of change of position',
          callees=KEPLER, uf={'kepler': kepler})
def kb2(k):
    P = binary(k)
    m, qq, a, e, ph = P
    t = k.real('t', 'modreal')
    X, Y, VX, VY = k.call('d_keplerOrbit', P, t, k.out(2), k.out(2), k.out(2), k.out(2))
    om = sqrt(m / a ** 3)
    if k.native:       # bounded stand-in: the real solver of Kepler's equation is used
        dx, dy, vx, vy = X[0] - X[1], Y[0] - Y[1], VX[0] - VX[1], VY[0] - VY[1]
        r = sqrt(dx ** 2 + dy ** 2)
        for i, (A, V) in enumerate(((X, VX), (Y, VY))):
            k.ensure_eq('centre of mass at origin (%d)' % i, A[0] + qq * A[1], ZERO)
            for b in range(2):
                k.ensure_eq('velocity %d of component %d' % (i, b), V[b], k.D(A[b], t))
        k.ensure_eq('energy', (vx ** 2 + vy ** 2) / 2 - m / r, -m / (2 * a))
        k.ensure_eq('angular momentum', dx * vy - dy * vx, sqrt(m * a * (ONE - e * e)))
        k.ensure_eq('ellipse', r, a * (ONE - e * e) - e * dx)
        return
    eta = find(X[0], 'kepler')
    k.ensure_eq('eccentric anomaly is computed for the eccentricity of the orbit', kids(eta)[0], e)
    k.ensure_eq('mean anomaly', kids(eta)[1], om * t + ph)
    # relative separation: ellipse with semimajor axis a, focus at the origin
    for i, (A, V) in enumerate(((X, VX), (Y, VY))):
        k.ensure_eq('centre of mass at origin (%d)' % i, A[0] + qq * A[1], ZERO)
        k.ensure_eq('centre of mass at rest (%d)' % i, V[0] + qq * V[1], ZERO)
    k.ensure_eq('relative x', X[0] - X[1], a * (fn('cos', eta) - e))
    k.ensure_eq('relative y', Y[0] - Y[1], a * sqrt(ONE - e * e) * fn('sin', eta))
    u = var('eta_')
    for i, (A, V) in enumerate(((X, VX), (Y, VY))):
        for b in range(2):
            rate = subst(D(subst(A[b], {eta: u}), u), {u: eta}) * om / (ONE - e * fn('cos', eta))
            k.ensure_eq('velocity %d of component %d' % (i, b), V[b], rate)
