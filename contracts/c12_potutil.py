"""C12: potential utilities: circular orbits, interpolated potential, phase volume, projections."""
from agv.engine import contract
from agv.terms import *
from agv import terms as T
from agv.symex import Ptr
from agv.callees import rd

TUS = ['potential_base.cpp', 'potential_analytic.cpp', 'coord.cpp', 'math_core.cpp', 'math_specfunc.cpp', 'math_linalg.cpp', 'math_fit.cpp',
       'math_spline.cpp', 'cubature.cpp', 'utils.cpp', 'utils_config.cpp', 'math_random.cpp', 'math_geometry.cpp', 'math_sample.cpp']
DRV = ['drv_potutil.cpp']
HALF = q(Fraction(1, 2))
exp, log = (lambda x: fn('exp', x)), (lambda x: fn('log', x))
absx = lambda x: fn('abs', x)


def wr(sx, p, t, i=0):
    if p.r is not None:
        sx.store(Ptr(p.r, add(p.o, ic(8 * i))), t, 8)


def c_reg(sx, av):
    sx.__dict__.setdefault('named', {})[id(av[0].r), av[0].o] = av[1].args[0]
    return None


def splid(sx, p):
    return sx.named[id(p.r), p.o]


FIX = {}      # splines whose outputs are fixed by the contract rather than abstract functions


def c_spline(sx, av):
    i = splid(sx, av[0])
    x = av[1]
    for d, p in enumerate(av[2:]):
        if i in FIX:
            if p.r is not None:
                wr(sx, p, FIX[i][d])
        else:
            wr(sx, p, uf('S%d' % i, [x], (d,)))
    return None


SPL = {'agv_reg': c_reg,
       'math::QuinticSpline::evalDeriv(double, double*, double*, double*, double*) const': c_spline,
       'math::QuinticSpline::evalDeriv(double, double*, double*, double*) const': c_spline,
       'math::CubicSpline::evalDeriv(double, double*, double*, double*, double*) const': c_spline}
S = lambda i, x: uf('S%d' % i, [x])


def ipar(k, outer=None):
    """parameters of the interpolator; outer: kind of the asymptotic law"""
    iP = k.real('invPhi0', hi=0, strict=True)
    s = -ONE if outer == 'log' else k.real('slopeOut', hi=0, strict=True)
    if outer == 'power':
        k.require(not_(eq(s, -ONE)))
    M, C = k.real('massOut'), k.real('coefOut') if outer else ZERO
    if outer:
        k.require(not_(eq(C, ZERO)))
    lo, hi = k.reals('xmin xmax')
    k.require(lt(lo, hi))
    return [iP, s, M, C, lo, hi]


def ip(k, what, P, mask, x, n=8):
    return k.call('d_ip', 1 if k.native else 0, what, P, mask, x, k.out(n))


def phiin(P, R):
    """the potential inside the grid: log(1/Phi(0) - 1/Phi) is a spline in log R"""
    return ONE / (P[0] - exp(S(2, log(R))))


def phiout(P, R):
    s = P[1]
    g = log(R) if s is -ONE or s == -ONE else (fn('pow', R, s + ONE) - ONE) / (s + ONE)
    return (P[3] * g - P[2]) / R


def chain(k, f, x, n):
    r = [f]
    for i in range(n):
        r.append(k.D(r[-1], x))
    return r


for mask in (15, 1, 2, 4, 8, 6):
    @contract('C12', 'interpolated potential inside the grid, outputs %d' % mask, callees=SPL)
    def ipin(k, mask=mask):
        P = ipar(k)
        R = k.real('R', 'mod')
        o = ip(k, 0, P, mask, R)
        if k.native:
            o = [o[d] if mask >> d & 1 else None for d in range(4)]
            full = ip(k, 0, P, 15, R)
            ref = [full[0]] + [k.D(full[d], R) for d in range(3)]
        else:
            ref = chain(k, phiin(P, R), R, 3)
        for d in range(4):
            if mask >> d & 1:
                k.ensure_eq('potential' if d == 0 else 'derivative %d' % d, o[d], ref[d])

    for law in ('power', 'log'):
        @contract('C12', 'interpolated potential outside the grid: %s law, outputs %d' % (law, mask), callees=SPL)
        def ipout(k, mask=mask, law=law):
            P = ipar(k, law)
            R = k.real('R', 'mod')
            if not k.native:
                k.require(lt(P[5], log(R)))
            else:
                R = R * q(10**7)
            o = ip(k, 0, P, mask, R)
            if k.native:
                full = ip(k, 0, P, 15, R)
                k.ensure_eq('subset', o[0], o[0] if not mask & 1 else full[0])
                return
            ref = chain(k, phiout(P, R), R, 3)
            for d in range(4):
                if mask >> d & 1:
                    k.ensure_eq('potential' if d == 0 else 'derivative %d' % d, o[d], ref[d])


def energy(k, P):
    """energy within the range of potential"""
    if k.native:
        return -k.real('nE', ('range', 0.02, 0.7))
    u = k.real('u', 'mod')        # E = 1/(1/Phi(0) - u)
    return ONE / (P[0] - u)


for der in (1, 3):
    suf = ', with derivative' if der == 3 else ''

    @contract('C12', 'interpolated R_max inside the grid' + suf, callees=SPL)
    def rmaxin(k, der=der):
        P = ipar(k)
        E = k.real('E', hi=0, strict=True) if not k.native else energy(k, P)
        o = None
        if not k.native:
            k.require(lt(ZERO, P[0] - ONE / E))
            sE = log(P[0] - ONE / E)
            k.require(le(S(3, sE), P[5]))
            o = ip(k, 1, P, der, E)
            f = exp(S(3, sE))
        else:
            o = ip(k, 1, P, der, E)
            f = ip(k, 1, P, 1, E)[0]
            k.ensure_close('potential at this radius', ip(k, 0, P, 1, f)[0], E, tol=1e-6)
        k.ensure_eq('radius', o[0], f)
        if der == 3:
            k.ensure_eq('derivative by energy', o[1], k.D(f, E) if not k.native else -k.D(f, k.real('nE', ('range', 0.02, 0.7))))

    @contract('C12', 'interpolated L_circ inside the grid' + suf, callees=SPL)
    def lcircin(k, der=der):
        P = ipar(k)
        E = k.real('E', hi=0, strict=True) if not k.native else energy(k, P)
        if not k.native:
            k.require(lt(ZERO, P[0] - ONE / E))
            k.require(le(ONE / P[0], E))
            sE = log(P[0] - ONE / E)
            k.require(le(sE, P[5]))
            f = exp(S(0, sE))
        else:
            f = ip(k, 2, P, 1, E)[0]
        o = ip(k, 2, P, der, E)
        k.ensure_eq('angular momentum', o[0], f)
        if der == 3:
            k.ensure_eq('derivative by energy', o[1], k.D(f, E) if not k.native else -k.D(f, k.real('nE', ('range', 0.02, 0.7))))

    @contract('C12', 'interpolated R_circ inside the grid' + suf, callees=SPL)
    def rcircin(k, der=der):
        P = ipar(k)
        E = k.real('E', hi=0, strict=True) if not k.native else energy(k, P)
        if not k.native:
            k.require(lt(ZERO, P[0] - ONE / E))
            k.require(le(ONE / P[0], E))
            L = S(0, log(P[0] - ONE / E))
            k.require(le(L, P[5]))
            f = exp(S(1, L))
        else:
            f = ip(k, 3, P, 1, E)[0]
            k.ensure_close('same as the radius for the given angular momentum', f, ip(k, 4, P, 1, ip(k, 2, P, 1, E)[0])[0], tol=1e-7)
        o = ip(k, 3, P, der, E)
        k.ensure_eq('radius', o[0], f)
        if der == 3:
            k.ensure_eq('derivative by energy', o[1], k.D(f, E) if not k.native else -k.D(f, k.real('nE', ('range', 0.02, 0.7))))

    for sg in (1, -1):
        @contract('C12', 'interpolated R_from_Lz inside the grid, Lz%s0%s' % ('>' if sg > 0 else '<', suf), callees=SPL)
        def rlzin(k, der=der, sg=sg):
            P = ipar(k)
            L = k.real('L', 'mod') * q(sg)
            v = k.real('L', 'mod')
            if not k.native:
                k.require(le(log(v), P[5]))
                f = exp(S(1, log(v)))
            else:
                f = ip(k, 4, P, 1, v)[0]
            o = ip(k, 4, P, der, L)
            k.ensure_eq('radius', o[0], f)
            if der == 3:
                k.ensure_eq('derivative by Lz', o[1], k.D(f, v) * q(sg))


@contract('C12', 'interpolated L_circ and R_circ are undefined outside the range of energies', callees=SPL)
def ipnan(k):
    P = ipar(k)
    if k.native:
        k.ensure('symbolic only', TRUE)
        return
    E = k.real('E')
    k.require(or_(lt(E, ONE / P[0]), lt(ZERO, E)))
    for w in (2, 3):
        for der in (1, 3):
            o = ip(k, w, P, der, E)
            for i in range(1 + der // 3):
                k.ensure('output %d of %d' % (i, w), TRUE if o[i] is T.NAN else FALSE)


def limited(k, nm, v, new, old):
    """v is either the corrected value or the old one changed by a quarter if the correction is too large"""
    a, b = old * q(Fraction(3, 4)), old * q(Fraction(5, 4))
    k.ensure_eq(nm + ': root-finding step or its limit', (v - new) * (v - a) * (v - b), ZERO)
    k.ensure(nm + ': within limits', and_(le(a, v), le(v, b)))


def corrections(k, law):
    P = ipar(k, law)
    lr = k.real('logR0', ('range', -1, 3))
    k.require(lt(P[5], lr))
    k.require(eq(log(exp(lr)), lr))
    r0 = exp(lr)
    x = var('%R')
    f = chain(k, phiout(P, x), x, 2)
    Phi, d1, d2 = [subst(t, {x: r0}) for t in f]
    return P, r0, Phi, d1, d2


for law in ('power', 'log'):
    @contract('C12', 'correction of R_max outside the grid: third-order root-finding step, %s law' % law, callees=SPL)
    def crmax(k, law=law):
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        P, r0, Phi, d1, d2 = corrections(k, law)
        E = k.real('E', hi=0, strict=True)
        k.require(lt(ZERO, P[0] - ONE / E))
        k.require(lt(ZERO, d1))
        FIX.clear()
        FIX[3] = [k.real('logR0', ('range', -1, 3)), k.real('dR'), ZERO]
        try:
            o = ip(k, 1, P, 3, E)
        finally:
            FIX.clear()
        F = Phi - E
        den = q(2) * d1 ** 2 - F * d2
        k.require(not_(eq(den, ZERO)))
        limited(k, 'radius', o[0], r0 - q(2) * F * d1 / den, r0)
        sE = P[0] - ONE / E
        k.ensure_eq('derivative by energy', o[1], k.real('dR') * o[0] / (E ** 2 * sE))

    @contract('C12', 'correction of R_circ outside the grid: root-finding step, %s law' % law, callees=SPL)
    def crcirc(k, law=law):
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        P, r0, Phi, d1, d2 = corrections(k, law)
        E = k.real('E', hi=0, strict=True)
        k.require(lt(ZERO, P[0] - ONE / E))
        k.require(le(ONE / P[0], E))
        kap = q(3) * d1 + r0 * d2
        k.require(lt(ZERO, kap))
        L0, a, b = k.reals('logL dLdE dRdL')
        k.require(lt(P[5], L0))
        FIX.clear()
        FIX.update({0: [L0, a, ZERO], 1: [k.real('logR0', ('range', -1, 3)), b, ZERO]})
        try:
            o = ip(k, 3, P, 3, E)
        finally:
            FIX.clear()
        # E_circ(R) = Phi + R/2 dPhi/dR,  dE_circ/dR = (3 dPhi/dR + R d2Phi/dR2) / 2
        limited(k, 'radius', o[0], r0 - (Phi + HALF * r0 * d1 - E) / (HALF * kap), r0)
        k.ensure_eq('derivative by energy', o[1], a * b * o[0] / (E ** 2 * (P[0] - ONE / E)))

    for sg in (1, -1):
        @contract('C12', 'correction of R_from_Lz outside the grid: root-finding step, %s law, Lz%s0' % (law, '>' if sg > 0 else '<'), callees=SPL)
        def crlz(k, law=law, sg=sg):
            if k.native:
                k.ensure('symbolic only', TRUE)
                return
            P, r0, Phi, d1, d2 = corrections(k, law)
            v = k.real('L', 'mod')
            k.require(lt(P[5], log(v)))
            kap = q(3) * d1 + r0 * d2
            k.require(lt(ZERO, kap))
            b = k.real('dRdL')
            FIX.clear()
            FIX[1] = [k.real('logR0', ('range', -1, 3)), b, ZERO]
            try:
                o = ip(k, 4, P, 3, v * q(sg))
            finally:
                FIX.clear()
            limited(k, 'radius', o[0], r0 - (r0 * d1 - (v / r0) ** 2) / kap, r0)
            k.ensure_eq('derivative by Lz', o[1], b * o[0] / v * q(sg))

    @contract('C12', 'correction of L_circ outside the grid: exact at the root, %s law' % law, callees=SPL, may_throw=True)
    def clcirc(k, law=law):
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        P, r0, Phi, d1, d2 = corrections(k, law)
        E = Phi + HALF * r0 * d1
        k.require(lt(E, ZERO))
        k.require(lt(ZERO, P[0] - ONE / E))
        k.require(le(ONE / P[0], E))
        k.require(lt(P[5], log(P[0] - ONE / E)))
        k.require(lt(ZERO, d1))
        L0, a = k.reals('logL dLdE')
        FIX.clear()
        FIX.update({0: [L0, a, ZERO], 1: [k.real('logR0', ('range', -1, 3)), ZERO, ZERO]})
        try:
            o = ip(k, 2, P, 3, E)
        finally:
            FIX.clear()
        limited(k, 'angular momentum', o[0], r0 * sqrt(r0 * d1), exp(L0))
        k.ensure_eq('derivative by energy', o[1], a * o[0] / (E ** 2 * (P[0] - ONE / E)))


for der in (1, 3):
    @contract('C12', 'interpolated epicyclic frequencies' + (' and their derivatives' if der == 3 else ''), callees=SPL)
    def ipepi(k, der=der):
        P = ipar(k)
        R = k.real('R', 'mod')
        if k.native:
            f = ip(k, 0, P, 15, R)
            d1, d2 = f[1], f[2]
        else:
            _, d1, d2 = chain(k, phiin(P, R), R, 2)
        k.require(lt(ZERO, d1))
        k.require(lt(ZERO, d2 + q(3) * d1 / R))
        o = ip(k, 5, P, der, R)
        Om, kap = sqrt(d1 / R), sqrt(d2 + q(3) * d1 / R)
        k.ensure_eq('Omega', o[2], Om)
        k.ensure_eq('kappa', o[0], kap)
        if k.native:
            nu = o[1]
        else:
            k.require(lt(ZERO, S(4, log(R))))
            nu = sqrt(S(4, log(R)) * d1 / R)
            k.ensure_eq('nu', o[1], nu)
        if der == 3:
            if k.native:
                kap, Om = o[0], o[2]
            k.ensure_eq('derivative of kappa', o[3], k.D(kap, R))
            k.ensure_eq('derivative of nu', o[4], k.D(nu, R))
            k.ensure_eq('derivative of Omega', o[5], k.D(Om, R))


for sing in (0, 1):
    @contract('C12', 'inner power law of the interpolated potential, %s centre' % ('singular' if sing else 'finite'), callees=SPL)
    def ipinner(k, sing=sing):
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        P = ipar(k)
        if sing:
            P[0] = ZERO
        r = exp(P[4])
        s, P0, c = [ip(k, 6, P, 7, ZERO)[i] for i in range(3)]
        x = var('%R')
        f = ONE / (P[0] - exp(S(2, log(x))))
        k.require(not_(eq(s, ZERO)))
        if not sing:
            k.ensure_eq('potential at the centre', P0, ONE / P[0])
        else:
            k.ensure_eq('potential at the centre', P0, ZERO)
        g = P0 + c * fn('pow', x, s)
        k.ensure_eq('value at the innermost node', subst(g, {x: r}), subst(f, {x: r}))
        k.ensure_eq('derivative at the innermost node', s * (subst(f, {x: r}) - P0), r * subst(k.D(f, x), {x: r}))
        s1 = ip(k, 6, P, 1, ZERO)[0]
        k.ensure_eq('same slope without other outputs', s1, s)


@contract('C12', 'power law fitted to a potential at small radius')
def inner(k):
    v = k.call('d_inner', k.out(1), k.out(1))
    s, ((P0,), (c,)) = v
    r = q(Fraction(1e-10))
    x = var('%r')
    f = chain(k, uf('F1_1', [x]), x, 2)
    f = [subst(t, {x: r}) for t in f]
    k.require(not_(eq(f[1], ZERO)))
    k.ensure_close('slope', s, ONE + r * f[2] / f[1], tol=1e-12)
    if k.native:
        return
    if k.decide(eq(ONE + r * f[2] / f[1], ZERO)):
        k.ensure_close('logarithmic law: value', P0 + c * log(r), f[0], tol=1e-9)
        k.ensure_close('logarithmic law: derivative', c / r, f[1], tol=1e-9)
    else:
        p = fn('pow', r, s)
        k.ensure_eq('value', P0 + c * p, f[0])
        k.ensure_eq('derivative', s * c * p / r, f[1])
        k.ensure_eq('second derivative', s * (s - ONE) * c * p / r ** 2, f[2])


# ---- scaled energy and phase volume
@contract('C12', 'scaled energy and its inverse')
def scaleE(k):
    iP, E = k.real('invPhi0', hi=0, strict=False), k.real('E', hi=0, strict=True)
    k.require(lt(ZERO, iP - ONE / E))
    o = k.call('d_scaleE', E, iP, k.out(2))
    k.ensure_eq('scaled energy', exp(o[0]), iP - ONE / E)
    k.ensure_eq('derivative', o[1] * k.D(o[0], E), ONE)
    u = k.call('d_unscaleE', o[0], iP, k.out(3))
    k.ensure_eq('inverse function', u[0], E)
    k.ensure_eq('same derivative', u[1], o[1])
    s, s2 = k.reals('s s2')
    u = k.call('d_unscaleE', s, iP, k.out(3))
    k.ensure_eq('derivative of the inverse function', u[1], k.D(u[0], s))
    k.ensure_eq('second derivative of the inverse function', u[2], k.D(u[1], s))
    w = k.call('d_unscaleE', s2, iP, k.out(3))
    d = k.call('d_unscaleDE', s, s2, iP, k.out(4))
    k.ensure_eq('first energy', d[0], u[0])
    k.ensure_eq('second energy', d[1], w[0])
    k.ensure_eq('difference', d[2], u[0] - w[0])
    k.ensure_eq('derivative of the first energy', d[3], u[1])


def pv(k, what, iP, x, y, mask):
    return k.call('d_pv', 1 if k.native else 0, what, iP, x, y, mask, k.out(3))


for mask in (1, 2, 3):
    @contract('C12', 'phase volume as a function of energy, outputs %d' % mask, callees=SPL)
    def pvE(k, mask=mask):
        iP, E = k.real('invPhi0', hi=0, strict=False), k.real('E')
        if k.native:
            E = -k.real('nE', ('range', 0.02, 0.95))
            f = pv(k, 0, iP, E, ZERO, 3)
            o = pv(k, 0, iP, E, ZERO, mask)
            if mask & 1:
                k.ensure_eq('phase volume', o[0], f[0])
                k.ensure_close('inverse function', pv(k, 1, iP, f[0], ZERO, 1)[0], E, tol=1e-7)
            if mask & 2:
                k.ensure_eq('density of states', o[1], -k.D(f[0], k.real('nE', ('range', 0.02, 0.95))))
            return
        o = pv(k, 0, iP, E, ZERO, mask)
        if k.decide(le(ONE, E * iP)):
            r = [ZERO, ZERO]
            if k.decide(le(ZERO, E)):
                return
        elif k.decide(le(ZERO, E)):
            r = [T.INF, T.INF]
        else:
            h = exp(S(5, log(iP - ONE / E)))
            r = [h, k.D(h, E)]
        for i in range(2):
            if mask >> i & 1:
                k.ensure_eq(['phase volume', 'density of states'][i], o[i], r[i])


for mask in (1, 3, 5, 7):
    @contract('C12', 'energy as a function of phase volume, outputs %d' % mask, callees=SPL)
    def pvh(k, mask=mask):
        iP, h = k.real('invPhi0', hi=0, strict=True), k.real('h', 'mod')
        o = pv(k, 1, iP, h, ZERO, mask)
        E = pv(k, 1, iP, h, ZERO, 1)[0] if k.native else ONE / (iP - exp(S(6, log(h))))
        k.ensure_eq('energy', o[0], E)
        if k.native:
            g = pv(k, 1, iP, h, ZERO, 3)[1]
        else:
            k.require(not_(eq(k.D(E, h), ZERO)))
            g = ONE / k.D(E, h)
        if mask & 2:
            k.ensure_eq('density of states', o[1], g if not k.native else ONE / k.D(E, h))
        if mask & 4:
            k.ensure_eq('derivative of the density of states by phase volume', o[2], k.D(g, h))


@contract('C12', 'energy at zero and infinite phase volume', callees=SPL)
def pvlim(k):
    iP = k.real('invPhi0', hi=0, strict=True)
    o = pv(k, 1, iP, ZERO, ZERO, 3)
    if not k.native:
        k.ensure_eq('energy at zero', o[0], ONE / iP)
    k.ensure_eq('density of states at zero', o[1], ZERO)
    if not k.native:
        o = pv(k, 1, iP, T.INF, ZERO, 3)
        k.ensure_eq('energy at infinity', o[0], ZERO)
        k.ensure_eq('density of states at infinity', o[1], T.INF)
        o = pv(k, 1, ZERO, ZERO, ZERO, 3)
        k.ensure_eq('singular potential: energy at zero', o[0], -T.INF)


for mask in (1, 3):
    @contract('C12', 'difference of energies for two phase volumes, outputs %d' % mask, callees=SPL)
    def pvdiff(k, mask=mask):
        iP, a, b = k.real('invPhi0', hi=0, strict=True), k.real('l1', ('range', -3, 3)), k.real('l2', ('range', -3, 3))
        o = pv(k, 2, iP, a, b, mask)
        E = (lambda l: pv(k, 1, iP, exp(l), ZERO, 1)[0]) if k.native else (lambda l: ONE / (iP - exp(S(6, l))))
        k.ensure_close('difference', o[0], E(a) - E(b), tol=1e-12)
        if mask & 2:
            # g = dh/dE = h / (dE/dlog h)
            k.require(not_(eq(k.D(E(a), a), ZERO)))
            k.ensure_eq('density of states', o[1], exp(a) / k.D(E(a), a))


# ---- functions whose roots are sought
F4 = lambda *a: uf('F1_4', list(a) + [ZERO] * (4 - len(a)))
for mask in (3, 1, 2):
    @contract('C12', 'functions passed to the root finder and their derivatives, outputs %d' % mask)
    def rootfn(k, mask=mask):
        E, L, lr = k.real('E'), k.real('L'), k.real('logR', ('range', -2, 2))
        x = var('%R')
        Phi = F4(x)
        d1 = k.D(Phi, x)
        at = lambda t: subst(t, {x: exp(lr)})
        for w, nm, f in ((0, 'R_max', Phi - E), (1, 'R_circ', Phi + HALF * x * d1 - E), (2, 'R_from_Lz', x ** 3 * d1 - L ** 2)):
            o = k.call('d_rf', w, E, L, lr, mask, k.out(2))
            if mask & 1:
                k.ensure_eq(nm, o[0], at(f))
            if mask & 2:
                k.ensure_eq(nm + ', derivative by log R', o[1], at(x * k.D(f, x)))
        R = k.real('R', 'mod')
        o = k.call('d_rf', 3, E, L, R, mask, k.out(2))
        f = (E - Phi) * x ** 2 - HALF * L ** 2
        if mask & 1:
            k.ensure_eq('peri/apocentre', o[0], subst(f, {x: R}))
            k.ensure_eq('peri/apocentre at zero radius', k.call('d_rf', 3, E, L, ZERO, 1, k.out(2))[0], -HALF * L ** 2)
        if mask & 2:
            k.ensure_eq('peri/apocentre, derivative', o[1], subst(k.D(f, x), {x: R}))

    for lawn in ('power', 'log'):
        @contract('C12', 'peri/apocentre of a %s-law potential, outputs %d' % (lawn, mask))
        def rootpl(k, mask=mask, lawn=lawn):
            # Phi = C r^s (or C log r): E and L of a circular orbit of unit radius times relative angular momentum
            s = k.real('s', ('range', -0.95, 1.9)) if lawn == 'power' else ZERO
            if lawn == 'power':
                k.require(not_(eq(s, ZERO)))
            v2, x = k.real('v2', ('range', 0.05, 0.95)), k.real('x', ('range', 0.1, 2))
            k.require(and_(lt(ZERO, v2), le(v2, ONE), lt(ZERO, x)))
            if lawn == 'power':
                k.require(lt(-ONE, s))
            Phi = fn('pow', x, s) if lawn == 'power' else log(x)
            E = ONE + HALF * s if lawn == 'power' else HALF
            Lc2 = s if lawn == 'power' else ONE
            f = q(2) * (x ** 2 * (E - Phi) - HALF * v2 * Lc2)
            o = k.call('d_rfpl', s, v2, x, mask, k.out(2))
            if mask & 1:
                k.ensure_eq('function', o[0], f)
            if mask & 2:
                k.ensure_eq('derivative', o[1], k.D(f, x))


@contract('C12', 'polishing of peri/apocentre: third-order root-finding step')
def refine(k):
    R, E, L = k.real('R', 'mod'), k.real('E'), k.real('L')
    x = var('%R')
    f = chain(k, E - uf('F1_1', [x]) - HALF * (L / x) ** 2, x, 2)
    F, F1, F2 = [subst(t, {x: R}) for t in f]
    k.require(not_(eq(F1, ZERO)))
    den = q(2) * F1 ** 2 - F * F2
    k.require(not_(eq(den, ZERO)))
    dR = q(-2) * F * F1 / den
    r, _ = k.call('d_refine', R, E, L), 0
    r = r[0] if isinstance(r, (list, tuple)) else r
    k.ensure_eq('the radius is either polished or left as it was', (r - R) * (r - R - dR), ZERO)
    k.ensure('bounded step', le(absx(r - R), R * q(Fraction(1, 4))))


@contract('C12', 'curvature of the scaled potential that determines the radial grid')
def scalephi(k):
    lr = k.real('logr', ('range', -2, 2))
    x = var('%r')
    Phi = uf('F1_1', [x])
    P0 = uf('F1_1', [ZERO])
    r = exp(lr)
    at = lambda t: subst(t, {x: r})
    k.require(lt(at(Phi), ZERO))
    k.require(lt(P0, at(Phi) ))
    iP = ONE / P0
    k.require(lt(-iP * q(Fraction(1, 10**9)), iP - ONE / at(Phi)))
    f = log(iP - ONE / Phi) + q(2) * log(-Phi)
    v, o = k.call('d_scalephi', 0, lr, k.out(1))
    k.ensure_eq('second derivative by log radius', v, at(x * k.D(x * k.D(f, x), x)))


# ---- routines that use the root finder: it returns a point where the function vanishes
ROOTS = {}


def c_findroot(sx, av):
    """math::findRoot(f, x1, x2, tol): the point named by the contract, which proves that the function vanishes there"""
    f, a, b = av[0], nz(av[1]), nz(av[2])
    x = ROOTS['x'].pop(0)
    ROOTS['v'].append((x, sx.call(sx.prog.find(None, '@d_fncval'), [f, x]), a, b))
    return x


from agv.symex import nz
ROOT = dict(SPL, **{'math::findRoot(math::IFunction const&, double, double, double)': c_findroot})


def roots(k, *x):
    ROOTS.clear()
    ROOTS.update(x=list(x), v=[])


def mn(k, R):
    return k.call('d_mn', R, k.out(4))


def circ(k):
    """radius of a circular orbit, potential and its derivatives at this radius, and the value of the scaled variable"""
    if k.native:
        R = k.real('R', ('range', 0.05, 20))
        Phi, d1, d2, dz = mn(k, R)
        return None, R, Phi, d1, d2
    s = k.real('s', ('range', 0.3, 0.7))
    k.require(lt(ZERO, s))
    k.require(lt(s, ONE))
    R = exp(ONE / (ONE - s) - ONE / s)
    x = var('%R')
    Phi, d1, d2 = [subst(t, {x: R}) for t in chain(k, F4(x), x, 2)]
    k.require(lt(ZERO, d1))
    return s, R, Phi, d1, d2


def rt(k, what, x):
    r = k.call('d_root', 1 if k.native else 0, what, x, k.out(3))
    return r[0]


def ranrange(k, a, b):
    if not k.native:
        for x, v, lo, hi in ROOTS['v']:
            k.ensure_eq('the function vanishes at the root', v, ZERO)
            k.ensure_eq('left end of the interval', lo, lift(a))
            k.ensure_eq('right end of the interval', hi, lift(b))
        k.ensure('all roots were sought', TRUE if not ROOTS['x'] else FALSE)


for w, nm in enumerate(['R_max', 'R_circ', 'R_from_Lz', 'L_circ', 'T_circ']):
    @contract('C12', '%s of the potential is the inverse of its definition' % nm, callees=ROOT, tol=1e-7)
    def inv(k, w=w, nm=nm):
        s, R, Phi, d1, d2 = circ(k)
        x = [Phi, Phi + HALF * R * d1, R * sqrt(R * d1), Phi + HALF * R * d1, Phi + HALF * R * d1][w]
        roots(k, s)
        o = rt(k, w, x)
        k.ensure_close('result', o, [R, R, R, R * sqrt(R * d1), q(2) * PI * R / sqrt(R * d1)][w], tol=1e-7)
        ranrange(k, ZERO, ONE)
        if w == 2:
            roots(k, s)
            k.ensure_close('same for negative Lz', rt(k, w, -x), R, tol=1e-7)
            k.ensure_eq('zero angular momentum', rt(k, w, ZERO), ZERO)
            if not k.native:
                k.ensure_eq('infinite angular momentum', rt(k, w, T.INF), T.INF)


@contract('C12', 'circular velocity and epicyclic frequencies of a potential', callees=ROOT)
def epi(k):
    if k.native:
        R = k.real('R', ('range', 0.05, 20))
        Phi, d1, d2, dz = mn(k, R)
    else:
        R = k.real('R', 'mod')
        Phi, d1, d2 = chain(k, F4(R), R, 2)
        dz = uf('F1_4', [R, ZERO, ZERO, ZERO], (0, 2, 0, 0))
        for x in (d1, dz, d2 + q(3) * d1 / R):
            k.require(lt(ZERO, x))
    k.ensure_eq('circular velocity', rt(k, 5, R), sqrt(R * d1))
    _, o = k.call('d_root', 1 if k.native else 0, 6, R, k.out(3))
    k.ensure_eq('kappa', o[0], sqrt(d2 + q(3) * d1 / R))
    k.ensure_eq('nu', o[1], sqrt(dz))
    k.ensure_eq('Omega', o[2], sqrt(d1 / R))
    k.ensure_eq('circular velocity at the centre', rt(k, 5, ZERO), ZERO)


@contract('C12', 'epicyclic frequencies at the centre', callees=ROOT)
def epi0(k):
    if k.native:
        Phi, d1, d2, dz = mn(k, ZERO)
    else:
        x = var('%R')
        d1, d2 = [subst(t, {x: ZERO}) for t in chain(k, F4(x), x, 2)[1:]]
        dz = uf('F1_4', [ZERO] * 4, (0, 2, 0, 0))
        k.require(lt(ZERO, d2))
        k.require(lt(ZERO, dz))
        if not k.decide(eq(d1, ZERO)):
            k.ensure('only a smooth potential has finite frequencies at the centre', TRUE)
            return
    _, o = k.call('d_root', 1 if k.native else 0, 6, ZERO, k.out(3))
    k.ensure_eq('kappa', o[0], q(2) * sqrt(d2))
    k.ensure_eq('nu', o[1], sqrt(dz))
    k.ensure_eq('Omega', o[2], sqrt(d2))


def c_rcirc(sx, av):
    """potential::R_circ(pot, E): radius of a circular orbit with the given energy (proved above)"""
    ROOTS['E'].append(av[1])
    return ROOTS['R']


def c_slope(sx, av):
    """potential::innerSlope(pot, Phi0, coef): parameters of the fitted power law (proved above)"""
    wr(sx, av[1], ROOTS['slope'][1])
    wr(sx, av[2], ROOTS['slope'][2])
    return ROOTS['slope'][0]


EXT = dict(ROOT, **{'potential::innerSlope(math::IFunction const&, double*, double*)': c_slope,
                    'potential::(anonymous namespace)::refineRoot(math::IFunction const&, double, double, double)': lambda sx, av: uf('refined', [nz(x) for x in av[1:]]),
                    'potential::R_circ(potential::BasePotential const&, double)': c_rcirc})


@contract('C12', 'peri- and apocentre radii: roots of the effective potential', callees=EXT, tol=1e-6)
def extent(k):
    if k.native:
        s, R, Phi, d1, d2 = circ(k)
        E, Lc = Phi + HALF * R * d1, R * sqrt(R * d1)
        u = k.real('u', ('range', 0.05, 1))
        L = u * Lc
        o = k.call('d_extent', 1, E, L, k.out(2))
        k.ensure('order', and_(le(o[0], R * (ONE + q(Fraction(1, 10**8)))), le(R * (ONE - q(Fraction(1, 10**8))), o[1])))
        for i in (0, 1):
            k.ensure_close('root %d' % i, (E - mn(k, o[i])[0]) * o[i] ** 2, HALF * L ** 2, tol=1e-6)
        return
    R, L, E = k.real('R', 'mod'), k.real('L', 'mod'), k.real('E')
    x = var('%R')
    Phi, d1, d2 = [subst(t, {x: R}) for t in chain(k, F4(x), x, 2)]
    k.require(lt(ZERO, d1))
    Lc = R * sqrt(R * d1)
    sl, P0, c = k.reals('slope Phi0 coef')
    kap = q(3) * d1 + R * d2
    k.require(lt(ZERO, kap))
    r1, r2 = k.real('r1', 'mod'), k.real('r2', 'mod')
    roots(k, r1, r2)
    ROOTS.update(R=R, E=[], slope=[sl, P0, c])
    o = k.call('d_extent', 0, E, L, k.out(2))
    v = ROOTS['v']
    if not ROOTS['E']:     # close to the centre: the fitted power law Phi0 + c r^s
        Rc = fn('pow', (E - P0) / (c * (ONE + HALF * sl)), ONE / sl)
        k.require(lt(ZERO, (E - P0) / (c * (ONE + HALF * sl))))
        k.require(lt(ZERO, c * sl))
        k.ensure('power law is used close to the centre only', and_(lt(ZERO, sl), le(P0, E), lt(E, P0 * q(Fraction(999999, 1000000))))) if not k.decide(lt(ZERO, P0)) else None
        if len(v) == 2:
            rel = (L / Rc) ** 2 / (c * sl * fn('pow', Rc, sl))
            for i, (x, val, a, b) in enumerate(v):
                k.ensure_eq('power law: ' + ['pericentre', 'apocentre'][i], o[i], Rc * (ite(lt(x, ONE), x, ONE) if i == 0 else ite(lt(ONE, x), x, ONE)))
                k.ensure_eq('power law: effective potential at the %s' % ['pericentre', 'apocentre'][i], val, x ** 2 * (q(2) + sl - q(2) * fn('pow', x, sl)) - sl * rel)
                k.ensure_eq('power law: left end', a, lift(i))
                k.ensure_eq('power law: right end', b, lift(1 + i))
        else:
            k.ensure_eq('power law: circular orbit', o[0], o[1])
        return
    k.ensure_eq('energy of the circular orbit', ROOTS['E'][0], E)
    if len(v) == 2:
        for i, (x, val, a, b) in enumerate(v):
            k.ensure_eq(['pericentre', 'apocentre'][i], o[i], x)
            k.ensure_eq('effective potential at the %s' % ['pericentre', 'apocentre'][i], val, x ** 2 * (E - F4(x)) - HALF * L ** 2)
            k.ensure_eq('left end', a, [ZERO, R][i])
            k.ensure_eq('right end', b, [R, q(3) * R][i])
    elif k.decide(le(Lc, L)):
        k.ensure_eq('pericentre of a circular orbit', o[0], R)
        k.ensure_eq('apocentre of a circular orbit', o[1], R)
    else:
        off = sqrt((ONE - (L / Lc) ** 2) * d1 / kap)
        for i in (0, 1):
            x = uf('refined', [R * (ONE + off * q(2 * i - 1)), E, L])
            k.ensure_eq(['pericentre', 'apocentre'][i] + ' of a nearly circular orbit', o[i], ite(lt(x, R), x, R) if i == 0 else ite(lt(x, R), R, x))


# ---- projections
def fromrot(M, X):
    return [M[0 + i] * X[0] + M[3 + i] * X[1] + M[6 + i] * X[2] for i in range(3)]


def los(k):
    X, M = k.reals('X Y'), k.reals(' '.join('m%d' % i for i in range(9)))
    return X, M, k.real('t')


def losrange(k, s):
    """the scaled coordinate along the line of sight: away from the singular points of the transformation"""
    k.require(lt(ZERO, s))
    k.require(lt(s, ONE))
    k.require(not_(eq(s, HALF)))


for many in (0, 1, 2):
    @contract('C12', 'line-of-sight integrand of density, %s' % ['single', 'array interface', 'many points'][many])
    def projdens(k, many=many):
        X, M, t = los(k)
        s = k.real('s', ('range', 0.3, 0.7))
        losrange(k, s)
        o = k.call('d_projdens', X, M, t, s, many, k.out(3))
        k.ensure_eq('jacobian', o[2], k.D(o[1], s))
        k.ensure_eq('integrand', o[0], uf('F1_4', fromrot(M, X + [o[1]]) + [t]) * o[2])


PH = [var('%X'), var('%Y'), var('%Z')]


def losref(k, X, M, Z, t, mask):
    """what is integrated along the line of sight, expressed as derivatives of the observed potential"""
    at = lambda f: subst(f, {PH[0]: X[0], PH[1]: X[1], PH[2]: Z})
    f = uf('F1_4', fromrot(M, PH) + [t])
    x, y = PH[0], PH[1]
    r = []
    if mask & 1:
        r.append(('potential', at(f) - subst(f, {PH[0]: ZERO, PH[1]: ZERO, PH[2]: Z})))
    if mask & 2:
        r += [('d/dX', at(k.D(f, x))), ('d/dY', at(k.D(f, y)))]
    if mask & 4:
        r += [('d2/dX2', at(k.D(k.D(f, x), x))), ('d2/dY2', at(k.D(k.D(f, y), y))), ('d2/dXdY', at(k.D(k.D(f, x), y)))]
    return r


for mask in range(1, 8):
    @contract('C12', 'line-of-sight integrand of potential and its derivatives, outputs %d' % mask, may_throw=True)
    def projeval(k, mask=mask):
        X, M, t = los(k)
        s = k.real('s', ('range', 0.3, 0.7))
        losrange(k, s)
        o = k.call('d_projeval', X, M, t, s, mask, k.out(10))
        ref = losref(k, X, M, o[6], t, mask)
        k.ensure_eq('number of outputs', o[8], lift(len(ref)))
        k.ensure_eq('number of variables', o[9], ONE)
        for i, (nm, v) in enumerate(ref):
            k.ensure_eq(nm, o[i], v * o[7])


ND = {}


def c_nd(sx, av):
    """math::integrateNdim: the integral of each component over the given box (a linear functional, represented by its kernel at one point)"""
    f, lo, hi, eps, nmax, res = av[:6]
    ND['box'] = (rd(sx, lo, 0), rd(sx, hi, 0))
    x = sx.newptr('ndx', 8)
    sx.store(x, ND['s'], 8)
    sx.call(sx.prog.find(None, '@d_ndval'), [f, x, res])
    return None


NDC = {'math::integrateNdim(math::IFunctionNdim const&, double const*, double const*, double, unsigned int, double*, double*, int*)': c_nd}


@contract('C12', 'projected density: the integral of density along the line of sight', callees=NDC)
def projint(k):
    if k.native:
        k.ensure('symbolic only', TRUE)
        return
    X, M, t = los(k)
    s = k.real('s', ('range', 0.3, 0.7))
    losrange(k, s)
    ND['s'] = s
    r = k.call('d_projdensint', 0, X, M, t)
    u = k.call('d_unscale2', X, s)
    Z = u[0] if isinstance(u, (list, tuple)) else u
    r = r[0] if isinstance(r, (list, tuple)) else r
    k.ensure_eq('integrand', r, uf('F1_4', fromrot(M, X + [Z]) + [t]) * k.D(Z, s))
    k.ensure_eq('lower limit', ND['box'][0], ZERO)
    k.ensure_eq('upper limit', ND['box'][1], ONE)


for mask in range(1, 8):
    @contract('C12', 'projected potential and its derivatives: each output is the integral of its own quantity, outputs %d' % mask, callees=NDC, may_throw=True)
    def projevalint(k, mask=mask):
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        X, M, t = los(k)
        s = k.real('s', ('range', 0.3, 0.7))
        losrange(k, s)
        ND['s'] = s
        v, o = k.call('d_projevalint', mask, X, M, t, k.out(1), k.out(9))
        u = k.call('d_unscale2', X, s)
        Z = u[0] if isinstance(u, (list, tuple)) else u
        J = k.D(Z, s)
        ref = dict(losref(k, X, M, Z, t, mask))
        if mask & 1:
            k.ensure_eq('potential', v[0], ref['potential'] * J)
        if mask & 2:
            for i, n in enumerate(('d/dX', 'd/dY')):
                k.ensure_eq(n, o[i], ref[n] * J)
            k.ensure_eq('d/dZ', o[2], ZERO)
        if mask & 4:
            for i, n in enumerate(('d2/dX2', 'd2/dY2', None, 'd2/dXdY')):
                k.ensure_eq(n or 'd2/dZ2', o[3 + i], ref[n] * J if n else ZERO)
            k.ensure_eq('d2/dYdZ', o[7], ZERO)
            k.ensure_eq('d2/dXdZ', o[8], ZERO)
        k.ensure_eq('lower limit', ND['box'][0], ZERO)
        k.ensure_eq('upper limit', ND['box'][1], ONE)


for sym in (0, 1):
    @contract('C12', 'inertia tensor integrand: sum over %s' % ('one octant of a triaxial model' if sym else 'all eight octants'))
    def inertia(k, sym=sym):
        a, M = [k.real('a%d' % i, 'mod') for i in range(3)], k.reals(' '.join('m%d' % i for i in range(9)))
        s = [k.real('s0', ('range', 0.35, 0.65)), k.real('s1', ('range', 0.1, 0.9)), k.real('s2', ('range', 0.02, 0.24))]
        o, p = k.call('d_inertia', a, M, s, 7 if sym else 0, k.out(8), k.out(4))
        n = 3 if sym else 6
        k.ensure_eq('number of outputs', o[6], lift(n))
        k.ensure_eq('number of variables', o[7], lift(3))
        pr = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
        sums = [ZERO] * 6
        for b in range(1 if sym else 8):
            x = fromrot(M, [p[i] * a[i] * q(-1 if b >> i & 1 else 1) for i in range(3)])
            rho = uf('F1_4', x + [ZERO])
            for j, (u, v) in enumerate(pr):
                sums[j] = sums[j] + rho * x[u] * x[v] * p[3]
        for j in range(n):
            k.ensure_eq('component %d%d' % pr[j], o[j], sums[j])


@contract('C12', 'potential along the line of sight and the roots of Phi=E', callees=ROOT)
def losroots(k):
    X, M, t = los(k)
    s, E = k.real('s', ('range', 0.3, 0.7)), k.real('E')
    losrange(k, s)
    o = k.call('d_potfinder', 0, E, X, M, s, k.out(3))
    k.ensure_eq('potential minus energy', o[0], uf('F1_4', fromrot(M, X + [o[1]]) + [ZERO]) - E)


def c_findmin(sx, av):
    """math::findMin(f, x1, x2, xinit, tol): a point named by the contract"""
    ROOTS['min'].append([nz(x) for x in av[1:4]])
    return ROOTS['m']


@contract('C12', 'minimum of the potential and the roots of Phi=E along the line of sight', callees=dict(ROOT, **{'math::findMin(math::IFunction const&, double, double, double, double)': c_findmin}))
def losmin(k):
    if k.native:
        k.ensure('symbolic only', TRUE)
        return
    X, M, t = los(k)
    E, s, s1, s2 = k.real('E'), k.real('s', ('range', 0.3, 0.7)), k.real('s1', ('range', 0.1, 0.2)), k.real('s2', ('range', 0.8, 0.9))
    for x in (s, s1, s2):
        losrange(k, x)
    roots(k, s1, s2)
    ROOTS.update(min=[], m=s)
    o = k.call('d_potfinder', 1, E, X, M, s, k.out(3))
    uns = lambda x: k.call('d_unscale2', X, x)
    V = lambda x: uf('F1_4', fromrot(M, X + [uns(x)]) + [ZERO]) - E
    k.ensure('one minimum is sought', TRUE if len(ROOTS['min']) == 1 else FALSE)
    k.ensure('on the entire line', and_(eq(ROOTS['min'][0][0], ZERO), eq(ROOTS['min'][0][1], ONE)))
    k.ensure_eq('position of the minimum', o[0], uns(s))
    if k.decide(lt(ZERO, V(s))):
        k.ensure('no roots if the energy is below the minimum', TRUE if o[1] is T.NAN and o[2] is T.NAN else FALSE)
        return
    k.ensure('two roots', TRUE if len(ROOTS['v']) == 2 else FALSE)
    for i, (x, v, lo, hi) in enumerate(ROOTS['v']):
        k.ensure_eq('root %d' % i, o[1 + i], uns(x))
        k.ensure_eq('function at the root %d' % i, v, V(x))
        k.ensure_eq('left end of the interval %d' % i, lo, [ZERO, s][i])
        k.ensure_eq('right end of the interval %d' % i, hi, [s, ONE][i])


# ---- construction of interpolators: the data passed to splines
def drvcall(name, nargs=None):
    """a routine of the driver called in place of the one of the library"""
    return lambda sx, av: sx.call(sx.prog.find(None, '@' + name), [nz(a) for a in (av[:nargs] if nargs is not None else av)])


VD = 'std::vector<double, std::allocator<double> > const&'
CTOR = dict(SPL, **{
    'math::createInterpolationGrid(math::IFunction const&, double)': drvcall('d_grid', 1),
    'math::QuinticSpline::QuinticSpline(%s, %s, %s)' % (VD, VD, VD): drvcall('d_quintic'),
    'math::CubicSpline::CubicSpline(%s, %s, bool, double, double)' % (VD, VD): drvcall('d_cubic')})


def orbitdata(k, lr):
    """circular orbits at the nodes: functions of radius"""
    x = var('%R')
    f = chain(k, F4(x), x, 2)
    iP = ONE / uf('F1_4', [ZERO] * 4)
    sc = lambda e: log(iP - ONE / e)
    Ec = f[0] + HALF * x * f[1]
    lL = log(x * sqrt(x * f[1]))
    return x, f, iP, sc, Ec, lL


for n in (2, 3):
    @contract('C12', 'construction of the potential interpolator, %d nodes' % n, callees=CTOR, maxpaths=2000, budget=400, weight=100)
    def ipctor(k, n=n):
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        lr = k.reals(' '.join('lr%d' % i for i in range(n)))
        for i in range(n - 1):
            k.require(lt(lr[i], lr[i + 1]))
        x, f, iP, sc, Ec, lL = orbitdata(k, lr)
        nodes = []
        P0 = uf('F1_4', [ZERO] * 4)
        k.require(lt(P0, ZERO))
        for i in range(n):
            at = lambda t, i=i: subst(t, {x: exp(lr[i])})
            k.require(and_(lt(P0 * q(Fraction(1) - Fraction(1, 10**10)), at(f[0])), lt(at(f[0]), ZERO), lt(ZERO, at(f[1])), lt(at(Ec), ZERO), lt(ZERO, at(f[2] + q(3) * f[1] / x))))
            nodes.append(at)
        o = list(k.call('d_ipctor', lr, n, k.out(80)))
        k.ensure_eq('inverse central potential', o[0], iP)
        m = o[4].args[0] if o[4].op == 'q' else None
        k.ensure('all nodes are used', TRUE if m == n else FALSE)
        if m != n:
            return
        sl, M, C = o[1:4]
        o = o[5:]
        sec = lambda j: o[j * (3 * n + 1):(j + 1) * (3 * n + 1)]
        dl = lambda t: x * k.D(t, x)
        dE, dPhi, dL = dl(sc(Ec)), dl(sc(f[0])), dl(lL)
        lx = log(x)
        for j, (nm, a, b, d) in enumerate([('L_circ(E)', sc(Ec), lL, dL / dE), ('R_circ(L)', lL, lx, ONE / dL), ('Phi(R)', lx, sc(f[0]), dPhi), ('R_max(Phi)', sc(f[0]), lx, ONE / dPhi)]):
            s = sec(j)
            for i in range(n):
                k.ensure_eq('%s: argument at the node %d' % (nm, i), s[i], nodes[i](a))
                k.ensure_eq('%s: value at the node %d' % (nm, i), s[n + i], nodes[i](b))
                k.ensure_eq('%s: derivative at the node %d' % (nm, i), s[2 * n + i], nodes[i](d))
        fn_ = o[4 * (3 * n + 1):]
        end = [nodes[n - 1](t) for t in f]
        for i in range(n):
            k.ensure_eq('vertical frequency: argument at the node %d' % i, fn_[i], lr[i])
            k.ensure_eq('vertical frequency: (nu/Omega)^2 at the node %d' % i, fn_[n + i], uf('F1_4', [exp(lr[i]), ZERO, ZERO, ZERO], (0, 2, 0, 0)) * exp(lr[i]) / nodes[i](f[1]))
        for i in range(2):
            k.ensure_eq('vertical frequency: ratio levels off at the %s end' % ['left', 'right'][i], fn_[2 * n + i], ZERO)
        R = exp(lr[-1])
        Phi, d1, d2 = end
        if k.decide(eq(C, ZERO)):
            k.ensure_eq('point-mass law outside: slope', sl, -ONE)
            k.ensure_eq('point-mass law outside: value at the last node', -M / R, Phi)
        else:
            law = phiout([iP, sl, M, C], var('%R'))
            g = chain(k, law, var('%R'), 2)
            at = lambda t: subst(t, {var('%R'): R})
            k.ensure('slope is negative', lt(sl, ZERO))
            k.ensure_eq('outer law: value at the last node', at(g[0]), Phi)
            k.ensure_eq('outer law: derivative at the last node', at(g[1]), d1)
            s0 = (q(2) * d1 + d2 * R) / (d1 - (-Phi) / R)
            if sl == -ONE:
                k.ensure('logarithmic law is used for a slope close to -1', lt(absx(s0 + ONE), q(Fraction(1, 10**10))))
            else:
                k.ensure_eq('outer law: slope', sl, s0)
                # the second derivative is expressed through the slope, and the slope is denoted by a variable
                sv = var('%s')
                g2 = subst(g[2], {sl: sv})
                d2s = (sv * (d1 + Phi / R) - q(2) * d1) / R
                k.ensure_eq('outer law: second derivative at the last node', at(g2), d2s)


# ---- interpolator of peri- and apocentre radii
EXTS = {}


def c_extent(sx, av):
    """potential::findPlanarOrbitExtent(pot, E, L, R1, R2): roots of E - Phi(R) - L^2 / (2 R^2) (proved above)"""
    k, E, L = EXTS['k'], nz(av[1]), nz(av[2])
    n = len(EXTS['n'])
    r = [k.real('r1_%d' % n, 'mod'), k.real('r2_%d' % n, 'mod')]
    EXTS['n'].append((E, L, r))
    for p, x in zip(av[3:], r):
        EXTS['phi'][x] = E - HALF * (L / x) ** 2
        wr(sx, p, x)
    return None


def c_rmax(sx, av):
    """potential::R_max(pot, E): root of E - Phi(R) (proved above)"""
    k, E = EXTS['k'], nz(av[1])
    r = k.real('rmax%d' % len(EXTS['m']), 'mod')
    EXTS['m'].append((E, r))
    EXTS['phi'][r] = E
    return r


def c_f(sx, av):
    """abstract potential that takes the right values at the roots"""
    from agv.callees import c_agv_f
    v = c_agv_f(sx, av)
    x = rd(sx, av[3], 0)
    if x in EXTS['phi'] and all(sx.coerce(sx._load(av[2].r, add(av[2].o, ic(4 * i)), 4, ir.I32), ir.I32).args[0] == 0 for i in range(4)):
        return EXTS['phi'][x]
    return v


from agv import ir
CTOR2 = dict(CTOR, **{
    'agv_f': c_f,
    'potential::Interpolator::Interpolator(potential::BasePotential const&)': lambda sx, av: None,       # the one-dimensional interpolators are not used by the constructor
    'potential::findPlanarOrbitExtent(potential::BasePotential const&, double, double, double&, double&)': c_extent,
    'potential::R_max(potential::BasePotential const&, double)': c_rmax,
    'math::QuinticSpline2d::QuinticSpline2d(%s, %s, math::IMatrixDense<double> const&, math::IMatrixDense<double> const&, math::IMatrixDense<double> const&, math::IMatrixDense<double> const&)' % (VD, VD): drvcall('d_quintic2d', 6)})


@contract('C12', 'construction of the interpolator of peri- and apocentre radii', callees=CTOR2, maxpaths=2000, budget=400, weight=50, maxvisits=200)
def ip2dctor(k):
    if k.native:
        k.ensure('symbolic only', TRUE)
        return
    EXTS.clear()
    EXTS.update(k=k, n=[], m=[], phi={})
    lr = k.reals('lr0 lr1')
    k.require(lt(lr[0], lr[1]))
    x, f, iP, sc, Ec, lL = orbitdata(k, lr)
    P0 = uf('F1_4', [ZERO] * 4)
    k.require(lt(P0, ZERO))
    nodes = []
    for i in range(2):
        at = lambda t, i=i: subst(t, {x: exp(lr[i])})
        k.require(and_(lt(P0 * q(Fraction(1) - Fraction(1, 10**10)), at(f[0])), lt(at(f[0]), ZERO), lt(ZERO, at(f[1])), lt(at(Ec), ZERO), lt(ZERO, at(f[2] + q(3) * f[1] / x))))
        nodes.append(at)
    o = list(k.call('d_ip2dctor', lr, k.out(2 * 31)))
    ne = len(EXTS['n']) // 2
    for b in range(2):
        s = o[31 * b:31 * (b + 1)]
        N, X, Y, W = int(s[0].args[0]), s[1:3], s[3:7], s[7:]
        nm0 = ['pericentre', 'apocentre'][b]
        k.ensure(nm0 + ': number of radii computed', TRUE if ne == N - 2 else FALSE)
        k.ensure(nm0 + ': angular momenta', and_(eq(Y[0], ZERO), lt(Y[0], Y[1]), lt(Y[1], Y[2]), lt(Y[2], Y[3]), eq(Y[3], ONE)))
        for i in range(2):
            at = nodes[i]
            k.ensure_eq(nm0 + ': scaled energy', X[i], at(sc(Ec)))
            Rc, Lc = exp(lr[i]), at(x * sqrt(x * f[1]))
            dRcdE, dLdE = ONE / at(k.D(Ec, x)), Rc ** 2 / Lc
            dEdX = ONE / subst(k.D(sc(var('%E')), var('%E')), {var('%E'): at(Ec)})
            for j in range(4):
                nm = '%s, node %d of energy, %d of angular momentum: ' % (nm0, i, j)
                w, dx, dy = W[3 * (4 * i + j):3 * (4 * i + j) + 3]
                if j == 3:
                    r = [ZERO, ZERO, -q(2) * at(f[1] / (q(3) * f[1] + x * f[2]))]
                elif j == 0 and b == 0:
                    r = [ONE, q(2) / Rc * dRcdE * dEdX * ZERO, -q(2) / Rc * Lc / sqrt(q(2) * (at(Ec) - P0))]
                else:
                    if j == 0:
                        E, R = EXTS['m'][i]
                        L = ZERO
                    else:
                        E, L, R = EXTS['n'][i * (N - 2) + [1, 1, N // 2][j] - 1]
                        R = R[b]
                        k.ensure_eq(nm + 'angular momentum', L, Y[j] * Lc)
                    k.ensure_eq(nm + 'energy', E, at(Ec))
                    d1 = uf('F1_4', [R, ZERO, ZERO, ZERO], (1, 0, 0, 0))
                    den = d1 - L ** 2 / R ** 3
                    k.require(not_(eq(den, ZERO)))
                    dRdE = (ONE - Y[j] ** 2 * Lc * dLdE / R ** 2) / den
                    dRdY = -L * Lc / R ** 2 / den
                    r = [(R / Rc - ONE) ** 2, q(2) * (R / Rc - ONE) * (dRdE / Rc - R / Rc ** 2 * dRcdE) * dEdX, q(2) * (R / Rc - ONE) * dRdY / Rc]
                k.ensure_eq(nm + 'value', w, r[0])
                k.ensure_eq(nm + 'derivative by scaled energy', dx, r[1])
                k.ensure_eq(nm + 'derivative by relative angular momentum', dy, r[2])


def c_spline2d(sx, av):
    """the interpolated scaled radii: squares of relative deviations from the radius of a circular orbit, named by the contract"""
    b = splid(sx, av[0]) - 7
    EXTS['arg'].append((b, nz(av[1]), nz(av[2])))
    wr(sx, av[3], EXTS['w'][b] ** 2)
    return None


def c_refined(sx, av):
    """refineRoot(pot, R, E, L) (proved above): an improved radius"""
    EXTS['ref'].append([nz(x) for x in av[1:]])
    return EXTS['out'][len(EXTS['ref']) - 1]


@contract('C12', 'interpolated peri- and apocentre radii', callees=dict(EXT, **{
    'math::QuinticSpline2d::evalDeriv(double, double, double*, double*, double*, double*, double*, double*) const': c_spline2d,
    'potential::(anonymous namespace)::refineRoot(math::IFunction const&, double, double, double)': c_refined}))
def ip2d(k):
    if k.native:
        k.ensure('symbolic only', TRUE)
        return
    iP, E, L = k.real('invPhi0', hi=0, strict=False), k.real('E', hi=0, strict=True), k.real('L')
    lL, lR, lo, hi = k.reals('logLc logRc xlo xhi')
    Lc, Rc = exp(lL), exp(lR)
    FIX.clear()
    FIX.update({0: [lL, ZERO, ZERO], 1: [lR, ZERO, ZERO]})
    k.require(eq(log(Lc), lL))
    r1, r2, f1, f2 = k.real('r1', 'mod'), k.real('r2', 'mod'), k.real('f1', 'mod'), k.real('f2', 'mod')
    k.require(lt(lo, hi))
    k.require(lt(ZERO, iP - ONE / E))
    k.require(le(r1, Rc))
    k.require(le(Rc, r2))
    EXTS.clear()
    s = log(iP - ONE / E)
    k.require(le(ONE / iP, E))
    k.require(le(s, hi))        # the energy and angular momentum of a circular orbit are within the grid
    k.require(le(lL, hi))
    EXTS.update(arg=[], ref=[], w=[ONE - r1 / Rc, r2 / Rc - ONE], out=[f1, f2])
    try:
        o = k.call('d_ip2d', iP, lo, hi, E, L, k.out(2))
    finally:
        FIX.clear()
    k.ensure('number of calls', TRUE if sorted(a[0] for a in EXTS['arg']) == [0, 1] and len(EXTS['ref']) == 2 else FALSE)
    for b, x, y in EXTS['arg']:
        k.ensure('scaled energy within the grid', and_(le(lo, x), le(x, hi)))
        k.ensure_eq('scaled energy or a limit of the grid', (x - s) * (x - lo) * (x - hi), ZERO)
        k.ensure('relative angular momentum within the grid', and_(le(ZERO, y), le(y, ONE)))
        k.ensure_eq('relative angular momentum or one', (y - absx(L) / Lc) * (y - ONE), ZERO)
    for i, r in enumerate(EXTS['ref']):
        k.ensure_eq('%s passed to polishing' % ['pericentre', 'apocentre'][i], r[0], [r1, r2][i])
        k.ensure_eq('energy', r[1], E)
        k.ensure_eq('angular momentum', r[2], L)
    k.ensure_eq('pericentre: refined or circular', (o[0] - f1) * (o[0] - Rc), ZERO)
    k.ensure_eq('apocentre: refined or circular', (o[1] - f2) * (o[1] - Rc), ZERO)
    k.ensure('order', and_(le(o[0], Rc), le(Rc, o[1])))


# ---- construction of the phase volume
def c_mono(sx, av):
    """abstract potential, smaller at any radius used by the quadrature than at the outer end of its segment"""
    from agv.callees import c_agv_f
    v = c_agv_f(sx, av)
    x = rd(sx, av[3], 0)
    if x not in EXTS['nodes'] and x is not ZERO:
        n = EXTS['n']
        EXTS['n'] += 1
        for l in EXTS['nodes'][1:] if n >= 10 else EXTS['nodes']:       # ten points on the first segment
            sx.assume(lt(v, uf('F1_1', [l])))
    return v


for ratio in (1, 0):
    @contract('C12', 'construction of the phase volume, %s segment' % ['long', 'short'][ratio], callees=dict(CTOR, agv_f=c_mono), maxpaths=2000, budget=300, weight=50)
    def pvctor(k, ratio=ratio):
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        lr = k.real('lr0', ('range', -1, 1)), k.real('lr1', ('range', 1, 2))
        k.require(lt(exp(lr[0]), exp(lr[1])))
        (k.require(lt(exp(lr[1]), q(2) * exp(lr[0]))) if ratio else k.require(le(q(2) * exp(lr[0]), exp(lr[1]))))
        P0 = uf('F1_1', [ZERO])
        k.require(lt(P0, ZERO))
        P = [uf('F1_1', [exp(l)]) for l in lr]
        k.require(lt(P0 * q(Fraction(1) - Fraction(1, 10**10)), P[0]))
        k.require(lt(P[0] * q(Fraction(1) - Fraction(1, 10**10)), P[1]))
        k.require(lt(P[1], ZERO))
        EXTS.clear()
        EXTS.update(nodes=[exp(l) for l in lr], n=0)
        o = list(k.call('d_pvctor', lr, 2, k.out(30)))
        k.ensure_eq('inverse central potential', o[0], ONE / P0)
        k.ensure_eq('all nodes are used', o[1], q(2))
        H, E = o[2:9], o[9:16]
        for i in range(2):
            k.ensure_eq('scaled energy at the node %d' % i, exp(H[i]), ONE / P0 - ONE / P[i])
            k.ensure_eq('inverse function: argument at the node %d' % i, E[i], H[2 + i])
            k.ensure_eq('inverse function: value at the node %d' % i, E[2 + i], H[i])
            k.ensure_eq('inverse function: derivative at the node %d' % i, E[4 + i] * H[4 + i], ONE)
            e = var('%e')
            hs, gs = subst(H[2 + i], {P[i]: e}), subst(H[4 + i], {P[i]: e})
            k.ensure_eq('derivative of phase volume by scaled energy at the node %d' % i, gs * k.D(log(ONE / P0 - ONE / e), e), k.D(hs, e))
            # velocity equal to unity, or to the radius: the integral is computed exactly
            for rs in ((1.0, 1.5), (0.5, 0.9)) if ratio else ((1.0, 2.5), (0.3, 1.1)):
                for pw in (0, 1):
                    from agv.terms import evalf
                    import mpmath
                    r = rs[i]
                    pot = lambda deriv, a, r=r, pw=pw: mpmath.mpf(-1) if abs(a[0] - r) < 1e-9 else -1 - a[0] ** (2 * pw)
                    v = evalf(H[2 + i], {'lr0': mpmath.log(rs[0]), 'lr1': mpmath.log(rs[1])}, ufm=lambda nm, d, a, pot=pot: pot(d, a))
                    ref = 16 * mpmath.pi ** 2 / 3 * 2 * mpmath.sqrt(2) * mpmath.mpf(r) ** (3 + 3 * pw) / (3 + 3 * pw)
                    k.ensure('integral over radius at the node %d for velocity r^%d, radii %g, %g' % ((i, pw) + rs), TRUE if abs(v - mpmath.log(ref)) < 1e-9 else FALSE)
