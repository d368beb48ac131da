"""C15: integrals of motion, actions and angles of Staeckel potentials."""
from agv.engine import contract
from agv.terms import *
from agv import terms as T
from agv.symex import Ptr, nz
from agv.callees import rd
import random
import mpmath

TUS = ['coord.cpp', 'math_core.cpp', 'math_specfunc.cpp', 'potential_perfect_ellipsoid.cpp', 'potential_base.cpp', 'utils.cpp',
       'actions_focal_distance_finder.cpp', 'potential_utils.cpp', 'math_spline.cpp', 'math_linalg.cpp', 'math_fit.cpp', 'potential_analytic.cpp', 'cubature.cpp', 'utils_config.cpp',
       'math_random.cpp', 'math_geometry.cpp', 'math_sample.cpp', 'orbit.cpp', 'math_ode.cpp']
DRV = ['drv_staeckel.cpp']
HALF = q(Fraction(1, 2))
F = lambda x, d=0: uf('F5_1', [x], (d,))
G = lambda x, d=0: uf('F6_1', [x], (d,))


def wr(sx, p, t, i=0):
    if p.r is not None:
        sx.store(Ptr(p.r, add(p.o, ic(8 * i))), t, 8)


PT = {}


def c_prol(sx, av):
    """conversion from cylindrical to prolate spheroidal coordinates at the given point (proved under C01, C02)"""
    res, src = av[:2]
    d1, d2 = av[2:4] if len(av) == 5 else (None, None)
    R, z = rd(sx, src, 0), rd(sx, src, 1)
    if R is not PT['R'] or z is not PT['z']:
        raise Exception('conversion of another point')
    D, la, an, sg = PT['D'], PT['la'], PT['nu'], PT['sg']
    for i, t in enumerate((la, an * sg, rd(sx, src, 2), D)):
        wr(sx, res, t, i)
    if d1 and d1.r is not None:
        for i, t in enumerate((TWO * R * la, TWO * z * (la - D), -TWO * R * an * sg, TWO * z * (D - an) * sg)):
            wr(sx, d1, t / (la - an), i)
    if d2 and d2.r is not None:
        raise Exception('second derivatives')
    return None


def c_G(sx, av):
    for d, p in enumerate(av[2:5]):
        wr(sx, p, G(nz(av[1]), d))
    return None


CONV = {'coord::PosT<coord::ProlSph> coord::toPos<coord::Cyl, coord::ProlSph>(coord::PosT<coord::Cyl> const&, coord::ProlSph)': c_prol,
        'coord::PosT<coord::ProlSph> coord::toPosDeriv<coord::Cyl, coord::ProlSph>(coord::PosT<coord::Cyl> const&, coord::PosDerivT<coord::Cyl, coord::ProlSph>*, coord::PosDeriv2T<coord::Cyl, coord::ProlSph>*, coord::ProlSph)': c_prol}
CG = {'potential::OblatePerfectEllipsoid::evalDeriv(double, double*, double*, double*) const': c_G}


def state(k, sg):
    """phase-space point given by prolate spheroidal coordinates and their rates of change"""
    b, a = k.real('b', 'mod', lo=0, strict=True), k.real('a', 'mod', lo=0, strict=True)
    k.require(lt(b, a))
    e = sqrt(a * a - b * b)
    D = e * e
    l1 = k.real('l1', 'mod', lo=0, strict=True)
    n1 = k.real('n1', ('range', 0.1, 0.9), lo=0, strict=True)
    k.require(lt(n1, ONE))
    la, an = D + l1, D * n1
    ld, nd = k.real('ldot', ('range', -0.3, 0.3)), k.real('nudot', ('range', -0.1, 0.1))
    phi, vp = k.real('phi', 'angle'), k.real('vphi', ('range', -0.3, 0.3))
    k.require(not_(eq(vp, ZERO)))
    M = k.real('M', 'mod', lo=0, strict=True)
    k.require(lt(la, q(10**20)))
    k.require(lt(an, q(10**20)))
    return M, b, a, e, D, la, an, ld, nd, phi, vp


def cyl(k, st, sg):
    M, b, a, e, D, la, an, ld, nd, phi, vp = st
    R, z = sqrt((la - D) * (ONE - an / D)), sqrt(la * an / D) * lift(sg)
    vR = R * HALF * (ld / (la - D) + nd / (an - D))
    vz = z * HALF * (ld / la + nd / an)
    if not k.native:
        PT.update(R=R, z=z, D=D, la=la, nu=an, sg=lift(sg))
    return [R, z, phi, vR, vz, vp]


for sg in (1, -1):
    for kind in (0, 1):
        @contract('C15', 'integrals of motion, %s, z %s 0' % (('perfect ellipsoid', 'Staeckel approximation')[kind], '<=>'[sg + 1]), callees=dict(CONV, **CG))
        def integ(k, sg=sg, kind=kind):
            st = state(k, sg)
            M, b, a, e, D, la, an, ld, nd, phi, vp = st
            x = cyl(k, st, sg)
            o = k.call('d_int', kind, [M, a, b] if kind == 0 else [M, e], x, k.out(11))
            if kind == 0:
                p = k.call('d_pe', [M, a, b], x[:3], k.out(2))
                Gl, Gn = [(k.call('d_G', [M, a, b], t, 1, k.out(3))[0] if k.native else G(t)) for t in (la, an)]
                k.ensure_eq('focal distance of the coordinate system', p[1], D)
                Phi = p[0]
                k.ensure_eq('potential is of the Staeckel form', Phi, (an * Gn - la * Gl) / (la - an))
            else:
                Phi = uf('F1_4', [x[0], x[1] * lift(sg), phi, ZERO])
            R = x[0]
            E, Lz = Phi + HALF * (x[3]**2 + x[4]**2 + vp * vp), R * vp
            k.ensure_eq('energy', o[0], E)
            k.ensure_eq('z-component of angular momentum', o[1], Lz)
            for nm, u, v in (('lambda', o[3], la), ('nu', o[4], an * lift(sg)), ('rate of lambda', o[5], ld), ('rate of nu', o[6], nd * lift(sg))):
                k.ensure_close(nm, u, v, 1e-9, ONE) if k.native else k.ensure_eq(nm, u, v)
            pl, pn = ld * (la - an) / (lift(4) * (la - D) * la), nd * (an - la) / (lift(4) * (an - D) * an)
            # separated equations of motion
            if not k.native and o[2] is ZERO:
                # I3 is clipped at zero: the condition of this path compares the same quantity with zero
                I3 = la * (E - Lz * Lz * HALF / (la - D) + Gl) - TWO * pl * pl * (la - D) * la
                clipped(k, 'third integral', I3)
                return
            if kind == 0 and not k.native:
                k.ensure_eq('third integral', o[2], la * (E - Lz * Lz * HALF / (la - D) + Gl) - TWO * pl * pl * (la - D) * la)
            k.ensure_close('momentum in lambda', o[7], TWO * (la - D)**2 * la * pl * pl, 1e-8, ONE + D * D) if k.native else k.ensure_eq('momentum in lambda', o[7], TWO * (la - D)**2 * la * pl * pl)
            k.ensure_close('momentum in nu', o[8], TWO * (an - D)**2 * an * pn * pn, 1e-8, ONE + D * D) if k.native else k.ensure_eq('momentum in nu', o[8], TWO * (an - D)**2 * an * pn * pn)


def clipped(k, nm, ref):
    """the value is replaced by zero: one of the conditions of this path compares the same quantity with zero"""
    rnd = random.Random(7)
    st, c = [y for l in k.sx.pc for y in alltests(l)], []
    es = []
    while len(es) < 3:
        es.append({v: mpmath.mpf(rnd.uniform(0.3, 0.9)) for t in st + [ref] for v in variables(t)})
        es[-1].update({v: x + 1 for v, x in es[-1].items() if v.args[0] == 'a'})
    ms = [{} for e in es]

    def ev(t, e, m):
        try:
            return T.evalf(t, e, 40, None, m)
        except Exception:
            return mpmath.nan
    w = [ev(ref, e, m) for e, m in zip(es, ms)]
    for t in st:
        if all(abs(ev(t, e, m) - y) < 1e-22 * (1 + abs(y)) for e, m, y in zip(es, ms, w)):
            k.ensure_eq(nm + ' (clipped)', t, ref)
            return
    k.ensure(nm + ' is zero although it is not clipped', FALSE)


def alltests(t):
    if t.op in ('<', '<=', '=='):
        return [y for y in kids(t) if getattr(y, 'sort', None) == 'R' and y is not ZERO]
    return [y for s in kids(t) for y in alltests(s)]


@contract('C15', 'third integral in the equatorial plane', callees=CG)
def plane(k):
    M, b, a = [k.real(n, 'mod', lo=0, strict=True) for n in 'M b a'.split()]
    k.require(lt(b, a))
    e = sqrt(a * a - b * b)
    R, phi = k.real('R', 'mod', lo=0, strict=True), k.real('phi', 'angle')
    k.require(lt(R * R + e * e, q(10**20)))
    k.require(lt(R * R + (a * a - b * b), q(10**20)))
    v = [k.real(n, ('range', -0.3, 0.3)) for n in ('vR', 'vz', 'vphi')]
    o = k.call('d_int', 0, [M, a, b], [R, ZERO, phi] + v, k.out(11))
    la = R * R + e * e
    k.ensure_eq('third integral', o[2], HALF * v[1]**2 * la)
    Gl = k.call('d_G', [M, a, b], la, 1, k.out(3))[0]
    ce = (lambda n, u, v: k.ensure_close(n, u, v, 1e-9, ONE + la * M)) if k.native else k.ensure_eq
    ce('lambda', o[3], la)
    ce('limit of the general expression', o[2], la * (o[0] - v[2]**2 * HALF + Gl) - la * v[0]**2 * HALF)
    k.ensure_eq('nu', o[4], ZERO)


@contract('C15', 'Staeckel approximation is exact in a Staeckel potential')
def exact(k):
    st = state(k, 1)
    if k.native:
        k.ensure('symbolic only', TRUE)
        return
    M, b, a, e, D, la, an, ld, nd, phi, vp = st
    tau = k.real('tau', 'mod', lo=0, strict=True)
    # the integrals as proved above
    E, Lz, I3 = k.reals('E Lz I3')
    Phi, Phi0 = (an * G(an) - la * G(la)) / (la - an), -G(la)
    Phit = lambda l, n: (n * G(n) - l * G(l)) / (l - n)
    fs = lambda t: k.call('d_fst', [e, la, an, phi, ld, nd, vp], [E, Lz, I3], t, 1, k.out(3))[0]
    fl = -la * Phi0
    fn_ = fl + Phi * (la - an)
    # F of the approximation for both branches, with Phi of the Staeckel form
    lam = (E * tau - (I3 - fn_) - Phit(tau, an) * (tau - an)) * (tau - D) - Lz * Lz * HALF * tau
    nu = (E * tau - (I3 - fl) - Phit(la, tau) * (tau - la)) * (tau - D) - Lz * Lz * HALF * tau
    k.ensure_eq('lambda branch', lam, fs(tau))
    k.ensure_eq('nu branch', nu, fs(tau))


@contract('C15', 'auxiliary function of the Staeckel potential')
def fst(k):
    e, la, nu = [k.real(n, 'mod', lo=0, strict=True) for n in ('foc', 'la', 'nu')]
    I = k.reals('E Lz I3')
    t = k.real('tau', 'mod', lo=0)
    D = e * e
    for mask in range(1, 8):
        o = k.call('d_fst', [e, la, nu, ZERO, ZERO, ZERO, ZERO], I, t, mask, k.out(3))
        v = ((I[0] + G(t)) * t - I[2]) * (t - D) - I[1]**2 * HALF * t
        for d in range(3):
            if mask >> d & 1:
                k.ensure_eq('derivative %d, outputs %d' % (d, mask), o[d], (v, k.D(v, t), k.D(k.D(v, t), t))[d])


for br in ('lambda', 'nu'):
    @contract('C15', 'auxiliary function of the approximation, %s branch' % br)
    def ffu(k, br=br):
        e, l1 = [k.real(n, 'mod', lo=0, strict=True) for n in ('foc', 'l1')]
        n1 = k.real('n1', ('range', 0.1, 0.9), lo=0, strict=True)
        k.require(lt(n1, ONE))
        D = e * e
        la, nu = D + l1, D * n1
        phi = k.real('phi', 'angle')
        I = k.reals('E Lz I3 flambda fnu')
        s = k.real('tau1', 'mod', lo=0, strict=True) if br == 'lambda' else k.real('tau1', ('range', 0.1, 0.9), lo=0, strict=True)
        if br == 'nu':
            k.require(lt(s, ONE))
        t = D + s if br == 'lambda' else D * s
        dt = ONE if br == 'lambda' else D
        pl, pn = (t, nu) if br == 'lambda' else (la, t)
        c = k.call('d_cyl', [e, pl, pn, phi, ZERO, ZERO, ZERO], k.out(3))
        Phi = uf('F1_4', [c[0], c[1], phi, ZERO])
        v = (I[0] * t - (I[2] - (I[4] if br == 'lambda' else I[3])) - Phi * (t - (nu if br == 'lambda' else la))) * (t - D) - I[1]**2 * HALF * t
        d1 = k.D(v, s) / dt
        d2 = k.D(d1, s) / dt
        for mask in range(1, 8):
            for sg in (1, -1):
                o = k.call('d_ffu', [e, la, nu * lift(sg), phi, ZERO, ZERO, ZERO], I, t, mask, k.out(3))
                for d in range(3):
                    if mask >> d & 1:
                        k.ensure_eq('derivative %d, outputs %d, z %s 0' % (d, mask, '<=>'[sg + 1]), o[d], (v, d1, d2)[d])


@contract('C15', 'function for finding the root on a semi-infinite interval')
def frt(k):
    e, la, nu = [k.real(n, 'mod', lo=0, strict=True) for n in ('foc', 'la', 'nu')]
    I = k.reals('E Lz I3')
    t = k.real('tau', 'mod', lo=0, strict=True)
    k.require(lt(t, q(10**50)))
    for mask in (1, 2, 3):
        o = k.call('d_frt', [e, la, nu, ZERO, ZERO, ZERO, ZERO], I, t, mask, k.out(3))
        v = F(t) / t**2
        if mask & 1:
            k.ensure_eq('value, outputs %d' % mask, o[0], v)
        if mask & 2:
            k.ensure_eq('derivative, outputs %d' % mask, o[1], k.D(v, t))


for n in (1, -1):
    for a in (0, 1, 2):
        for c in (0, 1):
            @contract('C15', 'integrand for p^%d (tau-Delta^2)^-%d tau^-%d' % (n, a, c))
            def kern(k, n=n, a=a, c=c):
                e, la, nu, nm = [k.real(n_, 'mod', lo=0, strict=True) for n_ in ('foc', 'la', 'nu', 'numax')]
                I = k.reals('E Lz I3')
                t = k.real('tau', 'mod', lo=0, strict=True)
                D = e * e
                k.require(not_(eq(t, D)))
                k.require(not_(eq(F(t), ZERO)))
                k.require(not_(eq(F(nm, 1), ZERO)))
                k.require(not_(eq(t, nm)))
                o = k.call('d_kern', [e, la, nu, ZERO, ZERO, ZERO, ZERO], I, n, a, c, t, nm)
                o = o[0] if isinstance(o, (list, tuple)) else o
                if k.native:
                    r = abs_(F(t)) / (TWO * (t - D)**2 * t)
                    r = (sqrt(r) if n > 0 else ONE / sqrt(r)) / (t - D)**a
                    if a == 2:
                        s = TWO * nm / F(nm, 1) / (t - nm)
                        k.require(or_(le(D, t), le(ZERO, s)))
                        r = r + ite(lt(t, D), sqrt(abs_(s)) / (t - D), ZERO)
                    k.ensure_eq('value', o, ite(lt(F(t), ZERO), ZERO, r / t**c))
                    return
                if k.decide(lt(F(t), ZERO)):
                    k.ensure_eq('zero in the forbidden region', o, ZERO)
                    return
                p = sqrt(F(t) / (TWO * (t - D)**2 * t))
                r = (p if n > 0 else ONE / p) / (t - D)**a
                if a == 2 and k.decide(lt(t, D)):
                    s = TWO * nm / F(nm, 1) / (t - nm)
                    if k.decide(lt(s, ZERO)):
                        k.ensure('outside the range', TRUE)
                        return
                    r = r + sqrt(s) / (t - D)
                k.ensure_eq('value', o, r / t**c)


for a in (1, 2):
    for c in (0, 1):
        @contract('C15', 'integral over an infinitesimal interval, (tau-Delta^2)^-%d tau^-%d' % (a, c))
        def klim(k, a=a, c=c):
            e, la, nu, nm = [k.real(n_, 'mod', lo=0, strict=True) for n_ in ('foc', 'la', 'nu', 'numax')]
            I = k.reals('E Lz I3')
            t = e * e + k.real('dtau', 'mod', lo=0, strict=True)
            k.require(lt(F(t, 2), ZERO))
            o = k.call('d_kernlim', [e, la, nu, ZERO, ZERO, ZERO, ZERO], I, a, c, t, nm)
            o = o[0] if isinstance(o, (list, tuple)) else o
            # p^2 = F''/2 (tau-tau1) (tau-tau2) / (2 (tau-Delta^2)^2 tau), the integral of ((tau-tau1) (tau2-tau))^-1/2 is pi
            k.ensure_eq('integral of 1/p', o, T.PI * sqrt(TWO * t) * (t - e * e) / sqrt(-HALF * F(t, 2)) / (t - e * e)**a / t**c)


def setup(k):
    e, la, nu = [k.real(n, 'mod', lo=0, strict=True) for n in ('foc', 'la', 'nu')]
    phi = k.real('phi', 'angle')
    ld, nd = k.real('ldot', ('range', -0.3, 0.3)), k.real('nudot', ('range', -0.1, 0.1))
    I = k.reals('E Lz I3')
    D = e * e
    l0, l1 = D + k.real('lmin', 'mod', lo=0, strict=True), None
    l1 = l0 + k.real('lmax', 'mod', lo=0, strict=True)
    nm = D * k.real('nmax', ('range', 0.2, 0.9), lo=0, strict=True)
    k.require(lt(nm, D))
    return e, D, [e, la, nu, phi, ld, nd, ZERO], I, [l0, l1, ZERO, nm], nm


def momentum(D, t):
    """canonical momentum at the point t"""
    return sqrt(F(t) / (TWO * (t - D)**2 * t))


def allowed(k, D, *ts):
    for t in ts:
        k.require(lt(ZERO, F(t)))
        k.require(lt(ZERO, F(t) / (TWO * (t - D)**2 * t)))


def byint(D, I, t):
    """derivatives of the momentum by E, I3, Lz at the point t: those of F are given in the next contract"""
    p = momentum(D, t)
    return [d / (TWO * (t - D)**2 * t) / (TWO * p) for d in (t * (t - D), -(t - D), -I[1] * t)]


def singular(D, nm, t):
    return sqrt(TWO * nm / F(nm, 1) / (t - nm)) / (t - D)


@contract('C15', 'derivatives of the auxiliary functions by integrals of motion')
def dfi(k):
    e, l1 = [k.real(n, 'mod', lo=0, strict=True) for n in ('foc', 'l1')]
    n1 = k.real('n1', ('range', 0.1, 0.9), lo=0, strict=True)
    k.require(lt(n1, ONE))
    D = e * e
    I = k.reals('E Lz I3 flambda fnu')
    for br, t in (('lambda', D + k.real('tau1', 'mod', lo=0, strict=True)), ('nu', D * k.real('tau2', ('range', 0.1, 0.9), lo=0, strict=True))):
        if br == 'nu':
            k.require(lt(t, D))
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        for nm, f in (('d_fst', 'Staeckel potential'), ('d_ffu', 'approximation')):
            v = k.call(nm, [e, D + l1, D * n1, ZERO, ZERO, ZERO, ZERO], I, t, 1, k.out(3))[0]
            for i, d in zip((0, 2, 1), (t * (t - D), -(t - D), -I[1] * t)):
                k.ensure_eq('%s, %s branch, derivative by %s' % (f, br, ('E', 'Lz', 'I3')[i]), k.D(v, I[i]), d)


YS = {}


def c_unscale(sx, av):
    """math::unscale(ScalingCub, s): the point in the given interval and its derivative by s (contract below)"""
    lo, hi, s = nz(rd(sx, av[0], 0)), nz(rd(sx, av[0], 1)), nz(av[1])
    for l, h, y, t, w in YS['u']:
        if (l, h) == (lo, hi):
            if s is not y:
                raise Exception('another node')
            if len(av) > 2:
                wr(sx, av[2], w)
            return t
    raise Exception('another interval')


UNSC = {'double math::unscale<math::ScalingCub>(math::ScalingCub const&, double, double*)': c_unscale}


@contract('C15', 'scaling of an integration interval')
def unsc(k):
    a, s = k.real('a'), k.real('s', ('range', 0.05, 0.95), lo=0, hi=1)
    b = a + k.real('b', 'mod', lo=0, strict=True)
    v, o = k.call('d_unsc', a, b, s, k.out(1))
    k.ensure_eq('derivative', o[0], k.D(a + (b - a) * s * s * (lift(3) - TWO * s), s))
    k.ensure_eq('value', v, a + (b - a) * s * s * (lift(3) - TWO * s))
    if k.native:
        u = k.call('d_scal', a, b, v)
        k.ensure_close('inverse function', u[0] if isinstance(u, (list, tuple)) else u, s, 1e-9, ONE)


def nodes(k, l, yl, yn):
    """one node for each integration interval: inside the allowed region"""
    D = l[4]
    tl = D + k.real('tl', 'mod', lo=0, strict=True)
    tn = k.real('tn', ('range', 0.05, 0.15), lo=0, strict=True)
    wl, wn = k.real('wl', 'mod', lo=0, strict=True), k.real('wn', 'mod', lo=0, strict=True)
    k.require(lt(tn, l[3]))
    k.require(lt(tn, D))
    allowed(k, D, tl, tn)
    YS['u'] = [(l[0], l[1], yl, tl, wl), (l[2], l[3], yn, tn, wn)]
    return tl, wl, tn, wn


@contract('C15', 'actions and their derivatives by integrals of motion', callees=UNSC)
def dact(k):
    e, D, p, I, l, nm = setup(k)
    if k.native:
        k.ensure('symbolic only', TRUE)
        return
    tl, wl, tn, wn = nodes(k, l + [D], HALF, HALF)
    k.require(lt(F(nm, 1), ZERO))
    J = k.call('d_act', p, I, l, k.out(3))
    ql, qn = momentum(D, tl), momentum(D, tn)
    k.ensure_eq('Jr', J[0], ql * wl / T.PI)
    k.ensure_eq('Jz', J[1], TWO * qn * wn / T.PI)
    k.ensure_eq('Jphi', J[2], I[1])
    d = k.call('d_dact', p, I, l, k.out(6))
    dm = D - nm
    for j, (w, t) in enumerate(((wl, tl), (TWO * wn, tn))):
        for i, b in enumerate(byint(D, I, t)):
            v = w * b / T.PI
            if i == 2 and j == 1:
                v = v - I[1] / (TWO * T.PI) * (wn * singular(D, nm, tn) + TWO * sqrt(-TWO * nm / F(nm, 1) / dm) * fn('atan', sqrt(nm / dm)))
            k.ensure_eq('d%s/d%s' % (('Jr', 'Jz')[j], ('E', 'I3', 'Lz')[i]), d[3 * j + i], v)
    # a circular orbit
    l = [l[0], l[0]] + l[2:]
    k.require(lt(F(l[0], 2), ZERO))
    d = k.call('d_dact', p, I, l, k.out(6))
    lim = T.PI * sqrt(TWO * l[0]) * (l[0] - D) / sqrt(-HALF * F(l[0], 2))
    for i, (nm_, v) in enumerate((('E', lim / (l[0] - D)), ('I3', -lim / (l[0] - D) / l[0]), ('Lz', -I[1] * lim / (l[0] - D)**2))):
        k.ensure_eq('dJr/d%s, interval of zero length' % nm_, d[i], v / (lift(4) * T.PI))


def c_scale(sx, av):
    """math::scale(ScalingCub, x): the inverse of unscale"""
    s, x = av[0], nz(av[1])
    YS['c'].append((rd(sx, s, 0), rd(sx, s, 1), x))
    return YS['y'][len(YS['c']) - 1]


for sl in (1, -1):
    for sn in (1, -1):
        @contract('C15', 'derivatives of the generating function: rate of lambda %s 0, rate of |nu| %s 0' % ('<=>'[sl + 1], '<=>'[sn + 1]), callees=dict(UNSC, **{'double math::scale<math::ScalingCub>(math::ScalingCub const&, double)': c_scale}))
        def dgen(k, sl=sl, sn=sn):
            e, D, p, I, l, nm = setup(k)
            if k.native:
                k.ensure('symbolic only', TRUE)
                return
            for v, s in ((p[4], sl), (p[5], sn)):
                k.require(lt(ZERO, v * lift(s)))
            k.require(lt(p[2], nm))
            k.require(lt(F(nm, 1), ZERO))
            k.require(not_(eq(I[1], ZERO)))
            YS.clear()
            YS.update(k=k, y=[])
            nu = p[2]
            for zs in (1, -1, 0):
                if zs == 0 and sn < 0:
                    continue
                p[2] = nu * lift(zs)
                sg = sn * zs
                if zs == 0:   # the equatorial plane
                    p[5], nu = ZERO, ZERO
                YS['y'] = [k.real('y%d' % j, ('range', 0.2, 0.8), lo=0, strict=True) for j in (0, 1)]
                YS['c'] = []
                if zs == 0:
                    YS['y'][1] = ZERO
                yl, yn = YS['y']
                tl, wl, tn, wn = nodes(k, l + [D], yl * HALF, yn * HALF)
                d = k.call('d_dgen', p, I, l, k.out(3))
                k.ensure('arguments of the scaling', TRUE if len(YS['c']) == 2 else FALSE)
                (a0, a1, ax), (b0, b1, bx) = YS['c']
                for nm_, u, v in (('lower limit of lambda', a0, l[0]), ('upper limit of lambda', a1, l[1]), ('lambda', ax, p[1]), ('lower limit of nu', b0, ZERO), ('upper limit of nu', b1, nm), ('nu', bx, nu)):
                    k.ensure_eq(nm_, u, v)
                bl, bn = byint(D, I, tl), byint(D, I, tn)
                for i, nm_ in enumerate(('E', 'I3')):
                    k.ensure_eq('dS/d' + nm_, d[i], lift(sl) * wl * yl * bl[i] + lift(sg) * wn * yn * bn[i])
                dm = D - nm
                sp = TWO * sqrt(-TWO * nm / F(nm, 1) / dm) * (fn('atan', sqrt(nm / dm)) - fn('atan', sqrt((nm - nu) / dm)))
                if zs:
                    k.ensure_eq('antiderivative of the singular part', k.D(sp, nu), -singular(D, nm, nu))
                k.ensure_eq('dS/dLz', d[2], p[3] + lift(sl) * wl * yl * bl[2] + lift(sg) * (wn * yn * bn[2] - I[1] * HALF * HALF * (wn * yn * singular(D, nm, tn) + sp)))


DACT = {}


def c_dact(sx, av):
    for i, t in enumerate(DACT['d']):
        wr(sx, av[0], t, i)
    return None


NM = 'actions::(anonymous namespace)::'


@contract('C15', 'derivatives of integrals of motion by actions: inverse matrix', callees={NM + 'computeActionDerivatives(actions::(anonymous namespace)::AxisymFunctionBase const&, actions::(anonymous namespace)::AxisymIntLimits const&)': c_dact})
def dint(k):
    e, D, p, I, l, nm = setup(k)
    if k.native:
        k.ensure('symbolic only', TRUE)
        return
    a = DACT['d'] = k.reals('a0 a1 a2 a3 a4 a5')
    rE, rI, rL, zE, zI, zL = [a[i] for i in (0, 1, 2, 3, 4, 5)]
    for flat in (0, 1):
        if flat:
            l = l[:3] + [ZERO]
        k.require(not_(eq(rE, ZERO)))
        if not flat:
            k.require(not_(eq(rE * zI - rI * zE, ZERO)))
        d = k.call('d_dint', p, I, l, k.out(9))
        dE, dI, dL = d[:3], d[3:6], d[6:]
        for i in range(3):
            if not flat:
                k.ensure_eq('Jr by action %d' % i, rE * dE[i] + rI * dI[i] + rL * dL[i], lift(int(i == 0)))
                k.ensure_eq('Jz by action %d' % i, zE * dE[i] + zI * dI[i] + zL * dL[i], lift(int(i == 1)))
            elif i != 1:
                k.ensure_eq('Jr by action %d, planar orbit' % i, rE * dE[i] + rL * dL[i], lift(int(i == 0)))
            k.ensure_eq('Lz by action %d, %d' % (i, flat), dL[i], lift(int(i == 2)))


def c_list(name):
    def f(sx, av):
        for i, t in enumerate(DACT[name]):
            wr(sx, av[0], t, i)
        return None
    return f


def c_wrap(sx, av):
    return uf('wrap', [nz(av[0])])


SG = '(actions::(anonymous namespace)::AxisymFunctionBase const&, actions::(anonymous namespace)::AxisymIntLimits const&)'


for sgz in (1, 0, -1):
    @contract('C15', 'angles and frequencies from the derivatives, any subset of outputs, z %s 0' % '<=>'[sgz + 1], callees={
        NM + 'computeIntDerivatives' + SG: c_list('int'), NM + 'computeGenFuncDerivatives' + SG: c_list('gen'),
        NM + 'findIntegrationLimitsAxisym(actions::(anonymous namespace)::AxisymFunctionBase const&)': c_list('lim'), 'math::wrapAngle(double)': c_wrap,
        'math::integrateGL(math::IFunction const&, double, double, int)': lambda sx, av: uf('quad%s%s' % (id(av[0].r) * 0, ''), [nz(x) for x in av[1:3]])}, maxpaths=300)
    def ev(k, sgz=sgz):
        e, D, p, I, l, nm = setup(k)
        x = k.reals('R zz ph vR vz vp')
        z = k.real('z', 'mod', lo=0, strict=True)
        x = [x[0], z * lift(sgz), p[3], x[3], x[4], x[5]]
        # the sign of nu is that of z; d(nu)/dz vanishes in the equatorial plane
        p = p[:2] + [p[2] * lift(sgz)] + p[3:5] + [p[5] if sgz else ZERO, ZERO]
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        DACT['int'] = k.reals('Or Oz Op I0 I1 I2 L0 L1 L2')
        DACT['gen'] = k.reals('sE sI sL')
        DACT['lim'] = l
        k.require(lt(I[0], ZERO))
        d, s = DACT['int'], DACT['gen']
        for mask in range(1, 8):
            o = k.call('d_eval', p, I, x, mask, k.out(9))
            if mask & 4:
                for i in range(3):
                    k.ensure_eq('frequency %d, outputs %d' % (i, mask), o[6 + i], d[i])
            if mask & 1:
                k.ensure_eq('Jphi, outputs %d' % mask, o[2], I[1])
            if mask & 2:
                for i in range(3):
                    t = s[0] * d[i] + s[1] * d[3 + i] + s[2] * d[6 + i]
                    if i == 1:
                        # motion downwards, or past the lower turning point
                        down = k.decide(lt(x[4], ZERO)) if sgz == 0 else k.decide(lt(p[5], ZERO)) or (sgz < 0 and k.decide(eq(p[5], ZERO)))
                        if down and not k.decide(eq(I[1], ZERO)):
                            t = t + T.PI
                    w = o[3 + i]
                    if w.op == 'uf':
                        k.ensure_eq('angle %d, outputs %d' % (i, mask), [y for y in kids(w)][0], t)
                    else:
                        k.ensure('angle %d is wrapped, outputs %d' % (i, mask), FALSE)


@contract('C15', 'unbound orbits')
def unbound(k):
    e, D, p, I, l, nm = setup(k)
    k.require(le(ZERO, I[0]))
    if k.native:
        k.ensure('symbolic only', TRUE)
        return
    xx = k.reals('R z ph vR vz vp')
    for mask in range(1, 8):
        o = k.call('d_eval', p, I, xx, mask, k.out(9))
        for i in range(9):
            if mask >> (i // 3) & 1:
                k.ensure('output %d, outputs %d' % (i, mask), TRUE if o[i] is (I[1] if i == 2 else T.NAN) else FALSE)


ROOTS = {}


def c_findroot(sx, av):
    """math::findRoot(f, x1, x2, tol): a point where the function vanishes, or NaN if it has the same sign at both ends"""
    x, name = ROOTS['x'].pop(0)
    ROOTS['v'].append((name, sx.call(sx.prog.find(None, '@d_fncval'), [av[0], x]), nz(av[1]), nz(av[2])))
    return x


def c_semiinf(sx, av):
    """math::unscale(ScalingSemiInf, s): the point named by the contract, in the range (x0, infinity)"""
    ROOTS['x0'] = nz(rd(sx, av[0], 0))
    if len(av) > 2:
        wr(sx, av[2], ONE)
    return ROOTS['t']


ROOT = {'math::findRoot(math::IFunction const&, double, double, double)': c_findroot,
        'double math::unscale<math::ScalingSemiInf>(math::ScalingSemiInf const&, double, double*)': c_semiinf,
        NM + 'integrOrder(double)': lambda sx, av: ic(1)}
TINY = q(Fraction(1, 10**8))


for case in ('generic', 'edge'):
    @contract('C15', 'limits of integration, %s orbit' % case, callees=ROOT)
    def lims(k, case=case):
        e, D, p, I, l, nm = setup(k)
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        la = p[1] = D + k.real('la1', 'mod', lo=0, strict=True)
        nu = p[2]
        k.require(not_(eq(I[1], ZERO)))
        k.require(lt(ZERO, F(la)))
        k.require(lt(F(la, 1), ZERO))
        k.require(lt(la * TINY * -F(la, 1), F(la)))
        f0 = case == 'generic'
        k.require(lt(ZERO, F(ZERO)) if f0 else lt(F(ZERO), ZERO))
        k.require(lt(nu, D))
        k.require(lt(D * TINY, nu))
        l1, l2 = D + k.real('lm', 'mod', lo=0, strict=True), la + k.real('lx', 'mod', lo=0, strict=True)
        k.require(lt(D * TINY, l2 - l1))
        k.require(lt(D * TINY, nm))
        k.require(lt(l2, q(10**50)))
        for sg in (1, -1):
            p[2] = nu * lift(sg)
            ROOTS.clear()
            s = k.real('s', ('range', 0.3, 0.7))
            ROOTS.update(x=([(nm, 'nu_max')] if f0 else []) + [(l1, 'lambda_min'), (s, 'lambda_max')], v=[], t=l2)
            o = k.call('d_lim', p, I, k.out(4))
            k.ensure('all limits are found', TRUE if not ROOTS['x'] else FALSE)
            for name, v, a, b in ROOTS['v']:
                if name == 'lambda_max':
                    k.ensure_eq('the function vanishes at lambda_max', v, F(l2) / l2**2)
                    k.ensure_eq('lower end of the interval for lambda_max', ROOTS['x0'], la)
                    k.ensure_eq('begin of the scaled interval', a, ZERO)
                    k.ensure_eq('end of the scaled interval', b, ONE)
                    continue
                k.ensure_eq('the function vanishes at ' + name, v, F(nm if name == 'nu_max' else l1))
                k.ensure_eq('lower end of the interval for ' + name, a, nu if name == 'nu_max' else D)
                k.ensure_eq('upper end of the interval for ' + name, b, D if name == 'nu_max' else la)
            for name, u, v in (('lambda_min', o[0], l1), ('lambda_max', o[1], l2), ('nu_min', o[2], ZERO), ('nu_max', o[3], nm if f0 else nu)):
                k.ensure_eq(name, u, v)


@contract('C15', 'function of the Staeckel potential of the perfect ellipsoid')
def gfun(k):
    M, b, a, t = [k.real(n, 'mod', lo=0, strict=True) for n in 'M b a tau'.split()]
    k.require(lt(b, a))
    k.require(lt(b * b * q(Fraction(1, 10**4)), t))
    v = M / b * TWO / T.PI * fn('atan', sqrt(t / (b * b))) / sqrt(t / (b * b))
    for mask in range(1, 8):
        o = k.call('d_G', [M, a, b], t, mask, k.out(3))
        for d in range(3):
            if mask >> d & 1:
                k.ensure_eq('derivative %d, outputs %d' % (d, mask), o[d], (v, k.D(v, t), k.D(k.D(v, t), t))[d])


for sg in (1, -1):
    @contract('C15', 'Staeckel potential in prolate spheroidal coordinates, nu %s 0' % '<=>'[sg + 1], callees=CG)
    def pes(k, sg=sg):
        M, b, a = [k.real(n, 'mod', lo=0, strict=True) for n in 'M b a'.split()]
        k.require(lt(b, a))
        D = a * a - b * b
        n1 = k.real('n1', ('range', 0.1, 0.9), lo=0, strict=True)
        l1 = k.real('l1', 'mod', lo=0, strict=True)
        k.require(lt(n1, ONE))
        Dc = sqrt(a * a - b * b)**2
        la, nu = Dc + l1, Dc * n1
        k.require(lt(la, q(10**20)))
        k.require(lt(nu, q(10**20)))
        g = (lambda t: k.call('d_G', [M, a, b], t, 7, k.out(3))) if k.native else (lambda t: [G(t, d) for d in range(3)])
        L, N = g(la), g(nu)
        u, w = T.var('u_'), T.var('w_')
        Gt = [lambda x, d=d: uf('F6_1', [x], (d,)) for d in range(3)]
        v = (w * G(w) - u * G(u)) / (u - w)
        m = {u: la, w: nu}
        at = lambda t: subst(subst(t, {G(u, d): L[d] for d in range(3)}), m) if False else subst(subst(t, dict([(G(u, d), L[d]) for d in range(3)] + [(G(w, d), N[d]) for d in range(3)])), m)
        dv = lambda t, y: T.diff(t, y) if hasattr(T, 'diff') else k.D(t, y)
        s = lift(sg)
        ref = [v, dv(v, u), dv(v, w) * s, ZERO, dv(dv(v, u), u), dv(dv(v, w), w), dv(dv(v, u), w) * s]
        for mask in range(1, 8):
            o = k.call('d_pes', [M, a, b], [la, nu * s, ZERO], mask, k.out(7))
            for i, r in enumerate(ref):
                if mask >> (0 if i == 0 else 1 if i < 4 else 2) & 1:
                    k.ensure_eq('output %d, outputs %d' % (i, mask), o[i], at(r))


def shape(k, kind):
    M, A, B = [k.real(n, 'mod', lo=0, strict=True) for n in 'M A B'.split()]
    k.require(lt(B, A) if kind == 'oblate' else lt(A, B))
    return M, A, B, sqrt(fn('abs', A * A - B * B))


for kind in ('oblate', 'prolate'):
    @contract('C15', '%s perfect ellipsoid in spheroidal coordinates' % kind)
    def axi(k, kind=kind):
        M, A, B, D = shape(k, kind)
        rho, nu, phi = k.real('rho', 'mod', lo=0, strict=True), k.real('nu', ('range', 0.2, 2.9), lo=0, strict=True), k.real('phi', 'angle')
        k.require(lt(nu, T.PI))
        k.require(lt(ZERO, sin(nu)))
        D2 = D * D if kind == 'oblate' else -D * D
        x = [rho, cos(nu) / sin(nu), phi, D2]
        v = k.call('d_axi', [M, A, B], x, 1, k.out(7))[0]
        psi = sqrt(rho * rho + D2) if kind == 'oblate' else rho
        cn = cos(nu)
        Fv = -D * fn('atan', D / B * cn) if kind == 'oblate' else D * fn('atanh', D / B * cn)
        ref = -TWO / T.PI * M * (psi * fn('atan', psi / B) + cn * Fv) / (rho * rho + D2 * (sin(nu) if kind == 'oblate' else cos(nu))**2 * lift(1 if kind == 'oblate' else -1))
        k.ensure_eq('value', v, ref)
        r = [ref, k.D(ref, rho), k.D(ref, nu), ZERO, k.D(k.D(ref, rho), rho), k.D(k.D(ref, nu), nu), k.D(k.D(ref, rho), nu)]
        for mask in range(1, 8):
            o = k.call('d_axi', [M, A, B], x, mask, k.out(7))
            for i, t in enumerate(r):
                if mask >> (0 if i == 0 else 1 if i < 4 else 2) & 1:
                    k.ensure_eq('output %d, outputs %d' % (i, mask), o[i], t)


for kind in ('oblate', 'prolate'):
    for zs in (1, -1):
        @contract('C15', '%s perfect ellipsoid near the focal point, z %s 0' % (kind, '<=>'[zs + 1]))
        def focal(k, kind=kind, zs=zs):
            M, A, B, c = shape(k, kind)
            D = c
            # offsets from the focal point
            p, qq = k.real('p', ('range', 0, 1e-5)), k.real('q', ('range', 1e-6, 1e-5), lo=0, strict=True)
            for y in (p, qq):
                k.require(and_(lt(y * q(10**5), A), lt(-y * q(10**5), A)))
            k.require(lt(ZERO, D + p))
            pp = (fn('abs', D + p) if kind == 'oblate' else D + p) - D
            e = q(Fraction(6, 10**4)) * A if kind == 'oblate' else q(Fraction(1, 10**4)) * B
            k.require(lt(pp * pp + qq * qq, e * e))
            s = lift(zs)
            R, z = (qq, (D + p) * s) if kind == 'oblate' else (D + p, qq * s)
            if k.native:
                k.require(lt(B, D * q(10)))
                k.require(lt(A, D * q(10)))
            phi = k.real('phi', 'angle')
            v = k.call('d_pecyl', [M, A, B], [R, z, phi], 1, k.out(8))
            rho = v[7]
            v = v[0]
            sp, sq = (s, ONE) if kind == 'oblate' else (ONE, s)
            dp, dq = (lambda t: k.D(t, p) * sp), (lambda t: k.D(t, qq) * sq)
            dR, dz = (dq, dp) if kind == 'oblate' else (dp, dq)
            ref = [v, dR(v), dz(v), ZERO, dR(dR(v)), dz(dz(v)), dR(dz(v))]
            for mask in range(1, 8):
                o = k.call('d_pecyl', [M, A, B], [R, z, phi], mask, k.out(8))
                for i, t in enumerate(ref):
                    if mask >> (0 if i == 0 else 1 if i < 4 else 2) & 1 and not (k.native and i):
                        k.ensure_eq('output %d, outputs %d' % (i, mask), o[i], t)
            k.ensure_eq('density', rho, M / (T.PI**2 * B * A * A * (ONE + R * R / (A * A) + z * z / (B * B))**2))
            if k.native:
                return
            # the Poisson equation up to the first order in offsets
            lap = ref[4] + ref[5] + ref[1] / R - lift(4) * T.PI * rho
            o0 = {p: ZERO}
            if kind == 'oblate':
                # dPhi/dR / R at R=0 is the second derivative
                lap = TWO * ref[4] + ref[5] - lift(4) * T.PI * rho
            z0 = lambda t: subst(subst(t, {qq: ZERO}), {p: ZERO})
            k.ensure_eq('Poisson equation at the focal point', z0(lap), ZERO)
            k.ensure_eq('Poisson equation near the focal point', z0(k.D(lap, p)), ZERO)


for kind in ('oblate', 'prolate'):
    @contract('C15', '%s perfect ellipsoid: derivatives and the Poisson equation' % kind, maxpaths=100, budget=200)
    def pecyl(k, kind=kind):
        M, A, B, D = shape(k, kind)
        R, z, phi = k.real('R', 'mod', lo=0, strict=True), k.real('z', 'modreal'), k.real('phi', 'angle')
        k.require(not_(eq(z, ZERO)))
        pp = (fn('abs', z) if kind == 'oblate' else R) - D
        qq = R if kind == 'oblate' else z
        e = q(Fraction(6, 10**4)) * A if kind == 'oblate' else q(Fraction(1e-4)) * B
        k.require(le(e * e, pp * pp + qq * qq))
        o = k.call('d_pecyl', [M, A, B], [R, z, phi], 7, k.out(8))
        v = o[0]
        if not k.native:
            for i, t in ((1, k.D(v, R)), (2, k.D(v, z)), (3, ZERO)):
                k.ensure_eq('output %d' % i, o[i], t)
        for mask in range(1, 7):
            w = k.call('d_pecyl', [M, A, B], [R, z, phi], mask, k.out(8))
            for i in range(7):
                if mask >> (0 if i == 0 else 1 if i < 4 else 2) & 1:
                    k.ensure_eq('output %d, outputs %d' % (i, mask), w[i], o[i])
        k.ensure_close('Poisson equation', o[4] + o[5] + o[1] / R, lift(4) * T.PI * o[7], 1e-5, abs_(o[4]) + abs_(o[5])) if k.native else k.ensure_eq('Poisson equation', o[4] + o[5] + o[1] / R, lift(4) * T.PI * o[7])


def abs_(t):
    return sqrt(t * t)
