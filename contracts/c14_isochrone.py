"""C14: action-angle variables of the isochrone potential."""
from agv.engine import contract
from agv.terms import *
from agv import terms as T

TUS = ['actions_isochrone.cpp', 'coord.cpp', 'math_core.cpp', 'math_specfunc.cpp', 'potential_analytic.cpp', 'potential_base.cpp', 'utils.cpp']
DRV = ['drv_iso.cpp']
HALF = q(Fraction(1, 2))
XN = 'R z phi vR vz vphi'.split()


def point(k, sgn):
    M, b = k.real('M', 'mod', lo=0, strict=True), k.real('b', 'mod', lo=0, strict=True)
    x = [k.real('R', 'mod', lo=0, strict=True), k.real('z', 'modreal'), k.real('phi', 'angle'), k.real('vR', ('range', -0.5, 0.5)), k.real('vz', ('range', -0.5, 0.5)), k.real('vphi', ('range', 0.05, 0.5), lo=0, strict=True)]
    if sgn < 0:
        x[5] = -x[5]
    if sgn == 0:
        x[5] = ZERO
    return M, b, x


def invariants(M, b, x):
    R, z, phi, vR, vz, vp = x
    rb = sqrt(b * b + R * R + z * z)
    E = -M / (b + rb) + (vR * vR + vz * vz + vp * vp) * HALF
    L2 = (z * vp)**2 + (z * vR - R * vz)**2 + (R * vp)**2
    return E, L2, R * vp


def c_wrap(sx, av):
    """math::wrapAngle: the angle modulo 2 pi (the contracts are about the derivatives)"""
    return av[0]


WR = {'math::wrapAngle(double)': c_wrap}

import random
import mpmath


def points(M, b, x, n=3):
    """bound orbits"""
    rnd, res = random.Random(7), []
    while len(res) < n:
        e = {v: mpmath.mpf(rnd.uniform(0.3, 1) * (0.2 if t in x[3:] else 1)) for t in [M, b] + x for v in variables(t)}
        res.append(e)
    return res


def abs_(t):
    return sqrt(t * t)


def near(a, b):
    return mpmath.isfinite(a) and mpmath.isfinite(b) and abs(a - b) <= 1e-22 * (abs(a) + abs(b))


def ev(t, e, memo):
    try:
        return T.evalf(t, e, 40, None, memo)
    except Exception:
        return mpmath.nan


def real(t):
    return getattr(t, 'sort', None) == 'R' and t.op not in ('q', 'var', 'sp')


def abstraction(k, M, b, x, outs, defs):
    """parts of the outputs that are equal to the given quantities (an obligation for each of them) are replaced by their names"""
    envs = points(M, b, x)
    memo = [{} for e in envs]
    dv = [[ev(d, e, m) for e, m in zip(envs, memo)] for nm, d, r in defs]
    done = {}

    def walk(t):
        if t in done:
            return done[t]
        r = None
        if t.op == 'ite':
            return walk(kids(t)[1] if k.decide(kids(t)[0]) else kids(t)[2])
        if real(t):
            v = [ev(t, e, m) for e, m in zip(envs, memo)]
            for (nm, d, rep), w in zip(defs, dv):
                if all(near(a, c) for a, c in zip(v, w)):
                    if t is not d:
                        if t.op == 'fn' and t.args[0] == 'sqrt':
                            k.ensure_eq('%s (squared)' % nm, t.args[1], d * d)
                        elif t.op == 'fn' and t.args[0] == 'atan2':
                            ys, xs = d.args[1:]
                            y, z = t.args[1:]
                            k.ensure_eq(nm + ' (direction)', y * xs, z * ys)
                            # the ratio of arguments is a positive constant: both have the same sign at the points above, and neither vanishes separately
                            k.ensure_eq(nm + ' (length)', y * y * xs * xs + z * z * xs * xs, z * z * (xs * xs + ys * ys))
                        else:
                            k.ensure_eq(nm, t, d)
                    r = rep
                    break
        if r is None:
            ks = kids(t)
            r = t if not ks else rebuild(t, walk)
        done[t] = r
        return r
    return [walk(t) for t in outs]


def rebuild(t, f):
    m = {}
    for s in kids(t):
        n = f(s)
        if n is not s:
            m[s] = n
    return subst(t, m) if m else t


def clipped(k, nm, o, ref, M, b, x):
    """o = max(0, ref)"""
    if k.native:
        k.ensure_eq(nm, o, ref)
        return
    if o is not ZERO:
        k.ensure_eq(nm, o, ref)
        return
    # the value is clipped: the condition of this path compares the same quantity with zero
    envs = points(M, b, x)
    memo = [{} for e in envs]
    w = [ev(ref, e, m) for e, m in zip(envs, memo)]
    for l in k.sx.pc:
        st = [l]
        while st:
            t = st.pop()
            if real(t) and all(near(ev(t, e, m), c) for e, m, c in zip(envs, memo, w)):
                k.ensure_eq(nm + ' (clipped)', t, ref)
                return
            if not real(t):
                st.extend(kids(t))
    k.ensure(nm + ': zero although it is not clipped', FALSE)


for sgn in (1, -1, 0):
    for mask in (1, 4, 5):
        @contract('C14', 'actions and frequencies, Lz %s 0, outputs %d' % ('<=>'[sgn + 1], mask), callees=WR, maxpaths=500, budget=200)
        def act(k, sgn=sgn, mask=mask):
            M, b, x = point(k, sgn)
            E, L2, Lz = invariants(M, b, x)
            k.require(lt(E, ZERO))
            k.require(lt(ZERO, L2))
            k.require(not_(eq(x[1], ZERO)))
            o = k.call('d_iso', [M, b], x, mask, k.out(9))
            p = k.call('d_pot', [M, b], x, k.out(4))
            k.ensure_eq('the potential is that of the Isochrone class', p[0] + (x[3]**2 + x[4]**2 + x[5]**2) * HALF, E)
            L = sqrt(L2)
            L1 = sqrt(L2 + lift(4) * M * b)
            J0 = M / sqrt(-TWO * E)
            if mask & 1:
                k.ensure_eq('Jphi', o[2], Lz)
                # both are non-negative up to roundoff
                clipped(k, 'Jz', o[1], L - Lz * lift(sgn), M, b, x)
                if o[0] is T.NAN:
                    clipped(k, 'unbound', ZERO, E, M, b, x)     # the condition of this path is the opposite of the requirement
                    return
                clipped(k, 'Jr', o[0], J0 - (L + L1) * HALF, M, b, x)
            if mask & 4:
                k.ensure_eq('Omegar', o[6], M * M / J0**3)
                k.ensure_eq('Omegaz', o[7], M * M / J0**3 * HALF * (ONE + L / L1))
                k.ensure_eq('Omegaphi', o[8], lift(sgn) * M * M / J0**3 * HALF * (ONE + L / L1))


def hflow(M, b, x):
    """equations of motion"""
    R, z, phi, vR, vz, vp = x
    rb = sqrt(b * b + R * R + z * z)
    f = -M / (rb * (b + rb)**2)
    return [vR, vz, vp / R, vp * vp / R + f * R, f * z, -vR * vp / R]


def lflow(x):
    """rotation about the direction of the angular momentum"""
    R, z, phi, vR, vz, vp = x
    n = (-z * vp, z * vR - R * vz, R * vp)      # along R, phi, z
    L = sqrt(n[0]**2 + n[1]**2 + n[2]**2)
    cr = lambda a, b: (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    dx, dv = cr(n, (R, ZERO, z)), cr(n, (vR, vp, vz))
    dp = dx[1] / R
    return [t / L for t in (dx[0], dx[2], dp, dv[0] + vp * dp, dv[2], dv[1] - vR * dp)]


def along(k, t, x, fl):
    return sum([k.D(t, a) * f if a.op == 'v' else k.D(t, -a) * -f for a, f in zip(x, fl)], ZERO)


for sgn in (1, -1):
    @contract('C14', 'angles, Lz %s 0' % '<=>'[sgn + 1], callees=WR, maxpaths=500, budget=600)
    def ang(k, sgn=sgn):
        M, b, x = point(k, sgn)
        E, L2, Lz = invariants(M, b, x)
        k.require(lt(E, ZERO))
        k.require(not_(eq(x[1], ZERO)))
        if k.native:
            k.require(lt(E, -HALF * HALF * HALF * M / b))
            o = k.call('d_iso', [M, b], x, 7, k.out(9))
            k.require(lt(q(Fraction(1, 1000)) * sqrt(M * b), o[0]))
            y = k.call('d_map', [M, b], list(o[:6]), 1, k.out(9))
            for j in (0, 1, 3, 4, 5):
                k.ensure_close('round trip, ' + XN[j], y[j], x[j], 1e-6, ONE + sqrt(M / b) + b)
            k.ensure_close('round trip, phi', cos(y[2] - x[2]), ONE, 1e-9, ONE)
            for j in (6, 7, 8):
                k.ensure_close('frequency %d' % (j - 6), y[j], o[j], 1e-6, abs_(y[j]))
            return
        o = k.call('d_iso', [M, b], x, 6, k.out(9))
        if o[3] is T.NAN:
            clipped(k, 'unbound', ZERO, E, M, b, x)
            return
        R, z, phi, vR, vz, vp = x
        h, g = hflow(M, b, x), lflow(x)
        r, rb, L = sqrt(R * R + z * z), sqrt(R * R + z * z + b * b), sqrt(L2)
        J0 = M / sqrt(-TWO * E)
        L1 = sqrt(L2 + lift(4) * M * b)
        ecc = sqrt((ONE - M * b / J0**2)**2 - L2 / J0**2)
        k1, k2 = R * vR + z * vz, J0 - M * rb / J0
        eta = fn('atan2', k1, k2)
        psi = fn('atan2', z * L, -R * (z * vR - R * vz))
        chi = fn('atan2', z * vp, -(z * vR - R * vz) / r * r)
        vE, vL, vJ, vL1, ve, vpsi, vchi, veta = [var('%' + nm) for nm in 'E L J0 L1 ecc psi chi eta'.split()]
        cE, sE = cos(veta), sin(veta)
        defs = [('angular momentum', L, vL), ('magnitude of actions', J0, vJ), ('L1', L1, vL1), ('eccentricity', ecc, ve), ('r vr', k1, vJ * ve * sE), ('k2', k2, vJ * ve * cE),
                ('J0 ecc', J0 * ecc, vJ * ve), ('tan of half the anomaly', (sqrt(k1**2 + k2**2) - k2) / k1, sE / (ONE + cE)), ('psi', psi, vpsi), ('chi', chi, vchi), ('eccentric anomaly', eta, veta)]
        a = abstraction(k, M, b, x, o[3:9], defs)
        for i, t in enumerate(a):
            k.ensure('reduced %d' % i, TRUE if not set(variables(t)) & set(v for y in x[:2] + x[3:] for v in variables(y)) else FALSE)
        # rates of change of the quantities that determine the angles
        for nm, fl in (('time', h), ('rotation', g)):
            k.ensure_eq('energy is conserved, ' + nm, along(k, E, x, fl), ZERO)
            k.ensure_eq('angular momentum is conserved, ' + nm, along(k, L2, x, fl), ZERO)
            k.ensure_eq('Lz is conserved, ' + nm, along(k, Lz, x, fl), ZERO)
            k.ensure_eq('the node is fixed, ' + nm, along(k, chi, x, fl), fl[2])
        Om = M * M / J0**3
        k.ensure_eq('identity of the eccentric anomaly', k1 * k1 + k2 * k2, J0**2 * ecc**2)
        k.ensure_eq('rate of the eccentric anomaly', (k2 * along(k, k1, x, h) - k1 * along(k, k2, x, h)) * (J0 * J0 - J0 * k2), Om * J0 * J0 * (k1 * k1 + k2 * k2))
        k.ensure_eq('rotation does not change the eccentric anomaly', along(k, k1, x, g), ZERO)
        k.ensure_eq('rotation does not change the eccentric anomaly, 2', along(k, k2, x, g), ZERO)
        k.ensure_eq('rate of the position along the orbit', along(k, psi, x, h), L / (R * R + z * z))
        k.ensure_eq('rotation along the orbit', along(k, psi, x, g), ONE)
        # the angles are linear in time
        vb = sqrt(vL1**2 - vL**2) * HALF      # sqrt(M b)
        O = M * M / vJ**3
        rbv = vJ**2 / M * (ONE - ve * cE)
        rate = {veta: O / (ONE - ve * cE), vpsi: vL / (rbv**2 - b * b), vchi: vp / R}
        rot = {veta: ZERO, vpsi: ONE, vchi: ONE}
        names = {vE: None}
        back = {vL1: sqrt(vL**2 + lift(4) * M * b)}
        back[ve] = sqrt((ONE - M * b / vJ**2)**2 - vL**2 / vJ**2)
        bk = lambda t: subst(t, back)
        # phases at the pericentre; the value of thetar in the other angles is that after adding 2 pi to negative values
        peri = any(l.op == '==' and any(y.op == 'fn' and y.args[0] == 'atan2' for y in kids(l)) for l in k.sx.pc)
        neg = any(l.op == '<' and kids(l)[1] is ZERO and kids(l)[0].op == 'fn' and kids(l)[0].args[0] == 'atan2' for l in k.sx.pc)
        at0 = [subst(t, {veta: ZERO}) for t in a[:3]]
        if neg:
            at0[1] = at0[1] + T.PI * (ONE + vL / vL1)
            at0[2] = at0[2] + T.PI * (ONE + vL / vL1) * lift(sgn)
        k.ensure_eq('thetar at the pericentre', at0[0], ZERO)
        k.ensure_eq('thetaz at the pericentre', at0[1], vpsi)
        k.ensure_eq('thetaphi at the pericentre', at0[2], phi - vchi + lift(sgn) * vpsi)
        for i, nm in enumerate(('thetar', 'thetaz', 'thetaphi')):
            if peri:
                break
            t = a[i]
            dphi = k.D(t, phi)
            k.ensure_eq(nm + ': rotation about the z axis', dphi, ONE if i == 2 else ZERO)
            f = lambda rt: sum([k.D(t, v) * w for v, w in rt.items()], ZERO) + (rt[vchi] if i == 2 else ZERO)
            k.ensure_eq(nm + ': rate of change', bk(f(rate)), bk(a[3 + i]))
            k.ensure_eq(nm + ': rotation along the orbit', bk(f(rot)), lift((0, 1, sgn)[i]))


def mapped(k, sgn, zero=()):
    M, b = k.real('M', 'mod', lo=0, strict=True), k.real('b', 'mod', lo=0, strict=True)
    J = [k.real(n, 'mod', lo=0, strict=True) for n in ('Jr', 'Jz', 'Jphi')]
    a = k.reals('thetar thetaz thetaphi', 'angle')
    if sgn < 0:
        J[2] = -J[2]
    return M, b, J, a


for sgn in (1, -1):
    @contract('C14', 'mapping from action-angle variables, Lz %s 0' % '<=>'[sgn + 1], callees={'math::wrapAngle(double)': lambda sx, av: c_wrapthr(sx, av), 'math::solveKepler(double, double)': lambda sx, av: c_kepler(sx, av)}, maxpaths=500, budget=600)
    def amap(k, sgn=sgn):
        M, b, J, ang = mapped(k, sgn)
        if k.native:
            k.require(lt(q(Fraction(1, 1000)) * sqrt(M * b), J[0]))
            for t in J:
                k.require(and_(lt(t * t, M * b * q(100)), lt(M * b * q(Fraction(1, 1000)), t * t)))
            y = k.call('d_map', [M, b], J + ang, 1, k.out(9))
            o = k.call('d_iso', [M, b], list(y[:6]), 7, k.out(9))
            for j in range(3):
                k.ensure_close('round trip, action %d' % j, o[j], J[j], 1e-6, sqrt(M * b) * q(10))
                k.ensure_close('round trip, angle %d' % j, cos(o[3 + j] - ang[j]), ONE, 1e-9, ONE)
                k.ensure_close('frequency %d' % j, o[6 + j], y[6 + j], 1e-6, abs_(y[6 + j]))
            return
        KEP.clear()
        eta = k.real('eta')
        k.require(and_(le(ZERO, eta), lt(eta, TWO * T.PI), not_(eq(eta, T.PI)), not_(eq(cos(eta), -ONE))))
        tr, tz, tp = ang
        w = k.real('thr')       # thetar modulo 2 pi
        KEP.update(eta=eta, tr=tr, w=w)
        k.require(and_(le(ZERO, w), lt(w, TWO * T.PI)))
        L = J[1] + J[2] * lift(sgn)
        L1 = sqrt(L * L + lift(4) * M * b)
        J0 = J[0] + HALF * (L + L1)
        Om = M * M / J0**3
        Oz = Om * HALF * (ONE + L / L1)
        o = k.call('d_map', [M, b], J + ang, 1, k.out(9))
        if KEP['ecc'] is ONE:
            k.ensure('degenerate', TRUE)
            return
        ecc = KEP['ecc']
        k.ensure_eq('eccentricity', ecc**2, (ONE - M * b / J0**2)**2 - L**2 / J0**2)
        k.ensure('mean anomaly', TRUE if KEP['M'] in (tr, w) else FALSE)     # the solution depends only on the angle modulo 2 pi
        k.ensure('periodic in the radial angle', FALSE if any(tr in variables(t) for t in o) else TRUE)
        tr = w
        k.ensure_eq('Omegar', o[6], Om)
        k.ensure_eq('Omegaz', o[7], Oz)
        k.ensure_eq('Omegaphi', o[8], lift(sgn) * Oz)
        # parts of the outputs that have a name
        vL, vL1, vJ, ve, vpsi = [var('%' + nm) for nm in 'L L1 J0 ecc psi'.split()]
        P = [t for t in subterms(o[1]) if t.op == 'fn' and t.args[0] in ('sin', 'cos') and tz in variables(t)]
        P = P[0].args[1]
        pts = J + ang + [eta, tr]
        defs = [('L', L, vL), ('L1', L1, vL1), ('J0', J0, vJ), ('eccentricity', ecc, ve)]
        Q = abstraction(k, M, b, pts, [P], defs)[0]
        o = abstraction(k, M, b, pts, o, [('psi', P, vpsi)] + defs)
        R, z, phi, vR, vz, vp = o[:6]
        Jp = J[2]
        back = {vL1: sqrt(vL**2 + lift(4) * M * b)}
        back[ve] = sqrt((ONE - M * b / vJ**2)**2 - vL**2 / vJ**2)
        bk = lambda t: subst(t, back)
        E, L2, Lz = invariants(M, b, o[:6])
        rb = vJ**2 / M * (ONE - ve * cos(eta))
        r = sqrt(rb**2 - b**2)
        k.ensure_eq('Lz', Lz, Jp)
        k.ensure_eq('radius', R * R + z * z, r * r)
        k.ensure_eq('radial velocity', R * vR + z * vz, vJ * ve * sin(eta))
        k.ensure_eq('total angular momentum', (R * vz - z * vR)**2 * R * R, (vL**2 * R * R - Jp**2 * (R * R + z * z)))
        # for the values verified above
        k.ensure_eq('energy', bk((vJ * ve * sin(eta))**2 * HALF + vL**2 * HALF - M / (b + rb) * (rb**2 - b**2)), bk(-M * M / (TWO * vJ * vJ) * (rb**2 - b**2)))
        rates = {eta: Om / (ONE - ve * cos(eta)), tr: Om, tz: Oz, tp: Oz * lift(sgn)}
        tot = lambda t, rt: sum([k.D(t, v) * w for v, w in rt.items()], ZERO)
        OL = {L: vL, L1: vL1, J0: vJ}
        nm_ = lambda t: subst(t, OL)
        k.ensure_eq('rate of psi', bk(nm_(tot(Q, rates))), bk(vL / (rb**2 - b**2)))
        rt = {eta: M * M / vJ**3 / (ONE - ve * cos(eta)), vpsi: vL / (rb**2 - b**2), tz: M * M / vJ**3 * HALF * (ONE + vL / vL1), tp: M * M / vJ**3 * HALF * (ONE + vL / vL1) * lift(sgn), tr: M * M / vJ**3}
        for nm, t, v in (('R', R, vR), ('z', z, vz), ('phi', phi, vp / R)):
            k.ensure_eq('rate of ' + nm, bk(tot(t, rt)), bk(v))
        e0 = TWO * T.PI if k.decide(lt(T.PI, eta)) else ZERO
        k.ensure_eq('phase at the pericentre', subst(subst(Q, {eta: e0, tr: e0}), {sin(TWO * T.PI): ZERO, cos(TWO * T.PI): ONE}), tz)
        chi = [t for t in subterms(phi) if t.op == 'fn' and t.args[0] == 'atan2']
        k.ensure('angle in the plane', TRUE if len(chi) == 1 else FALSE)
        chi, vchi = chi[0], var('%chi')
        k.ensure_eq('azimuth', subst(phi, {chi: vchi}), tp + lift(sgn) * (vchi - tz))
        y, w = chi.args[1:]
        k.ensure_eq('azimuth from the node', y * vL * cos(vpsi), w * Jp * lift(sgn) * sin(vpsi))
        # the ratio of the two arguments is that of the sine and the cosine, and its denominator has the sign of the cosine
        k.ensure('azimuth from the node, variables', TRUE if set(variables(w)) <= {vL, vpsi, *[v for t in J[2:] for v in variables(t)]} else FALSE)
        k.ensure('azimuth from the node, direction', TRUE if T.evalf(w, {**{v: 0.3 for v in variables(w)}, vL: 1, vpsi: 0.1}) > 0 else FALSE)


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st.extend(kids(x))
    return seen


KEP = {}


def c_wrapthr(sx, av):
    return KEP['w'] if av[0] is KEP['tr'] else av[0]


def c_kepler(sx, av):
    """math::solveKepler(e, M): a solution E of E - e sin E = M in [0, 2 pi)"""
    KEP['ecc'], KEP['M'] = av[0], av[1]
    return KEP['eta']


@contract('C14', 'mapping to a planar orbit', callees=dict(WR, **{'math::solveKepler(double, double)': c_kepler}), maxpaths=500, budget=300)
def planar(k):
    M, b, J, ang = mapped(k, 1)
    KEP.clear()
    eta = k.real('eta', ('range', 0, 3))
    k.require(and_(le(ZERO, eta), lt(eta, T.PI), not_(eq(cos(eta), -ONE))))
    KEP['eta'] = eta
    for sgn in (1, -1):
        o = k.call('d_map', [M, b], [J[0], ZERO, J[2] * lift(sgn)] + ang, 0, k.out(9))
        k.ensure_eq('z', o[1], ZERO)
        if not k.native and o[0] is ZERO:
            # the radius is clipped at zero: only if that of the Kepler ellipse is not larger than b
            J0 = J[0] + HALF * (J[2] + sqrt(J[2]**2 + lift(4) * M * b))
            clipped(k, 'radius', o[0], (J0 * (J0 * (ONE - KEP['ecc'] * cos(eta))) / M)**2 - b * b, M, b, J + ang + [eta])
            continue
        k.ensure_eq('vz', o[4], ZERO)
        k.ensure_eq('Lz', o[0] * o[5], J[2] * lift(sgn))
        if not k.native:
            L1 = sqrt(J[2]**2 + lift(4) * M * b)
            J0 = J[0] + HALF * (J[2] + L1)
            psi = [t for t in subterms(o[2]) if t.op == 'fn' and t.args[0] == 'atan']
            k.ensure('azimuth depends on both arctangents', TRUE if len(psi) == 2 else FALSE)
            ecc, L, jj = KEP['ecc'], J[2], M * b / J0**2
            th = sin(eta) / (ONE + cos(eta))
            k.ensure_eq('azimuth', o[2], ang[2] + lift(sgn) * (-HALF * (ONE + L / L1) * ang[0] + fn('atan', (ONE + ecc - jj) * J0 / L * th) + L / L1 * fn('atan', (ONE + ecc + jj) * J0 / L1 * th)))
            k.ensure_eq('radius', (o[0]**2 + b * b) * M * M, J0**4 * (ONE - KEP['ecc'] * cos(eta))**2)


for j in (0, 1):
    @contract('C14', 'mapping of a negative %s action' % ('radial', 'vertical')[j])
    def neg(k, j=j):
        M, b, J, ang = mapped(k, 1)
        J[j] = -J[j]
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        o = k.call('d_map', [M, b], J + ang, 1, k.out(9))
        for i in range(9):
            k.ensure('not a number %d' % i, TRUE if o[i] is T.NAN else FALSE)
