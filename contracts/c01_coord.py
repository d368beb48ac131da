"""C01: coordinate conversions denote the same phase-space point."""
from agv.engine import contract
from agv.terms import *

TUS = ['coord.cpp', 'math_core.cpp', 'math_specfunc.cpp']
DRV = ['drv_coord.cpp']


def cart(cs, p):
    """Cartesian position and velocity denoted by (p[0..5]) in coordinate system cs (the definition)"""
    if cs == 'Car':
        return list(p)
    if cs == 'Cyl':
        R, z, phi, vR, vz, vphi = p
        c, s = fn('cos', phi), fn('sin', phi)
        return [R * c, R * s, z, vR * c - vphi * s, vR * s + vphi * c, vz]
    r, th, phi, vr, vt, vp = p
    c, s, ct, st = fn('cos', phi), fn('sin', phi), fn('cos', th), fn('sin', th)
    return [r * st * c, r * st * s, r * ct,
            (vr * st + vt * ct) * c - vp * s, (vr * st + vt * ct) * s + vp * c, vr * ct - vt * st]


def point(k, cs):
    v = k.reals('vx vy vz')
    if cs == 'Car':
        return k.reals('x y z') + v
    if cs == 'Cyl':
        return [k.real('R', lo=0), k.real('z'), k.real('phi', ('angle',))] + v
    return [k.real('r', lo=0), k.real('theta', lo=0, hi=PI), k.real('phi', ('angle',))] + v


CS = ['Car', 'Cyl', 'Sph']
for A in CS:
    for B in CS:
        if A == B:
            continue

        @contract('C01', 'toPosVel<%s,%s> denotes the same point and velocity' % (A, B))
        def body(k, A=A, B=B):
            p = point(k, A)
            o = k.call('d_pv_%s_%s' % (A, B), p, k.out(6))
            for i, (a, b) in enumerate(zip(cart(A, p), cart(B, o))):
                k.ensure_eq('cartesian component %d' % i, a, b)
            if B != 'Car':
                k.ensure('radius is non-negative', le(ZERO, o[0]))
            if B == 'Sph':
                k.ensure('theta in [0,pi]', and_(le(ZERO, o[1]), le(o[1], PI)))
            o2 = k.call('d_p_%s_%s' % (A, B), p[:3], k.out(3))
            for i, (a, b) in enumerate(zip(cart(A, p)[:3], cart(B, o2 + [0, 0, 0])[:3])):
                k.ensure_eq('toPos: cartesian component %d' % i, a, b)
            if B != 'Car':
                k.ensure('toPos: radius is non-negative', le(ZERO, o2[0]))

        @contract('C01', 'toPosVel<%s,%s> then back is the identity' % (A, B))
        def body2(k, A=A, B=B):
            p = point(k, A)
            o = k.call('d_rt_%s_%s' % (A, B), p, k.out(6))
            for i, (a, b) in enumerate(zip(cart(A, p), cart(A, o))):
                k.ensure_eq('cartesian component %d' % i, a, b)

for A in CS:
    @contract('C01', 'Ltotal,Lz<%s> are |x cross v| and its z-component' % A)
    def bodyL(k, A=A):
        p = point(k, A)
        L, Lz = k.call('d_L_%s' % A, p, k.out(2))
        x, y, z, vx, vy, vz = cart(A, p)
        k.ensure_eq('Lz', Lz, x * vy - y * vx)
        k.ensure_eq('Ltotal squared', L * L, powi(y * vz - z * vy, 2) + powi(z * vx - x * vz, 2) + powi(x * vy - y * vx, 2))
        k.ensure('Ltotal non-negative', le(ZERO, L))


def canonical(k, cs, p, mom, extra=()):
    """p_i = v . dx/dq_i"""
    X = cart(cs, p)
    for i, nm in enumerate(('first', 'second', 'third')):
        e = 0
        for j in range(3):
            e = e + X[3 + j] * k.D(X[j], p[i])
        k.ensure_eq('%s momentum is v.dx/dq' % nm, mom[i], e)


@contract('C01', 'momenta<Cyl> are canonical')
def momcyl(k):
    p = point(k, 'Cyl')
    canonical(k, 'Cyl', p, k.call('d_mom_Cyl', p, k.out(3)))


@contract('C01', 'momenta<Sph> are canonical')
def momsph(k):
    p = point(k, 'Sph')
    canonical(k, 'Sph', p, k.call('d_mom_Sph', p, k.out(3)))


# ---- spheroidal systems ----------------------------------------------------------------
def axidef(rho, cosnu, sinnu, D2, kind):
    """(R, z) denoted by (rho, nu) in Axi(D2)"""
    eta = sqrt(rho * rho + absv(D2))
    chi, psi = (rho, eta) if kind == 'prolate' else (eta, rho)
    return chi * sinnu, psi * cosnu


def delta2(k, kind):
    D2 = k.real('D2', lo=0)
    if kind == 'prolate':
        return D2
    if kind == 'oblate':
        return neg(D2)
    return ZERO


for kind in ('prolate', 'oblate', 'spherical'):
    @contract('C01', 'toPosVel<Cyl,Axi> denotes the same point and velocity (%s)' % kind, ring_s=60)
    def axi1(k, kind=kind):
        D2 = delta2(k, kind)
        R, z, phi, vR, vz, vphi = p = point(k, 'Cyl')
        o = k.call('d_pv_Cyl_Axi', p, D2, k.out(6))
        o2 = k.call('d_p_Cyl_Axi', p[:3], D2, k.out(3))
        for tag, (rho, cot, ph) in (('', o[:3]), ('toPos: ', o2)):
            sn = 1 / sqrt(1 + cot * cot)
            cs = cot * sn
            R2, z2 = axidef(rho, cs, sn, D2, kind)
            k.ensure_eq(tag + 'R', R, R2)
            k.ensure_eq(tag + 'z', z, z2)
            k.ensure_eq(tag + 'phi', phi, ph)
            k.ensure(tag + 'rho is non-negative', le(ZERO, rho))
        # orthonormal frame: |v| preserved in the meridional plane, and v_nu, v_rho along the coordinate lines
        rho, vrho, vnu = o[0], o[3], o[4]
        k.ensure_eq('meridional speed', vR * vR + vz * vz, vrho * vrho + vnu * vnu)
        k.ensure_eq('vphi', vphi, o[5])

    @contract('C01', 'toPosVel<Axi,Cyl> denotes the same point and velocity (%s)' % kind, ring_s=60)
    def axi2(k, kind=kind):
        D2 = delta2(k, kind)
        rho, cot = k.real('rho', lo=0), k.real('cotnu')
        phi = k.real('phi', ('angle',))
        v = k.reals('vrho vnu vphi')
        o = k.call('d_pv_Axi_Cyl', [rho, cot, phi] + v, D2, k.out(6))
        o2 = k.call('d_p_Axi_Cyl', [rho, cot, phi], D2, k.out(3))
        nu = k.real('nu', lo=0, hi=PI)    # ghost: the angle whose cotangent is cotnu
        sn = 1 / sqrt(1 + cot * cot)
        R, z = axidef(rho, cot * sn, sn, D2, kind)
        for tag, oo in (('', o), ('toPos: ', o2)):
            k.ensure_eq(tag + 'R', R, oo[0])
            k.ensure_eq(tag + 'z', z, oo[1])
            k.ensure_eq(tag + 'phi', phi, oo[2])
        # unit vectors along the coordinate lines: d(R,z)/drho, d(R,z)/dnu normalised
        r, n = k.real('rho'), nu
        Rn, zn = axidef(r, cos(n), sin(n), D2, kind)

        def at(t):   # evaluate at sin nu = sn, cos nu = cot*sn
            return subst(t, {sin(n): sn, cos(n): cot * sn})
        eR, ez = at(k.D(Rn, r)), at(k.D(zn, r))
        fR, fz = at(k.D(Rn, n)), at(k.D(zn, n))
        k.ensure_eq('v along the rho line', o[3] * eR + o[4] * ez, v[0] * sqrt(eR * eR + ez * ez))
        k.ensure_eq('v along the nu line', o[3] * fR + o[4] * fz, v[1] * sqrt(fR * fR + fz * fz))
        k.ensure_eq('vphi', v[2], o[5])
        # momenta and angular momentum
        m = k.call('d_mom_Axi', [rho, cot, phi] + v, D2, k.out(3))
        k.ensure_eq('p_rho', m[0], o[3] * eR + o[4] * ez)
        k.ensure_eq('p_nu', m[1], o[3] * fR + o[4] * fz)
        k.ensure_eq('p_phi', m[2], o[0] * o[5])
        L = k.call('d_L_Axi', [rho, cot, phi] + v, D2, k.out(2))
        k.ensure_eq('Lz', L[1], o[0] * o[5])
        k.ensure_eq('Ltotal squared', L[0] * L[0], (powi(o[0], 2) + powi(o[1], 2)) * powi(o[5], 2) + powi(o[0] * o[4] - o[1] * o[3], 2))


@contract('C01', 'Cyl to prolate spheroidal: lambda, nu are the roots; velocity is their rate')
def prol1(k):
    D = k.real('D', lo=0)
    D2 = D * D
    R, z, phi, vR, vz, vphi = p = point(k, 'Cyl')
    o = k.call('d_pv_Cyl_Prol', p, D, k.out(6))
    o2 = k.call('d_p_Cyl_Prol', p[:3], D, k.out(3))
    for tag, (lam, nu, ph) in (('', o[:3]), ('toPos: ', o2)):
        an = absv(nu)
        k.ensure_eq(tag + 'sum of roots', lam + an, R * R + z * z + D2)
        k.ensure_eq(tag + 'product of roots', lam * an, z * z * D2)
        k.ensure(tag + 'lambda >= Delta^2', le(D2, lam))
        k.ensure(tag + 'nu has the sign of z', and_(implies(lt(ZERO, z), le(ZERO, nu)), implies(lt(z, ZERO), le(nu, ZERO))))
        k.ensure_eq(tag + 'phi', phi, ph)
    lam, nu = o[0], absv(o[1])
    # d/dt of the two identities above
    k.ensure_eq('rate of the sum', o[3] + o[4] * ite(lt(z, ZERO), -1., 1.), 2 * (R * vR + z * vz))
    k.ensure_eq('rate of the product', o[3] * nu + lam * o[4] * ite(lt(z, ZERO), -1., 1.), 2 * z * vz * D2)
    k.ensure_eq('phidot', o[5] * R, vphi)


@contract('C01', 'prolate spheroidal to Cyl')
def prol2(k):
    D = k.real('D', ('range', 0.3, 2.), lo=0)
    D2 = D * D
    lam = k.real('lambda', ('range', 0.1, 9.))
    nu = k.real('nu', ('range', -4., 4.))
    phi = k.real('phi', ('angle',))
    k.require(and_(lt(D2, lam), lt(absv(nu), D2)))
    R, z, ph = k.call('d_p_Prol_Cyl', [lam, nu, phi], D, k.out(3))
    k.ensure_eq('sum of roots', lam + absv(nu), R * R + z * z + D2)
    k.ensure_eq('product of roots', lam * absv(nu), z * z * D2)
    k.ensure('sign of z', le(ZERO, z * nu))
    k.ensure('R >= 0', le(ZERO, R))
    k.ensure_eq('phi', phi, ph)


# ---- rotations ----------------------------------------------------------------------------
def euler(a, b, c):
    def Rz(t):
        return [[cos(t), sin(t), 0], [-sin(t), cos(t), 0], [0, 0, 1]]

    def Rx(t):
        return [[1, 0, 0], [0, cos(t), sin(t)], [0, -sin(t), cos(t)]]

    def mm(A, B):
        return [[sum((lift(A[i][k]) * lift(B[k][j]) for k in range(3)), lift(0)) for j in range(3)] for i in range(3)]
    return mm(Rz(c), mm(Rx(b), Rz(a)))


def angles(k):
    return k.real('alpha', ('angle',)), k.real('beta', ('angle',)), k.real('gamma', ('angle',))


@contract('C01', 'Orientation matrix is the z-x-z Euler rotation and is orthonormal')
def ori1(k):
    a, b, c = angles(k)
    m = k.call('d_ori_mat', a, b, c, k.out(9))
    E = euler(a, b, c)
    for i in range(3):
        for j in range(3):
            k.ensure_eq('element %d%d' % (i, j), m[3 * i + j], E[i][j])
            k.ensure_eq('rows %d.%d orthonormal' % (i, j), sum((m[3 * i + l] * m[3 * j + l] for l in range(3)), lift(0)), lift(float(i == j)))
    k.ensure_eq('determinant', m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]), lift(1.))


@contract('C01', 'Orientation::toRotated/fromRotated apply the matrix and its transpose')
def ori2(k):
    a, b, c = angles(k)
    E = euler(a, b, c)
    v = k.reals('v0 v1 v2')
    w = k.reals('w0 w1 w2')
    t = k.call('d_ori_to', a, b, c, v, k.out(3))
    f = k.call('d_ori_from', a, b, c, v, k.out(3))
    pt = k.call('d_ori_pv_to', a, b, c, v + w, k.out(6))
    pf = k.call('d_ori_pv_from', a, b, c, v + w, k.out(6))
    ps = k.call('d_ori_pvs', a, b, c, v, k.out(12))
    for i in range(3):
        et = sum((E[i][j] * v[j] for j in range(3)), lift(0))
        ef = sum((E[j][i] * v[j] for j in range(3)), lift(0))
        etw = sum((E[i][j] * w[j] for j in range(3)), lift(0))
        efw = sum((E[j][i] * w[j] for j in range(3)), lift(0))
        for nm, x, y in (('to', t[i], et), ('from', f[i], ef), ('pos to', pt[i], et), ('pos from', pf[i], ef), ('vel to', pt[3 + i], etw),
                         ('vel from', pf[3 + i], efw), ('PosCar to', ps[i], et), ('PosCar from', ps[3 + i], ef), ('VelCar to', ps[6 + i], et),
                         ('VelCar from', ps[9 + i], ef)):
            k.ensure_eq('%s %d' % (nm, i), x, y)


@contract('C01', 'Orientation::toRotated/fromRotated of the velocity second-moment tensor')
def ori3(k):
    a, b, c = angles(k)
    E = euler(a, b, c)
    v = k.reals('v0 v1 v2 v3 v4 v5')
    V = [[v[0], v[3], v[5]], [v[3], v[1], v[4]], [v[5], v[4], v[2]]]
    for d, M in ((1, E), (0, [[E[j][i] for j in range(3)] for i in range(3)])):
        o = k.call('d_ori_v2', a, b, c, d, v, k.out(6))
        for n, (i, j) in enumerate(((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))):
            e = sum((M[i][p] * V[p][r] * M[j][r] for p in range(3) for r in range(3)), lift(0))
            k.ensure_eq('component %d%d %s' % (i, j, 'to' if d else 'from'), o[n], e)


@contract('C01', 'Orientation::toEulerAngles reproduces the same rotation')
def ori4(k):
    a, b, c = angles(k)
    o = k.call('d_ori_euler', a, b, c, k.out(3))
    E, F = euler(a, b, c), euler(*o)
    for i in range(3):
        for j in range(3):
            k.ensure_eq('element %d%d' % (i, j), E[i][j], F[i][j])
    k.ensure('beta in [0,pi]', and_(le(ZERO, o[1]), le(o[1], PI)))
