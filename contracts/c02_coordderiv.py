"""C02: derivatives of coordinate transformations and conversion of gradients/hessians."""
from agv.engine import contract
from agv.terms import *
from contracts.c01_coord import delta2

TUS = ['coord.cpp', 'math_core.cpp', 'math_specfunc.cpp']
DRV = ['drv_coordderiv.cpp']
COORD = {'Car': 'x y z', 'Cyl': 'R z phi', 'Sph': 'r theta phi', 'Axi': 'rho nu phi', 'Prol': 'lambda nu phi'}
D1 = {  # order of members of PosDerivT / PosDeriv2T (src, dest), as declared in coord.h
    'Car_Cyl': ('Rx Ry phix phiy', 'Rxx Rxy Ryy phixx phixy phiyy'),
    'Car_Sph': ('rx ry rz thetax thetay thetaz phix phiy',
                'rxx rxy rxz ryy ryz rzz thetaxx thetaxy thetaxz thetayy thetayz thetazz phixx phixy phiyy'),
    'Cyl_Car': ('xR xphi yR yphi', 'xRphi xphiphi yRphi yphiphi'),
    'Cyl_Sph': ('rR rz thetaR thetaz', 'rRR rRz rzz thetaRR thetaRz thetazz'),
    'Sph_Car': ('xr xtheta xphi yr ytheta yphi zr ztheta',
                'xrtheta xrphi xthetatheta xthetaphi xphiphi yrtheta yrphi ythetatheta ythetaphi yphiphi zrtheta zthetatheta'),
    'Sph_Cyl': ('Rr Rtheta zr ztheta', 'Rrtheta Rthetatheta zrtheta zthetatheta'),
    'Cyl_Axi': ('rhoR rhoz nuR nuz', 'rhoRR rhoRz rhozz nuRR nuRz nuzz'),
    'Axi_Cyl': ('Rrho Rnu zrho znu', 'Rrhorho Rrhonu Rnunu zrhorho zrhonu znunu'),
    'Cyl_Prol': ('lambdaR lambdaz nuR nuz', 'lambdaRR lambdaRz lambdazz nuRR nuRz nuzz'),
    'Prol_Cyl': ('Rlambda Rnu zlambda znu', 'Rlambdalambda Rlambdanu Rnunu zlambdalambda zlambdanu znunu'),
}
HESS = ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))


def split(s, dest, src):
    for i, d in enumerate(dest):
        if s.startswith(d):
            rest = s[len(d):]
            out = []
            while rest:
                for j, c in sorted(enumerate(src), key=lambda t: -len(t[1])):
                    if rest.startswith(c):
                        out.append(j)
                        rest = rest[len(c):]
                        break
                else:
                    break
            if not rest:
                return i, out
    raise ValueError(s)


def pos(k, cs):
    if cs == 'Car':
        return k.reals('x y z')
    if cs == 'Cyl':
        return [k.real('R', lo=0), k.real('z'), k.real('phi', ('angle',))]
    if cs == 'Sph':
        return [k.real('r', lo=0), k.real('theta', lo=0, hi=PI), k.real('phi', ('angle',))]


def checkderivs(k, src, dest, p, o, d, d2):
    a, b = D1['%s_%s' % (src, dest)]
    for s, v in zip(a.split(), d):
        i, j = split(s, COORD[dest].split(), COORD[src].split())
        k.ensure_eq('d(%s)/d(%s)' % (COORD[dest].split()[i], COORD[src].split()[j[0]]), v, k.D(o[i], p[j[0]]))
    for s, v in zip(b.split(), d2):
        i, j = split(s, COORD[dest].split(), COORD[src].split())
        k.ensure_eq('d2 %s' % s, v, k.D(k.D(o[i], p[j[0]]), p[j[1]]))


for pair in ('Car_Cyl', 'Car_Sph', 'Cyl_Car', 'Cyl_Sph', 'Sph_Car', 'Sph_Cyl'):
    A, B = pair.split('_')

    @contract('C02', 'toPosDeriv<%s,%s>: first and second derivatives' % (A, B))
    def body(k, A=A, B=B, pair=pair):
        p = pos(k, A)
        n1, n2 = len(D1[pair][0].split()), len(D1[pair][1].split())
        if A == 'Car':
            k.require(lt(ZERO, p[0] * p[0] + p[1] * p[1]))      # derivatives of phi do not exist on the z axis
        o, d, d2 = k.call('d_pd_' + pair, p, k.out(3), k.out(n1), k.out(n2))
        if k.degenerate(p):
            return
        checkderivs(k, A, B, p, o, d, d2)

for kind in ('prolate', 'oblate', 'spherical'):
    @contract('C02', 'toPosDeriv<Cyl,Axi>: first and second derivatives (%s)' % kind, ring_s=100, budget=250)
    def cylaxi(k, kind=kind):
        D2 = delta2(k, kind)
        p = pos(k, 'Cyl')
        k.require(ne(p[1], ZERO))
        o, d, d2 = k.call('d_pd_Cyl_Axi', p, D2, k.out(3), k.out(4), k.out(6))
        if k.degenerate(p):
            return
        checkderivs(k, 'Cyl', 'Axi', p, o, d, d2)

    @contract('C02', 'toPosDeriv<Axi,Cyl>: first and second derivatives (%s)' % kind, ring_s=60)
    def axicyl(k, kind=kind):
        D2 = delta2(k, kind)
        rho, nu, phi = k.real('rho', lo=0), k.real('nu', lo=0, hi=PI), k.real('phi', ('angle',))
        cot = fn('cos', nu) / fn('sin', nu)
        o, d, d2 = k.call('d_pd_Axi_Cyl', [rho, cot, phi], D2, k.out(3), k.out(4), k.out(6))
        if k.degenerate([rho, nu]):
            return
        checkderivs(k, 'Axi', 'Cyl', [rho, nu, phi], o, d, d2)

    @contract('C02', 'toGrad/toHess<Cyl,Axi> apply the chain rule (%s)' % kind, ring_s=60)
    def thaxi(k, kind=kind):
        D2 = delta2(k, kind)
        rho, nu, phi = q = [k.real('rho', lo=0), k.real('nu', lo=0, hi=PI), k.real('phi', ('angle',))]
        cot = fn('cos', nu) / fn('sin', nu)
        o, g, h = k.call('d_th_Cyl_Axi', [rho, cot, phi], D2, k.out(3), k.out(3), k.out(6))
        if k.degenerate([rho, nu]):
            return
        chk(k, uf('F0_3', o), q, g, h)

    @contract('C02', 'evalAndConvert<Axi,Cyl> applies the chain rule (%s)' % kind, ring_s=100, budget=250, weight=5)
    def ecaxi(k, kind=kind):
        D2 = delta2(k, kind)
        p = pos(k, 'Cyl')
        k.require(ne(p[1], ZERO))
        v, g, h = k.call('d_ec_Axi_Cyl', p, D2, 7, k.out(1), k.out(3), k.out(6))
        if k.degenerate(p):
            return
        chk(k, v[0], p, g, h)


def chk(k, v, p, g, h, hess=HESS):
    for i in range(3):
        k.ensure_eq('gradient %d' % i, g[i], k.D(v, p[i]))
    for n, (i, j) in enumerate(hess):
        k.ensure_eq('hessian %d%d' % (i, j), h[n], k.D(k.D(v, p[i]), p[j]))


for E in ('Car', 'Cyl', 'Sph'):
    for O in ('Car', 'Cyl', 'Sph'):
        if E == O:
            continue

        @contract('C02', 'evalAndConvert<%s,%s>: value, gradient and hessian of any smooth F, for any requested subset' % (E, O), ring_s=60)
        def ec(k, E=E, O=O):
            p = pos(k, O)
            if O == 'Car':
                k.require(lt(ZERO, p[0] * p[0] + p[1] * p[1]))
            f = 'd_ec_%s_%s' % (E, O)
            v, g, h = k.call(f, p, 7, k.out(1), k.out(3), k.out(6))
            for mask in (1, 2, 3, 4, 5, 6):
                v2, g2, h2 = k.call(f, p, mask, k.out(1), k.out(3), k.out(6))
                if mask & 1:
                    k.ensure_eq('same value when requesting subset %d' % mask, v[0], v2[0])
                for i in range(3):
                    if mask & 2:
                        k.ensure_eq('same gradient when requesting subset %d' % mask, g[i], g2[i])
                for i in range(6):
                    if mask & 4:
                        k.ensure_eq('same hessian when requesting subset %d' % mask, h[i], h2[i])
            if k.degenerate(p):
                return
            chk(k, v[0], p, g, h)

for O in ('Car', 'Cyl', 'Sph'):
    @contract('C02', 'evalAndConvertSph<%s>: value, gradient and hessian of any smooth F(r), for any requested subset' % O)
    def es(k, O=O):
        p = pos(k, O)
        r = {'Car': lambda: sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]), 'Cyl': lambda: sqrt(p[0] * p[0] + p[1] * p[1]), 'Sph': lambda: p[0]}[O]()
        k.require(lt(ZERO, r))
        f = 'd_es_' + O
        v, g, h = k.call(f, p, 7, k.out(1), k.out(3), k.out(6))
        k.ensure_eq('value is F(r)', v[0], uf('F0_1', [r]))
        for mask in (1, 2, 3, 4, 5, 6):
            v2, g2, h2 = k.call(f, p, mask, k.out(1), k.out(3), k.out(6))
            if mask & 1:
                k.ensure_eq('same value when requesting subset %d' % mask, v[0], v2[0])
            for i in range(3):
                if mask & 2:
                    k.ensure_eq('same gradient when requesting subset %d' % mask, g[i], g2[i])
            for i in range(6):
                if mask & 4:
                    k.ensure_eq('same hessian when requesting subset %d' % mask, h[i], h2[i])
        if k.degenerate(p):
            return
        chk(k, v[0], p, g, h)

for O in ('Car', 'Cyl'):
    @contract('C02', 'evalAndConvertSph<%s> at the origin: limits of the derivatives of an even function' % O)
    def es0(k, O=O):
        v, g, h = k.call('d_es_' + O, [fl(0.), fl(0.), fl(0.)], 7, k.out(1), k.out(3), k.out(6))
        f0, f2 = uf('F0_1', [ZERO]), uf('F0_1', [ZERO], (2,))
        k.require(eq(uf('F0_1', [ZERO], (1,)), ZERO))
        k.ensure_eq('value', v[0], f0)
        for i in range(3):
            k.ensure_eq('gradient vanishes', g[i], ZERO)
        for i in range(6):
            k.ensure_eq('hessian', h[i], f2 if (i < 3 if O == 'Car' else i < 2) else ZERO)


def prolpt(k):
    D = k.real('D', lo=0)
    return D


@contract('C02', 'toPosDeriv<Cyl,ProlSph>: first and second derivatives', ring_s=100, budget=250)
def cylprol(k):
    D = k.real('D', lo=0)
    p = pos(k, 'Cyl')
    k.require(ne(p[1], ZERO))
    o, d, d2 = k.call('d_pd_Cyl_Prol', p, D, k.out(3), k.out(4), k.out(6))
    if k.degenerate(p):
        return
    checkderivs(k, 'Cyl', 'Prol', p, o, d, d2)


def prolin(k):
    D = k.real('D', ('range', 0.3, 2.), lo=0)
    lam, nu, phi = k.real('lambda', ('range', 0.1, 9.)), k.real('nu', ('range', -4., 4.)), k.real('phi', ('angle',))
    k.require(and_(lt(D * D, lam), lt(absv(nu), D * D), ne(nu, ZERO)))
    return D, [lam, nu, phi]


@contract('C02', 'toPosDeriv<ProlSph,Cyl>: first and second derivatives', ring_s=60)
def prolcyl(k):
    D, q = prolin(k)
    o, d, d2 = k.call('d_pd_Prol_Cyl', q, D, k.out(3), k.out(4), k.out(6))
    if k.degenerate(q):
        return
    checkderivs(k, 'Prol', 'Cyl', q, o, d, d2)


@contract('C02', 'toGrad<Cyl,ProlSph> applies the chain rule', ring_s=60)
def tgprol(k):
    D, q = prolin(k)
    o, g = k.call('d_tg_Cyl_Prol', q, D, k.out(3), k.out(3))
    if k.degenerate(q):
        return
    v = uf('F0_3', o)
    for i in range(3):
        k.ensure_eq('gradient %d' % i, g[i], k.D(v, q[i]))


@contract('C02', 'evalAndConvert<ProlSph,Cyl> applies the chain rule', ring_s=100, budget=250, weight=5)
def ecprol(k):
    D = k.real('D', lo=0)
    p = pos(k, 'Cyl')
    k.require(ne(p[1], ZERO))
    v, g, h = k.call('d_ec_Prol_Cyl', p, D, 7, k.out(1), k.out(3), k.out(6))
    if k.degenerate(p):
        return
    chk(k, v[0], p, g, h)


for O in ('Car', 'Sph'):
    @contract('C02', 'evalAndConvertTwoStep<ProlSph,Cyl,%s> applies the chain rule' % O, ring_s=100, budget=250, weight=5)
    def ts(k, O=O):
        D = k.real('D', lo=0)
        p = pos(k, O)
        if O == 'Car':
            k.require(and_(lt(ZERO, p[0] * p[0] + p[1] * p[1]), ne(p[2], ZERO)))
        else:
            k.require(ne(fn('cos', p[1]), ZERO))
        v, g, h = k.call('d_ts_' + O, p, D, 7, k.out(1), k.out(3), k.out(6))
        if k.degenerate(p):
            return
        chk(k, v[0], p, g, h)
