"""C04: density is the Laplacian of the potential, enclosed and total masses belong to the same potential, declared
symmetries are true, the wrappers and on-the-fly averages are what they claim to be."""
from contracts.c03_potan import *
import contracts.c03_potan as c3

TUS = c3.TUS
DRV = ['drv_potan.cpp', 'drv_potbase.cpp']
FOURPI = q(4) * PI


def absv_(t):
    return fn('abs', t)


def significant(k, terms):
    """the Laplacian is not dominated by rounding errors (otherwise the code documents that zero is returned)"""
    s = ZERO
    for t in terms:
        s = s + absv_(t)
    k.require(lt(q(Fraction(1, 10 ** 9)) * s, absv_(sum(terms[1:], terms[0]))))


for name in POTS:
    for cs in CSS:
        @contract('C04', '%s: density in %s coordinates is the Laplacian of the potential' % (name, cs), ring_s=60)
        def rho(k, name=name, cs=cs):
            P, phi = POTS[name](k)
            p, x = pos(k, cs)
            exclude_axis(k, cs, x)
            if cs == 'Car':
                c, y = p, x
            else:     # the Laplacian is easiest in Cartesian coordinates
                c = [var('X'), var('Y'), var('Z')]
                y = c
            L = laplacian(k, phi(y), 'Car', c)
            if cs != 'Car':
                L = subst(L, {a: b for a, b in zip(c, x)})
            if name == 'NFW':
                phi(x)
            r = k.call('d_%s_rho%s' % (name, cs), P, p, k.real('t'))
            k.ensure_eq('4 pi density = Laplacian', FOURPI * r, L)

for name in ('Plummer', 'Isochrone', 'NFW'):
    @contract('C04', '%s: enclosed mass is that of the potential, total mass is its limit' % name, ring_s=60)
    def mass(k, name=name):
        P, phi = POTS[name](k)
        r = k.real('r', lo=0)
        v = phi([r, ZERO, ZERO])
        k.ensure_eq('enclosed mass = r^2 dPhi/dr', k.call('d_%s_mass' % name, P, r), r * r * k.D(v, r))
        k.ensure_eq('total mass', k.call('d_%s_total' % name, P), INF if name == 'NFW' else P[0])

for name in ('MiyamotoNagai', 'Logarithmic', 'Harmonic'):
    @contract('C04', '%s: total mass' % name)
    def tmass(k, name=name):
        P, phi = POTS[name](k)
        k.ensure_eq('total mass', k.call('d_%s_total' % name, P), P[0] if name == 'MiyamotoNagai' else INF)

SYMN = ['', 'point reflection', 'x reflection', 'y reflection', 'z reflection', 'rotation about z', 'any rotation']


def symgoals(k, o, what):
    for i in range(1, 7):
        k.ensure_eq('%s is invariant under %s if declared so' % (what, SYMN[i]), o[i], o[0])


SPECIAL = {'Logarithmic': [None, (2, 1), (3, 1), ((2, 1), (3, 1))], 'Harmonic': [None, (1, 1), (2, 1), ((1, 1), (2, 1))]}
for name in POTS:
    for n, sp in enumerate(SPECIAL.get(name, [None])):
        @contract('C04', '%s: declared symmetry is true of potential and density%s' % (name, '' if sp is None else ' (unit axis ratios %d)' % n), ring_s=60, forkselect_int=True)
        def sym(k, name=name, sp=sp):
            P, phi = POTS[name](k)
            if sp:
                for i, v in (sp if isinstance(sp[0], tuple) else (sp,)):
                    P[i] = lift(v)
            x = k.reals('x y z')
            k.require(lt(ZERO, x[0] ** 2 + x[1] ** 2))
            if name == 'NFW':
                phi(x)
            w = [k.real('w', ('angle',)), k.real('wtheta', lo=0, hi=PI), k.real('wphi', ('angle',))]
            o, od = k.call('d_%s_sym' % name, P, x, k.real('t'), w, k.out(7), k.out(7))
            symgoals(k, o, 'potential')
            symgoals(k, od, 'density')


@contract('C04', 'single KeplerBinary: no density, enclosed mass, total mass, symmetry', callees=KEPLER, uf={'kepler': kepler})
def kb_single(k):
    P = binary(k)
    t = k.real('t', 'modreal')
    for Q in ([P[0], ZERO, P[2], P[3], P[4]], [P[0], P[1], ZERO, P[3], P[4]]):
        k.ensure_eq('enclosed mass', k.call('d_KeplerBinary_mass', Q, k.real('r', lo=0)), P[0])
        k.ensure_eq('total mass', k.call('d_KeplerBinary_total', Q), P[0])
        x = k.reals('x y z')
        k.require(lt(ZERO, x[0] ** 2 + x[1] ** 2))
        w = [k.real('w', ('angle',)), k.real('wtheta', lo=0, hi=PI), k.real('wphi', ('angle',))]
        o, od = k.call('d_KeplerBinary_sym', Q, x, t, w, k.out(7), k.out(7))
        symgoals(k, o, 'potential')
        for i in range(7):
            k.ensure_eq('no density away from the point mass', od[i], ZERO)


# ---- the base classes: any potential given in one coordinate system
def native_F(k, N, x, t):
    """the abstract potential F_0 of the native coordinates, as a function of Cartesian x"""
    if N == 'Car':
        a = list(x)
    else:
        R2 = x[0] ** 2 + x[1] ** 2
        if N == 'Cyl':
            a = [sqrt(R2), x[2], fn('atan2', x[1], x[0])]
        else:
            a = [sqrt(R2 + x[2] ** 2), fn('atan2', sqrt(R2), x[2]), fn('atan2', x[1], x[0])]
    return uf('F0_4', a + [t])


for N in CSS:
    for cs in CSS:
        @contract('C04', 'any potential defined in %s: evaluation in %s coordinates at the requested time' % (N, cs), ring_s=60)
        def ap(k, N=N, cs=cs):
            p, x = pos(k, cs)
            exclude_axis(k, cs, x)
            t = k.real('t')
            if N == cs:
                v = uf('F0_4', list(p) + [t])
            else:
                v = conv(k, N, cs, p, t)
            outputs(k, 'd_ap%s_%s' % (N, cs), (p, t), p, v)

        @contract('C04', 'any potential defined in %s: density in %s coordinates is its Laplacian' % (N, cs), ring_s=60)
        def aprho(k, N=N, cs=cs):
            p, x = pos(k, cs)
            exclude_axis(k, cs, x)
            t = k.real('t')
            # native coordinates of the point
            n = conv(k, N, cs, p, None)
            c = [var('n%d' % i) for i in range(3)]
            v = uf('F0_4', c + [t])
            L = subst(laplacian(k, v, N, c), dict(zip(c, n)))
            rho = k.call('d_ap%s_rho%s' % (N, cs), p, t)
            d = [subst(D(v, a), dict(zip(c, n))) for a in c]
            dd = [subst(D(D(v, a), a), dict(zip(c, n))) for a in c]
            if N == 'Cyl':
                k.require(lt(absv_(n[1]) * q(Fraction(1, 10 ** 7)), n[0]))
                significant(k, [dd[0], d[0] / n[0], dd[1], dd[2] / n[0] ** 2])
            if N == 'Sph':
                s, co = fn('sin', n[1]), fn('cos', n[1])
                significant(k, [dd[0], q(2) * d[0] / n[0], (dd[1] + d[1] * co / s + dd[2] / s ** 2) / n[0] ** 2])
            k.ensure_eq('4 pi density = Laplacian', FOURPI * rho, L)


def conv(k, N, cs, p, t):
    """native coordinates N of the point p given in cs (or F_0 of them and t)"""
    if N == cs:
        a = list(p)
    elif (N, cs) == ('Cyl', 'Car'):
        a = [sqrt(p[0] ** 2 + p[1] ** 2), p[2], fn('atan2', p[1], p[0])]
    elif (N, cs) == ('Sph', 'Car'):
        R = sqrt(p[0] ** 2 + p[1] ** 2)
        a = [sqrt(p[0] ** 2 + p[1] ** 2 + p[2] ** 2), fn('atan2', R, p[2]), fn('atan2', p[1], p[0])]
    elif (N, cs) == ('Car', 'Cyl'):
        a = [p[0] * fn('cos', p[2]), p[0] * fn('sin', p[2]), p[1]]
    elif (N, cs) == ('Sph', 'Cyl'):
        a = [sqrt(p[0] ** 2 + p[1] ** 2), fn('atan2', p[0], p[1]), p[2]]
    elif (N, cs) == ('Car', 'Sph'):
        a = [p[0] * fn('sin', p[1]) * fn('cos', p[2]), p[0] * fn('sin', p[1]) * fn('sin', p[2]), p[0] * fn('cos', p[1])]
    else:
        a = [p[0] * fn('sin', p[1]), p[0] * fn('cos', p[1]), p[2]]
    return a if t is None else uf('F0_4', a + [t])


for cs in CSS:
    @contract('C04', 'potential and density wrappers of a function of radius in %s coordinates' % cs, ring_s=60)
    def fw(k, cs=cs):
        p, x = pos(k, cs)
        exclude_axis(k, cs, x)
        r = p[0] if cs == 'Sph' else sqrt(p[0] ** 2 + p[1] ** 2) if cs == 'Cyl' else sqrt(p[0] ** 2 + p[1] ** 2 + p[2] ** 2)
        outputs(k, 'd_fw_' + cs, (p,), p, uf('F0_1', [r]))
        k.ensure_eq('density', k.call('d_fd_rho' + cs, p), uf('F0_1', [r]))
        d, dd = q(2) * uf('F0_1', [r], (1,)) / r, uf('F0_1', [r], (2,))
        significant(k, [d, dd])
        k.ensure_eq('4 pi density = Laplacian', FOURPI * k.call('d_fw_rho' + cs, p), d + dd)


@contract('C04', 'enclosed mass of a spherical potential')
def fwmass(k):
    r = k.real('r', lo=0)
    k.ensure_eq('enclosed mass = r^2 dPhi/dr', k.call('d_fw_mass', r), r * r * uf('F0_1', [r], (1,)))


@contract('C04', 'total energy is potential plus kinetic energy, at the requested time')
def energy(k):
    x = [k.real('x', lo=0), k.real('y', lo=0, hi=3), k.real('z')]
    v = k.reals('a b c')
    t = k.real('t')
    o = k.call('d_energy', x, v, t, k.out(3))
    T = (v[0] ** 2 + v[1] ** 2 + v[2] ** 2) / 2
    k.ensure_eq('Car', o[0], uf('F0_4', x + [t]) + T)
    k.ensure_eq('Cyl', o[1], uf('F0_4', x + [t]) + T)
    k.ensure_eq('Sph', o[2], uf('F0_4', x + [t]) + T)


@contract('C04', 'volume integration: point and Jacobian of the unit cube')
def unscale(k):
    s = k.real('s', lo=Fraction(1, 1000), hi=Fraction(999, 1000))
    if k.native:       # the radius is a steep function of s: finite differences are reliable only in the middle
        k.require(and_(lt(lift(Fraction(1, 5)), s), lt(s, lift(Fraction(4, 5)))))
    u = k.real('u', lo=0, hi=1)
    w = k.real('w', lo=0, hi=1)
    j, o = k.call('d_unscale', [s, u, w], k.out(3))
    R, z, phi = o
    k.ensure_eq('azimuth', phi, q(2) * PI * w)
    k.require(not_(eq(j, ZERO)))       # the code sets it to zero beyond 1e-100 < r < 1e100
    # dV = R dR dz dphi
    J = R * absv_(k.D(R, s) * k.D(z, u) - k.D(R, u) * k.D(z, s)) * k.D(phi, w)
    k.ensure_eq('Jacobian', j, J)


# ---- on-the-fly averages
SYMS = {'no symmetry': 0, 'y reflection': 2, 'z reflection': 4, 'y and z reflection': 6, 'triaxial': 15, 'rotation about z': 16,
        'rotation about z, z reflection': 20, 'axisymmetric': 31}


def mono(x, e):
    v = ONE
    for a, n in zip(x, e):
        v = v * a ** n
    return v


def fact2(n):
    r = 1
    while n > 1:
        r *= n
        n -= 2
    return r


MONOS = [(0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 0, 0), (0, 0, 1), (1, 1, 0), (2, 2, 0), (2, 0, 2), (0, 2, 4), (3, 0, 1), (0, 0, 4),
         (4, 4, 0), (0, 0, 8), (2, 4, 8), (8, 0, 6), (0, 0, 14), (6, 2, 6), (5, 1, 2), (0, 3, 3), (0, 0, 13), (14, 0, 0), (1, 13, 0)]
def symset(e):
    s = {0}
    if e[1] % 2 == 0:
        s.add(2)
    if e[2] % 2 == 0:
        s.add(4)
    if e[1] % 2 == 0 and e[2] % 2 == 0:
        s.add(6)
    if not any(n % 2 for n in e):
        s.add(15)
    if e[0] == e[1] == 0:
        s.add(16)
        if e[2] % 2 == 0:
            s.add(31)
    return sorted(s)


for e, sy in [(e, sy) for e in MONOS for sy in symset(e)]:
    @contract('C04', 'spherical and azimuthal averages of x^%d y^%d z^%d are exact (declared symmetry %d)' % (e + (sy,)), maxvisits=2000, maxsteps=4000000)
    def monoavg(k, e=e, sy=sy):
        r = k.real('r', 'mod')
        a, b, c = e
        o = k.call('d_sphmono', sy, a, b, c, r, k.out(2))
        if any(n % 2 for n in e):
            v = ZERO
        else:
            v = q(Fraction(fact2(a - 1) * fact2(b - 1) * fact2(c - 1), fact2(a + b + c + 1))) * r ** (a + b + c)
        k.ensure_close('spherical average of the potential', o[0], v, sc=r ** (a + b + c))
        k.ensure_close('spherical average of the density', o[1], v, sc=r ** (a + b + c))
        d = k.call('d_sphmonod', sy, a, b, c, r, k.out(2))
        k.ensure_close('its derivative', d[0], D(v, r), sc=r ** max(a + b + c - 1, 0))
        k.ensure_close('its second derivative', d[1], D(D(v, r), r), sc=r ** max(a + b + c - 2, 0))
        R, z = k.real('R', 'mod'), k.real('z', 'modreal')
        o = k.call('d_aximono', sy, a, b, c, R, z, k.out(2))
        if a % 2 or b % 2:
            v = ZERO
        else:
            v = q(Fraction(fact2(a - 1) * fact2(b - 1), fact2(a + b))) * R ** (a + b) * z ** c
        k.ensure_close('azimuthal average of the potential', o[0], v, sc=R ** (a + b) * z ** c)
        k.ensure_close('azimuthal average of the density', o[1], v, sc=R ** (a + b) * z ** c)


for sn, sy in SYMS.items():
    @contract('C04', 'spherical average of any potential with %s: derivatives, any subset' % sn, budget=200, maxvisits=2000, maxsteps=4000000)
    def sphavg(k, sy=sy):
        r = k.real('r', lo=0)
        o = k.call('d_sph', sy, r, 7, k.out(3))
        k.ensure_close('derivative', o[1], k.D(o[0], r))
        k.ensure_close('second derivative', o[2], k.D(k.D(o[0], r), r))
        for mask in range(1, 7):
            p = k.call('d_sph', sy, r, mask, k.out(3))
            for i in range(3):
                if mask >> i & 1:
                    k.ensure_close('same output %d for subset %d' % (i, mask), p[i], o[i])

    @contract('C04', 'azimuthal average of any potential with %s: derivatives, any subset' % sn, budget=200, maxvisits=2000, maxsteps=4000000)
    def axiavg(k, sy=sy):
        R, z, phi = k.real('R', lo=0), k.real('z'), k.real('phi', ('angle',))
        V, g, h = k.call('d_axi', sy, [R, z, phi], 7, k.out(1), k.out(3), k.out(6))
        v, p = V[0], [R, z, phi]
        if sy & 16:     # nothing to average: identity
            k.ensure_eq('identity', v, uf('F0_4', p + [ZERO]))
            for i in range(3):
                k.ensure_eq('identity: gradient %d' % i, g[i], k.D(uf('F0_4', p + [ZERO]), p[i]))
            for n, (i, j) in enumerate(HESS):
                k.ensure_eq('identity: second derivative %d' % n, h[n], k.D(k.D(uf('F0_4', p + [ZERO]), p[i]), p[j]))
        else:
            for i in range(3):
                k.ensure_close('gradient %d' % i, g[i], k.D(v, p[i]))
            for n, (i, j) in enumerate(HESS):
                k.ensure_close('second derivative %d%d' % (i, j), h[n], k.D(k.D(v, p[i]), p[j]))
        for mask in range(1, 7):
            V2, g2, h2 = k.call('d_axi', sy, p, mask, k.out(1), k.out(3), k.out(6))
            if mask & 1:
                k.ensure_close('same value for subset %d' % mask, V2[0], v)
            for i in range(3):
                if mask & 2:
                    k.ensure_close('same gradient for subset %d' % mask, g2[i], g[i])
            for i in range(6):
                if mask & 4:
                    k.ensure_close('same second derivatives for subset %d' % mask, h2[i], h[i])


@contract('C04', 'averages of spherical (axisymmetric) input are the input itself')
def ident(k):
    r = k.real('r', lo=0)
    F = lambda d: uf('F0_4', [r, ZERO, ZERO, ZERO], d)
    o = k.call('d_sph', 63, r, 7, k.out(3))
    k.ensure_eq('value', o[0], F((0, 0, 0, 0)))
    k.ensure_eq('derivative', o[1], F((1, 0, 0, 0)))
    k.ensure_eq('second derivative', o[2], F((2, 0, 0, 0)))
    k.ensure_eq('density', k.call('d_sphrho', 63, r), F((0, 0, 0, 0)))
    k.ensure_eq('enclosed mass', k.call('d_pmass', 63, r), r * r * F((1, 0, 0, 0)))
    exclude_axis(k, 'Car', k.reals('x y z'))
    R, z, phi = k.real('R', lo=0), k.real('z'), k.real('phi', ('angle',))
    v = uf('F0_4', [R * fn('cos', phi), R * fn('sin', phi), z, ZERO])
    k.ensure_eq('axisymmetrised density', k.call('d_axirho', 31, [R, z, phi]), v)
    k.ensure_eq('axisymmetrised density, Car', k.call('d_axirhoCar', 31, k.reals('x y z')), uf('F0_4', k.reals('x y z') + [ZERO]))


@contract('C04', 'enclosed mass of any potential comes from its spherically averaged radial derivative', maxvisits=2000, maxsteps=4000000)
def pmass(k):
    r = k.real('r', lo=0)
    for sy in (0, 15, 31):
        o = k.call('d_sph', sy, r, 2, k.out(3))
        k.ensure_close('enclosed mass', k.call('d_pmass', sy, r), r * r * o[1])
