"""C13: spherical harmonics, multipole expansions of density and potential."""
from agv.engine import contract
from agv.terms import *
from agv import terms as T
from agv.symex import Ptr, nz
from agv.callees import rd

TUS = ['potential_base.cpp', 'math_sphharm.cpp', 'coord.cpp', 'math_core.cpp', 'math_specfunc.cpp', 'math_linalg.cpp', 'math_fit.cpp',
       'math_spline.cpp', 'cubature.cpp', 'utils.cpp', 'utils_config.cpp', 'math_random.cpp', 'math_geometry.cpp', 'math_sample.cpp',
       'potential_utils.cpp', 'potential_analytic.cpp']
DRV = ['drv_sphharm.cpp']
HALF = q(Fraction(1, 2))
exp, log = (lambda x: fn('exp', x)), (lambda x: fn('log', x))
sin, cos = (lambda x: fn('sin', x)), (lambda x: fn('cos', x))
TWO = lift(2)
XR, YR, ZR, MR, ZROT, ROT = 1, 2, 4, 8, 16, 32
TRI, AXI, SPH, BIS = 15, 31, 63, 12


def wr(sx, p, t, i=0):
    if p.r is not None:
        sx.store(Ptr(p.r, add(p.o, ic(8 * i))), t, 8)


# ---- associated Legendre functions by the Rodrigues formula: polynomials in c = cos(theta), s = sin(theta)
def legpoly(l, m):
    """{(i, j): a}: sum a c^i s^j = (-1)^m s^m d^m/dc^m P_l(c)"""
    p = {0: Fraction(1)}                      # (c^2-1)^l
    for _ in range(l):
        r = {}
        for i, a in p.items():
            r[i + 2] = r.get(i + 2, 0) + a
            r[i] = r.get(i, 0) - a
        p = r
    for _ in range(l + m):
        p = {i - 1: a * i for i, a in p.items() if i}
    n = Fraction((-1) ** m, 2 ** l)
    for i in range(1, l + 1):
        n /= i
    return {(i, m): a * n for i, a in p.items() if a}


def dtheta(p):
    r = {}
    for (i, j), a in p.items():
        if i:
            r[i - 1, j + 1] = r.get((i - 1, j + 1), 0) - a * i
        if j:
            r[i + 1, j - 1] = r.get((i + 1, j - 1), 0) + a * j
    return {k: a for k, a in r.items() if a}


def legval(p, c, s):
    r = ZERO
    for (i, j), a in p.items():
        r = r + q(a) * powi(c, i) * powi(s, j)
    return r


def legnorm(l, m):
    """square of the normalization times pi"""
    n = Fraction(2 * l + 1, 4)
    for i in range(l - m + 1, l + m + 1):
        n /= i
    return n


def W(l, m, c, s, d=0):
    p = legpoly(l, m)
    for _ in range(d):
        p = dtheta(p)
    return sqrt(q(legnorm(l, m)) / T.PI) * legval(p, c, s)


def ctst(tau):
    return TWO * tau / (ONE + tau * tau), (ONE - tau * tau) / (ONE + tau * tau)


for m in range(0, 5):
    for lmax in ([m, m + 3] if m else [0, 5]):
        for mask in (1, 3, 7):
            @contract('C13', 'Legendre functions, degrees %d to %d, order %d, outputs %d' % (m, lmax, m, mask))
            def sha(k, m=m, lmax=lmax, mask=mask):
                tau = k.real('tau', ('range', -0.97, 0.97))
                k.require(and_(lt(-ONE, tau), lt(tau, ONE)))
                if not k.native:
                    c, s = ctst(tau)
                    k.require(le(q(Fraction(1, 10**8) * Fraction(11, 10)), s))
                o = k.call('d_sha', lmax, m, mask, tau, k.out(30))
                c, s = ctst(tau)
                for l in range(m, lmax + 1):
                    for d in range(3):
                        if mask >> d & 1:
                            k.ensure_close('degree %d, derivative %d' % (l, d), o[10 * d + l - m], W(l, m, c, s, d), 1e-13)

for m in range(0, 5):
    @contract('C13', 'Legendre functions on the poles, order %d' % m)
    def pole(k, m=m):
        k.real('unused')
        for sg in (1, -1):
            for mask in (1, 3, 7):
                o = k.call('d_sha', m + 4, m, mask, lift(sg), k.out(30))
                for l in range(m, m + 5):
                    for d in range(3):
                        if mask >> d & 1:
                            k.ensure_close('degree %d, derivative %d' % (l, d), o[10 * d + l - m], W(l, m, lift(sg), ZERO, d), 1e-14, ONE)

for n in range(1, 6):
    for sine in (0, 1):
        @contract('C13', 'multiples of the angle up to %d%s' % (n, ', with sines' * sine))
        def trig(k, n=n, sine=sine):
            phi = k.real('phi', 'angle') if k.native else TWO * k.real('h', 'angle')
            o = k.call('d_trig', phi, n, sine, k.out(2 * n))
            for i in range(n):
                a = lift(i + 1) * phi
                k.ensure_eq('cosine of %d phi' % (i + 1), o[i], cos(a))
                if sine:
                    k.ensure_eq('sine of %d phi' % (i + 1), o[n + i], sin(a))


# ---- indexing: a coefficient may be nonzero if the symmetry does not forbid it
def zero(l, m, sym):
    return bool(sym & XR and (m < 0) != (m % 2 != 0) or sym & YR and m < 0 or sym & ZR and (l + m) % 2 or sym & MR and l % 2 or
                sym & ZROT and m or sym & ROT and l)


VALID = [s for s in range(16) if s & 7 != 7 or s & 8]


def members(lmax, mmax, sym):
    return [(l, m) for l in range(lmax + 1) for m in range(-min(l, mmax), min(l, mmax) + 1) if not zero(l, m, sym)]


def chkind(k, o, lmax, mmax, sym=None, must=()):
    """the index set of the object is the one of its symmetry"""
    k.ensure_eq('degree', o[0], lift(lmax))
    k.ensure_eq('order', o[1], lift(mmax))
    k.ensure_eq('number of coefficients', o[5], lift((lmax + 1)**2))
    if sym is not None:
        st = o[2]
        for m in range(-min(mmax, 5), min(mmax, 5) + 1):
            ls = [l for l in range(abs(m), lmax + 1) if not zero(l, m, sym)]
            if ls:
                k.ensure_eq('lowest degree of order %d' % m, o[11 + m], lift(ls[0]))
            else:
                k.ensure('no terms of order %d' % m, lt(lift(lmax), o[11 + m]))
            if len(ls) > 1:
                k.ensure_eq('step in degree', st, lift(ls[1] - ls[0]))
        neg = [m for l, m in members(lmax, mmax, sym) if m < 0]
        if neg:
            k.ensure_eq('lowest order', o[4], lift(-mmax))
        k.ensure('lowest order is -order or 0', or_(eq(o[4], lift(-mmax)), eq(o[4], ZERO)))
    for m in range(mmax + 1, 6):
        k.ensure('no orders beyond the maximum', and_(lt(lift(lmax), o[11 + m]), lt(lift(lmax), o[11 - m])))
    for l in range(5):
        for m in range(-l, l + 1):
            k.ensure_eq('index of (%d, %d) and its inverse' % (l, m), o[17 + l * l + l + m], lift((l * (l + 1) + m) * 1000 + l * 50 + m))


for lmax in range(5):
    for mmax in range(lmax + 1):
        @contract('C13', 'index sets of all symmetries, degree %d, order %d' % (lmax, mmax), maxsteps=10**7)
        def indset(k, lmax=lmax, mmax=mmax):
            k.real('unused')
            for sym in VALID + ([ZROT | 3, AXI, MR | ZROT] if mmax == 0 else []) + ([SPH] if lmax == 0 else []):
                o = k.call('d_ind', lmax, mmax, sym, k.out(42))
                chkind(k, o, lmax, mmax, sym)

for lmax in (0, 1, 2):
    @contract('C13', 'indices from the list of coefficients of degree %d' % lmax, maxpaths=600, maxsteps=10**7)
    def fromcoefs(k, lmax=lmax):
        n = (lmax + 1)**2
        if k.native:
            k.real('unused')
            pats = [[1] * n, [1] + [0] * (n - 1), [0] * n] + [[int(i == j) for i in range(n)] for j in range(n)]
        else:
            c = [k.real('c%d' % i, 'modreal') for i in range(n)]
            pats = [c]
        for c in pats:
            c = [lift(x) for x in c]
            o = k.call('d_fromcoefs', c, n, k.out(42))
            nz = [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1) if (c[l * l + l + m] != ZERO if k.native else not k.decide(eq(c[l * l + l + m], ZERO)))]
            mmax = max([abs(m) for l, m in nz] + [0])
            k.ensure_eq('degree', o[0], lift(lmax))
            k.ensure_eq('order', o[1], lift(mmax))
            sym = sum(b for b in (XR, YR, ZR, MR) if not any(zero(l, m, b) for l, m in nz))
            if not any(m for l, m in nz):
                sym |= ZROT
            if not any(l for l, m in nz):
                sym |= ROT
            k.ensure_eq('symmetry of the function with these coefficients', o[3], lift(sym))
            for l, m in nz:
                k.ensure('coefficient (%d, %d) is retained' % (l, m), and_(le(o[11 + m], lift(l)), le(o[4], lift(m)),
                         eq(o[2], ONE) if (l - abs(m)) % 2 and False else or_(eq(o[2], ONE), *[eq(o[11 + m], lift(j)) for j in range(l, -1, -2)])))

for nr in (2, -2):
    @contract('C13', 'indices from the coefficients at several radii' + ' (two arrays)' * (nr > 0), maxpaths=600, maxsteps=10**7)
    def fromcoefs2(k, nr=nr):
        x = k.real('x', 'modreal')
        k.require(not_(eq(x, ZERO)))
        n = 9
        for l in range(3):
            for m in range(-l, l + 1):
                for j in range(4 if nr > 0 else 2):
                    c = [ZERO] * (36 if nr > 0 else 18)
                    c[(j // 2) * 18 + (l * l + l + m) * 2 + j % 2] = x
                    o = k.call('d_fromcoefs2', c, n, nr, k.out(42))
                    k.ensure_eq('degree', o[0], lift(2))
                    k.ensure_eq('order', o[1], lift(abs(m)))
                    k.ensure('coefficient (%d, %d) is retained' % (l, m), and_(le(o[11 + m], lift(l)), le(o[4], lift(m)),
                             or_(eq(o[2], ONE), *[eq(o[11 + m], lift(i)) for i in range(l, -1, -2)])))

for mmax in range(5):
    @contract('C13', 'azimuthal harmonics of all symmetries, order %d' % mmax, maxsteps=10**7)
    def azi(k, mmax=mmax):
        k.real('unused')
        for sym in VALID + [ZROT, ZROT | 3, AXI, SPH]:
            o = k.call('d_azi', mmax, sym, k.out(12))
            ms = sorted({m for l, m in members(mmax + 2, mmax, sym)}, key=lambda m: (abs(m), m))
            k.ensure_eq('number of harmonics', o[0], lift(len(ms)))
            for i, m in enumerate(ms):
                k.ensure_eq('harmonic', o[1 + i], lift(m))

# ---- forward transforms
for mmax in (0, 1, 2, 3):
    for sine in (0, 1):
        for stride in (1, 3):
            @contract('C13', 'Fourier transform of order %d%s, stride %d' % (mmax, ' with sines' * sine, stride), maxsteps=10**7)
            def four(k, mmax=mmax, sine=sine, stride=stride):
                n = 2 * mmax + 1 if sine else mmax + 1
                v = [k.real('v%d' % i, 'modreal') for i in range(n * stride)]
                o = k.call('d_four', mmax, sine, stride, v, k.out(1 + 2 * n))
                k.ensure_eq('size', o[0], lift(n))
                dphi = TWO * T.PI / lift(2 * mmax + 1)
                for i in range(n):
                    k.ensure_close('node', o[1 + i], lift(i) * dphi, 1e-14, ONE)
                for i in range(n):
                    m = i - mmax if sine else i
                    r = ZERO
                    for j in range(2 * mmax + 1):
                        f = v[(j if sine else min(j, 2 * mmax + 1 - j)) * stride]
                        r = r + f * (cos(lift(m * j) * dphi) if m >= 0 else sin(lift(-m * j) * dphi)) * dphi
                    k.ensure_close('integral of the function times the harmonic %d' % m, o[1 + n + i], r, 1e-13)


def basis(l, m, c, s, phi):
    """basis function"""
    return sqrt(q(legnorm(l, abs(m)) * 4)) * legval(legpoly(l, abs(m)), c, s) * (ONE if m == 0 else sqrt(TWO) * (cos(lift(m) * phi) if m > 0 else sin(lift(-m) * phi)))


def gauss(n):
    import mpmath
    with mpmath.workdps(40):
        p = lambda x: mpmath.legendre(n, x)
        r = []
        for x in sorted(mpmath.polyroots(mpmath.taylor(p, 0, n)[::-1], maxsteps=200, extraprec=200), key=lambda x: -mpmath.re(x)):
            x = mpmath.re(x)
            w = 2 / ((1 - x * x) * mpmath.diff(p, x)**2)
            r.append((Fraction(int(mpmath.nint(x * 10**30)), 10**30), Fraction(int(mpmath.nint(w * 10**30)), 10**30)))
        return r


CFG = [(0, 0, SPH), (1, 1, 0), (2, 2, 0), (2, 1, YR), (2, 2, TRI), (3, 3, YR), (3, 2, ZR), (4, 4, BIS), (4, 2, TRI), (4, 0, AXI), (3, 0, ZROT | 3), (3, 3, MR),
       (3, 3, XR), (2, 2, YR | ZR), (2, 2, YR | MR), (3, 3, XR | YR)]
for lmax, mmax, sym in CFG:
    @contract('C13', 'forward transform, degree %d, order %d, symmetry %d' % (lmax, mmax, sym), maxvisits=400, maxsteps=10**8, budget=200)
    def fwd(k, lmax=lmax, mmax=mmax, sym=sym):
        full = sym | (ZROT | 3 if mmax == 0 else 0) | (SPH if lmax == 0 else 0)
        nt = lmax // 2 + 1 if full & ZR else lmax + 1
        nf = mmax + 1 if full & YR else 2 * mmax + 1
        st = 1 if lmax != 2 else 2
        n = nt * nf
        v = [k.real('v%d' % i, 'modreal') for i in range(n * st)]
        nc = (lmax + 1)**2
        o = k.call('d_fwd', lmax, mmax, sym, st, v, k.out(1 + 2 * n + nc))
        k.ensure_eq('size', o[0], lift(n))
        gl = gauss(lmax + 1)
        dphi = TWO * T.PI / lift(2 * mmax + 1)
        for j in range(nt):
            for i in range(nf):
                k.ensure_close('node in theta', o[1 + 2 * (j * nf + i)], q(gl[j][0]), 1e-14, ONE)
                k.ensure_close('node in phi', o[2 + 2 * (j * nf + i)], lift(i) * dphi, 1e-14, ONE)
        mem = members(lmax, mmax, full)
        for l in range(lmax + 1):
            for m in range(-l, l + 1):
                r = ZERO
                if (l, m) in mem:
                    for j in range(lmax + 1):
                        x, w = gl[j]
                        y = basis(l, m, q(x), sqrt(q(1 - x * x)), ZERO)
                        jj = j if j < nt else lmax - j
                        for i in range(2 * mmax + 1):
                            ii = i if i < nf else 2 * mmax + 1 - i
                            r = r + v[(jj * nf + ii) * st] * basis(l, m, q(x), sqrt(q(1 - x * x)), lift(i) * dphi) * q(w) * dphi / (lift(4) * T.PI)
                k.ensure_close('coefficient (%d, %d)' % (l, m), o[1 + 2 * n + l * l + l + m], r, 1e-12, sum(v, ZERO))

    @contract('C13', 'forward transform inverts the inverse one, degree %d, order %d, symmetry %d' % (lmax, mmax, sym), maxvisits=400, maxsteps=10**8, budget=200)
    def roundtrip(k, lmax=lmax, mmax=mmax, sym=sym):
        full = sym | (ZROT | 3 if mmax == 0 else 0) | (SPH if lmax == 0 else 0)
        nt = lmax // 2 + 1 if full & ZR else lmax + 1
        nf = mmax + 1 if full & YR else 2 * mmax + 1
        nc = (lmax + 1)**2
        mem = members(lmax, mmax, full)
        c = [k.real('c%d' % i, 'modreal') for i in range(nc)]
        gl = gauss(lmax + 1)
        dphi = TWO * T.PI / lift(2 * mmax + 1)
        v = []
        for j in range(nt):
            for i in range(nf):
                x = q(gl[j][0])
                tau = x / (ONE + sqrt(ONE - x * x))
                v.append(k.call('d_inv', lmax, mmax, sym, c, tau, lift(i) * dphi, k.out(1))[0])
        o = k.call('d_fwd', lmax, mmax, sym, 1, v, k.out(1 + 2 * nt * nf + nc))
        for l, m in mem:
            k.ensure_close('coefficient (%d, %d)' % (l, m), o[1 + 2 * nt * nf + l * l + l + m], c[l * l + l + m], 1e-11, sum(c, ZERO))


# ---- inverse transforms: Legendre functions and trigonometric functions are represented by their contracts
def c_sha(sx, av):
    """math::sphHarmArray: W_l^m(tau) and the derivatives by the polar angle (dtau/dtheta = -(1+tau^2)/2)"""
    lmax, m, tau = av[0].args[0], av[1].args[0], av[2]
    g = -(ONE + tau * tau) * HALF
    for l in range(m, lmax + 1):
        f = lambda d: uf('W%d_%d' % (l, m), [tau], (d,))
        wr(sx, av[3], f(0), l - m)
        wr(sx, av[4], f(1) * g, l - m)
        wr(sx, av[5], f(2) * g * g - f(1) * tau * g, l - m)
    return None


def c_trig(sx, av):
    """math::trigMultiAngle: cos(k phi) and sin(k phi), k = 1..m"""
    m = av[1].args[0]
    sine = av[2]
    sine = sine.args[0] if sine.op == 'i' else sx.decide(sine)
    for i in range(m):
        wr(sx, av[3], cos(lift(i + 1) * av[0]), i)
        if sine:
            wr(sx, av[3], sin(lift(i + 1) * av[0]), m + i)
    return None


TRIG = {'math::trigMultiAngle(double, unsigned int, bool, double*)': c_trig}
STUB = dict(TRIG, **{'math::sphHarmArray(unsigned int, unsigned int, double, double*, double*, double*)': c_sha})


def Wf(k, l, m, tau):
    return W(l, m, *ctst(tau)) if k.native else uf('W%d_%d' % (l, m), [tau])


def harm(k, l, m, tau, phi):
    """basis function over the normalized Legendre function"""
    return Wf(k, l, abs(m), tau) * TWO * sqrt(T.PI) * (ONE if m == 0 else sqrt(TWO) * (cos(lift(m) * phi) if m > 0 else sin(lift(-m) * phi)))


for lmax, mmax, sym in CFG:
    full = sym | (ZROT | 3 if mmax == 0 else 0) | (SPH if lmax == 0 else 0)

    @contract('C13', 'inverse transform, degree %d, order %d, symmetry %d' % (lmax, mmax, sym), callees=STUB)
    def inv(k, lmax=lmax, mmax=mmax, sym=sym, full=full):
        tau, phi = k.real('tau', ('range', -0.97, 0.97)), k.real('phi', 'angle') if k.native else TWO * k.real('h', 'angle')
        k.require(and_(le(-ONE, tau), le(tau, ONE)))
        c = [k.real('c%d' % i, 'modreal') for i in range((lmax + 1)**2)]
        o = k.call('d_inv', lmax, mmax, sym, c, tau, phi, k.out(1))
        k.ensure_eq('sum of harmonics', o[0], sum([c[l * l + l + m] * harm(k, l, m, tau, phi) for l, m in members(lmax, mmax, full)], ZERO))

    for mask in (1, 2, 4, 7):
        @contract('C13', 'azimuthal transform, order %d, symmetry %d, outputs %d' % (mmax, sym, mask), callees=TRIG)
        def azim(k, lmax=lmax, mmax=mmax, sym=sym, mask=mask, full=full):
            phi = k.real('phi', 'angle')
            neg = not full & YR
            nm = 2 * mmax + 1 if neg else mmax + 1
            c = [k.real('c%d' % i, 'modreal') for i in range(6 * nm)]
            o = k.call('d_azim', lmax, mmax, sym, phi, c, mask, k.out(10))
            ms = {m for l, m in members(lmax, mmax, full)}
            f = lambda i, d=0: sum([c[i * nm + (m + mmax if neg else m)] * trigd(m, phi, d) for m in ms], ZERO)
            ref = [f(0), f(1), f(2), f(0, 1), f(3), f(5), f(0, 2), f(4), f(2, 1), f(1, 1)]
            outcmp(k, o, ref, mask)


def trigd(m, phi, d):
    a = lift(abs(m)) * phi
    f = [cos(a), -lift(m) * sin(a), -lift(m * m) * cos(a)] if m >= 0 else [sin(a), -lift(m) * cos(a), -lift(m * m) * sin(a)]
    return f[d]


NAMES = ['value', 'derivative by the 1st coordinate', 'derivative by the 2nd coordinate', 'derivative by phi'] + ['second derivative %d' % i for i in range(6)]


def outcmp(k, o, ref, mask, close=None):
    for i in range(10):
        if mask & (1 if i == 0 else 2 if i < 4 else 4):
            if close:
                k.ensure_close(NAMES[i], o[i], ref[i], close)
            else:
                k.ensure_eq(NAMES[i], o[i], ref[i])


def pw(x, p):
    return ONE if p == 0 else x**p if p > 0 else ONE / x**(-p)


def basisd(l, m, c, s, phi, d, e):
    """d-th derivative by theta and e-th by phi of the basis function"""
    p = legpoly(l, abs(m))
    for _ in range(d):
        p = dtheta(p)
    return sqrt(q(legnorm(l, abs(m)) * (4 if m == 0 else 8))) * legval(p, c, s) * trigd(m, phi, e)


def desqrt(o, v):
    """the square root of v^2 in a term is v > 0"""
    from agv import numpoly
    m = {}
    st, seen = [o], set()
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'fn' and t.args[0] == 'sqrt' and numpoly.near(t.args[1], v * v, 1e-25)[0]:
            m[t] = v
        st.extend(kids(t))
    return subst(o, m) if m else o


for lmax, mmax, sym in [(2, 2, s) for s in VALID] + [(2, 1, s) for s in VALID if not (s & ZR and s & MR)] + [(2, 0, AXI), (2, 0, ZROT | 3), (1, 1, 0), (3, 3, YR), (3, 3, 0), (4, 4, TRI), (3, 2, ZR), (1, 0, ZROT | 3), (3, 3, MR), (3, 3, XR)]:
    full = sym | (ZROT | 3 if mmax == 0 else 0)
    for mask in (1, 2, 3, 4, 7):
        if lmax > 2 and mask in (2, 4):
            continue

        @contract('C13', 'inverse transform with derivatives, degree %d, order %d, symmetry %d, outputs %d' % (lmax, mmax, sym, mask), callees=TRIG)
        def invder(k, lmax=lmax, mmax=mmax, sym=sym, mask=mask, full=full):
            rho, t, phi = k.real('rho', 'mod'), k.real('tau', ('range', -0.97, 0.97)), k.real('phi', 'angle')
            k.require(and_(lt(-ONE, t), lt(t, ONE)))
            c0, s0 = ctst(t)
            if not k.native:
                k.require(lt(q(Fraction(1, 10**7)), s0))
            r = rho * (ONE + t * t)
            n = (lmax + 1)**2
            c = [k.real('c%d' % i, 'modreal') for i in range(3 * n)]
            o = k.call('d_invder', lmax + 16 * mmax + 256 * sym, c, [rho * (ONE - t * t), TWO * rho * t, phi], mask, k.out(10))
            if not k.native:
                o = [desqrt(x, r) if x is not None else x for x in o]
            f = lambda i, d, e: sum([c[i * n + l * l + l + m] * basisd(l, m, c0, s0, phi, d, e) for l, m in members(lmax, mmax, full)], ZERO)
            ref = [f(0, 0, 0), f(1, 0, 0), f(0, 1, 0), f(0, 0, 1), f(2, 0, 0), f(0, 2, 0), f(0, 0, 2), f(1, 1, 0), f(0, 1, 1), f(1, 0, 1)]
            outcmp(k, o, ref, mask, 1e-12)

for mask in (2, 4, 6):
    @contract('C13', 'derivatives by log-radius and angles to those by R and z, outputs %d' % mask)
    def cylder(k, mask=mask):
        R, z, phi = k.real('R', 'mod'), k.real('z', 'modreal'), k.real('phi', 'angle')
        if k.native:
            # a function with known derivatives: f = exp(a L) cos(b theta + c phi)
            a, b, c = k.reals('a b c')
            L, th = log(R * R + z * z) * HALF, fn('atan2', R, z)
            e, g, h = exp(a * L), cos(b * th + c * phi), sin(b * th + c * phi)
            f = [e * g, a * e * g, -b * e * h, -c * e * h, a * a * e * g, -b * b * e * g, -c * c * e * g, -a * b * e * h, -b * c * e * g, -a * c * e * h]
            o = k.call('d_cylder', [R, z, phi], f, mask, k.out(10))
            F = e * g
        else:
            L, th = log(R * R + z * z) * HALF, fn('atan2', R, z)
            F = uf('F', [L, th, phi])
            d = lambda *n: uf('F', [L, th, phi], n)
            f = [F, d(1, 0, 0), d(0, 1, 0), d(0, 0, 1), d(2, 0, 0), d(0, 2, 0), d(0, 0, 2), d(1, 1, 0), d(0, 1, 1), d(1, 0, 1)]
            o = k.call('d_cylder', [R, z, phi], f, mask, k.out(10))
        g = [k.D(F, x) for x in (R, z, phi)]
        ref = [F] + g + [k.D(g[0], R), k.D(g[1], z), k.D(g[2], phi), k.D(g[0], z), k.D(g[1], phi), k.D(g[0], phi)]
        outcmp(k, o, ref, mask)


# ---- asymptotic power laws
def c_lambertw(sx, av):
    """math::lambertW: solution of w exp(w) = x on the given branch"""
    b = av[1]
    sx.lw = fn('LambertWm1' if (b.args[0] if b.op == 'i' else sx.decide(b if b.sort == 'B' else not_(eq(b, ic(0))))) else 'LambertW0', av[0])
    return sx.lw



LW = dict(STUB, **{'math::lambertW(double, bool)': c_lambertw})
DBL_EPS = q(Fraction(1, 2**52))
absx, mx, mn = (lambda x: fn('abs', x)), (lambda a, b: ite(lt(a, b), b, a)), (lambda a, b: ite(lt(b, a), b, a))
for v in (0, 1, 2, -1, -2, -3):
    @contract('C13', 'coefficients of extrapolation, vacuum exponent %d' % v, callees=LW, maxpaths=3000, budget=200, fb_tol=1e-5)
    def extrap(k, v=v):
        r1, r2 = k.real('r1', 'mod', lo=0, strict=True), k.real('r2', 'mod', lo=0, strict=True)
        s0 = k.real('s0', ('range', -2, 3)) if v < 0 else k.real('s0', ('range', -0.5, 2))
        k.require(lt(r1, r2) if v >= 0 else lt(r2, r1))
        if k.native:
            # coefficients are recovered from the power law with given ones
            sx, u, w = k.real('s', ('range', -2.5, -0.2) if v < 0 else ('range', 0.2, 2.5)), k.real('u', 'modreal'), k.real('w', 'modreal')
            k.require(lt(absx(sx - lift(v)), q(Fraction(1, 20))) if False else lt(q(Fraction(1, 20)), absx(sx - lift(v))))
            k.require(and_(lt(q(Fraction(1, 5)), absx(u)), lt(q(Fraction(1, 5)), absx(w)), lt(q(Fraction(1, 3)), absx(log(r2 / r1)))))
            k.require(le(s0, sx) if v >= 0 else le(sx, s0))
            x = r2 / r1
            p2 = w * powi(x, v) + u * fn('pow', x, sx)
            o = k.call('d_extrap', [w + u, p2, (w * lift(v) + u * sx) / r1, r1, r2, s0], v, k.out(3))
            k.ensure_eq('exponent', o[0], sx)
            k.ensure_eq('amplitude of the power law', o[1], u)
            k.ensure_eq('amplitude of the vacuum term', o[2], w)
            return
        P1, P2, d1 = k.reals('Phi1 Phi2 dPhi1')
        o = k.call('d_extrap', [P1, P2, d1, r1, r2, s0], v, k.out(3))
        s, U, Wc = o
        lnr = log(r2 / r1)
        n1, n2, d2 = r1 * d1, lift(v) * P1, P2 * exp(-lift(v) * lnr)
        if k.decide(eq(P1, d2)):
            k.ensure_eq('value at the boundary', U + Wc if not k.decide(eq(s, lift(v))) else Wc, P1)
            return
        A = lnr * (n1 - n2) / (P1 - d2)
        SAF = 100 * DBL_EPS
        if k.decide(or_(le(ZERO, A), lt(absx(n1 - n2), mx(absx(n1), absx(n2)) * SAF), lt(absx(P1 - d2), mx(absx(P1), absx(d2)) * SAF))):
            k.ensure_eq('no power-law term', U, ZERO)
            k.ensure_eq('vacuum term', Wc, P1)
            return
        deg = k.decide(eq(s, lift(v)))
        k.ensure_eq('value at the boundary', Wc if deg else U + Wc, P1)
        k.ensure_eq('derivative at the boundary', (U if deg else s * U) + lift(v) * Wc, r1 * d1)
        if k.decide(lt(absx(A + ONE), q(Fraction(2)**-26))):
            sn = lift(v)
        else:
            w = k.sx.lw
            k.ensure_eq('argument of the Lambert function', w.args[1], A * exp(A))
            # the other solution than A itself
            k.ensure('branch of the Lambert function', TRUE if w.args[0] == ('LambertWm1' if k.decide(lt(-ONE, A)) else 'LambertW0') else FALSE)
            sn = lift(v) + (A - w) / lnr
        if v < 0 and k.decide(le(ZERO, sn)):
            sn = -TWO
        sx = sn if v in (0, -1) else mx(sn, s0) if v > 0 else mn(sn, s0)
        if not deg or sn is lift(v):
            k.ensure_eq('exponent', s, sx)
        if v < 0 and v != -1:
            k.ensure('outer slope is not shallower than that of the main harmonic', le(s, s0))
        if v > 0:
            k.ensure('inner slope is not steeper than that of the main harmonic', le(s0, s))


@contract('C13', 'the extrapolated law matches the second value')
def lawmatch(k):
    """lemma: the exponent from A = x/(1-e^x) reproduces Phi(r2)"""
    if k.native:
        k.ensure('lemma', TRUE)
        return
    w, A, P1, n, v, l = k.reals('w A P1 n v lnr')
    for t in (A, l, A - w, n):
        k.require(not_(eq(t, ZERO)))
    # w exp(w) = A exp(A): exp(A - w) = w / A;  A = lnr n / (P1 - d2), n = r1 dPhi1 - v Phi1
    d2 = P1 - l * n / A
    s = v + (A - w) / l
    U = n / (s - v)
    k.ensure_eq('value at the second radius', (P1 - U) + U * (w / A), d2)


# ---- potentials given by coefficients: the transform is represented by its contract
def basis2(l, m, tau, phi, d, e):
    """basis function and derivatives by theta and phi in terms of abstract Legendre functions of tau"""
    g = -(ONE + tau * tau) * HALF
    f = lambda n: uf('W%d_%d' % (l, abs(m)), [tau], (n,))
    p = [f(0), f(1) * g, f(2) * g * g - f(1) * tau * g][d]
    return p * (ONE if m == 0 else sqrt(TWO)) * TWO * sqrt(T.PI) * trigd(m, phi, e)


def terms(sx, ind):
    p = sx.call(sx.prog.find(None, '@d_lm'), [ind])
    n = int(rd(sx, p, 0).args[0])
    return [(int(rd(sx, p, 1 + 2 * i).args[0]), int(rd(sx, p, 2 + 2 * i).args[0])) for i in range(n)]


def c_invder(sx, av):
    """sphHarmTransformInverseDeriv"""
    ind, pos, c, val, grad, hess = av[0], av[1], av[2:5], av[5], av[6], av[7]
    R, z, phi = [rd(sx, pos, i) for i in range(3)]
    tau = z / (sqrt(R * R + z * z) + R)
    tm = terms(sx, ind)
    f = lambda i, d, e: sum([rd(sx, c[i], l * l + l + m) * basis2(l, m, tau, phi, d, e) for l, m in tm], ZERO)
    if val.r is not None:
        wr(sx, val, f(0, 0, 0))
    if grad.r is not None:
        for j, a in enumerate([(1, 0, 0), (0, 1, 0), (0, 0, 1)]):
            wr(sx, grad, f(*a), j)
    if hess.r is not None:
        for j, a in enumerate(HORD):
            wr(sx, hess, f(*a), j)
    return None


def c_inv(sx, av):
    """math::sphHarmTransformInverse"""
    tau, phi = av[2], av[3]
    return sum([rd(sx, av[1], l * l + l + m) * basis2(l, m, tau, phi, 0, 0) for l, m in terms(sx, av[0])], ZERO)


HORD = [(2, 0, 0), (0, 2, 0), (0, 0, 2), (1, 1, 0), (0, 1, 1), (1, 0, 1)]
SHT = {'math::sphHarmTransformInverse(math::SphHarmIndices const&, double const*, double, double)': c_inv,
       'potential::(anonymous namespace)::sphHarmTransformInverseDeriv(math::SphHarmIndices const&, coord::PosT<coord::Cyl> const&, double const*, double const*, double const*, double*, coord::GradT<coord::Sph>*, coord::HessT<coord::Sph>*)': c_invder}
PLC = [(0, 0, SPH), (1, 1, 0), (2, 2, TRI), (2, 0, AXI), (2, 2, YR | ZR), (3, 3, YR), (1, 0, ZROT | 3)]


def plpar(k, inner, lmax, mmax, full, s0=None):
    """coefficients: U, W vanish for terms outside the symmetry"""
    n = (lmax + 1)**2
    mem = members(lmax, mmax, full)
    S, U, Wc = [ZERO] * n, [ZERO] * n, [ZERO] * n
    for l, m in mem:
        c = l * l + l + m
        S[c] = (lift(s0) if s0 is not None else k.real('S%d' % c, ('range', 0, 1.2) if inner else ('range', -3, -1.2))) if not c else S[0] + (ONE if inner else -ONE) * k.real('dS%d' % c, ('range', 0.1, 1.5), lo=0)
        U[c], Wc[c] = k.real('U%d' % c, 'modreal'), k.real('W%d' % c, 'modreal')
        if (l, m) == mem[-1] or len(mem) < 5 or m or l == mem[-1][0]:
            k.require(not_(eq(U[c], ZERO)))
        if len(mem) > 4 and c:
            k.require(not_(eq(S[c], ZERO)))
            if len(mem) > 6:
                k.require(not_(eq(S[c], TWO)))
    return n, mem, S, U, Wc


for inner in (1, 0):
    for lmax, mmax, sym in PLC:
        full = sym | (ZROT | 3 if mmax == 0 else 0) | (SPH if lmax == 0 else 0)
        for mask in (1, 3, 4, 7, 8):
            @contract('C13', 'power-law %s extrapolation, degree %d, order %d, symmetry %d, ' % ('inner' if inner else 'outer', lmax, mmax, sym) + ('outputs %d' % mask if mask < 8 else 'density'),
                      callees=SHT, maxpaths=2000, budget=300, ring_s=60)
            def plm(k, inner=inner, lmax=lmax, mmax=mmax, full=full, mask=mask):
                r0 = k.real('r0', 'mod', lo=0, strict=True)
                n, mem, S, U, Wc = plpar(k, inner, lmax, mmax, full)
                R, z, phi = k.real('R', 'mod', lo=0, strict=True), k.real('z', 'modreal'), k.real('phi', 'angle')
                rsq = R * R + z * z
                if lmax:
                    k.require(lt(r0 * r0 * q(Fraction(1, 10**15)), rsq) if inner else lt(rsq, r0 * r0 * q(10**15)))
                for l, m in mem:
                    v = l if inner else -l - 1
                    k.require(not_(eq(S[l * l + l + m], lift(v))))
                o = k.call('d_pl', inner, n, [r0] + S + U + Wc, [R, z, phi], mask, k.out(10))
                lr = log(rsq / (r0 * r0)) * HALF
                tau = z / (sqrt(rsq) + R)
                F = ZERO
                x = var('%lr')
                for l, m in mem:
                    c = l * l + l + m
                    v = lift(l if inner else -l - 1)
                    f = U[c] * exp(x * S[c]) + Wc[c] * exp(x * v)
                    if mask == 8:     # Laplacian of the power law divided by 4 pi
                        f = (D(D(f, x), x) + D(f, x) - lift(l * (l + 1)) * f) * exp(-TWO * x) / (r0 * r0 * lift(4) * T.PI)
                    f = subst(f, {x: lr})
                    F = F + f * (harm(k, l, m, tau, phi) if lmax else ONE)
                if mask == 8:
                    k.ensure_eq('density', o[0], F)
                    return
                ders(k, o, F, R, z, phi, mask)


def ders(k, o, F, R, z, phi, mask):
    p = phi
    if phi.op != 'var':
        p = [x for x in variables(phi)][0]
    sc = ONE if p is phi else HALF
    g = [F] + [k.D(F, R), k.D(F, z), k.D(F, p) * sc] if mask & 6 else [F]
    if mask & 4:
        g += [k.D(g[1], R), k.D(g[2], z), k.D(g[3], p) * sc, k.D(g[1], z), k.D(g[2], p) * sc, k.D(g[1], p) * sc]
    outcmp(k, o, g + [None] * 10, mask)


# the logarithmic case s = v, and terms without the power-law part (zero Laplacian, given by W only)
for inner in (1, 0):
    for lmax, mmax, sym in [(0, 0, SPH), (1, 1, 0), (2, 2, TRI), (2, 0, AXI), (2, 1, ZR)]:
        full = sym | (ZROT | 3 if mmax == 0 else 0) | (SPH if lmax == 0 else 0)
        mem = members(lmax, mmax, full)
        for kind in ('logarithmic', 'harmonic'):
            for lc, mc in mem:
                if lmax and not lc and kind == 'harmonic' or kind == 'logarithmic' and lc and (lc, mc) != mem[-1]:
                    continue
                if kind == 'harmonic' and lmax and (lc, mc) != mem[-1]:
                    continue
                for mask in (1, 3, 7, 8):
                    @contract('C13', '%s term (%d, %d), %s extrapolation, degree %d, order %d, symmetry %d, ' % (kind, lc, mc, 'inner' if inner else 'outer', lmax, mmax, sym) + ('outputs %d' % mask if mask < 8 else 'density'),
                              callees=SHT, maxpaths=2000, budget=300, ring_s=60)
                    def pllog(k, inner=inner, lmax=lmax, mmax=mmax, full=full, mask=mask, kind=kind, lc=lc, mc=mc):
                        r0 = k.real('r0', 'mod', lo=0, strict=True)
                        n, mem, S, U, Wc = plpar(k, inner, lmax, mmax, full, None if kind == 'harmonic' or lc else 0 if inner else -1)
                        c = lc * lc + lc + mc
                        vc = lift(lc if inner else -lc - 1)
                        if kind == 'harmonic':
                            for l, m in mem:
                                if l or not lmax:
                                    U[l * l + l + m] = ZERO
                                    k.require(not_(eq(Wc[l * l + l + m], ZERO)))
                        else:
                            S[c] = vc
                            if c:
                                k.require(le(S[0], vc) if inner else le(vc, S[0]))
                        R, z, phi = k.real('R', 'mod', lo=0, strict=True), k.real('z', 'modreal'), k.real('phi', 'angle')
                        rsq = R * R + z * z
                        if lmax:
                            k.require(lt(r0 * r0 * q(Fraction(1, 10**15)), rsq) if inner else lt(rsq, r0 * r0 * q(10**15)))
                        for l, m in mem:
                            if (l, m) != (lc, mc) or kind == 'harmonic':
                                if mask == 8 and lmax > 1:
                                    k.require(not_(eq(S[l * l + l + m], TWO)))
                                k.require(not_(eq(S[l * l + l + m], lift(l if inner else -l - 1))))
                                k.require(not_(eq(S[l * l + l + m], ZERO)))
                        o = k.call('d_pl', inner, n, [r0] + S + U + Wc, [R, z, phi], mask, k.out(10))
                        lr = log(rsq / (r0 * r0)) * HALF
                        tau = z / (sqrt(rsq) + R)
                        F = ZERO
                        x = var('%lr')
                        for l, m in mem:
                            i = l * l + l + m
                            v = lift(l if inner else -l - 1)
                            f = U[i] * exp(x * S[i]) * (x if kind == 'logarithmic' and i == c else ONE) + Wc[i] * exp(x * v)
                            if mask == 8:
                                f = (D(D(f, x), x) + D(f, x) - lift(l * (l + 1)) * f) * exp(-TWO * x) / (r0 * r0 * lift(4) * T.PI)
                            F = F + subst(f, {x: lr}) * (harm(k, l, m, tau, phi) if lmax else ONE)
                        if mask == 8:
                            k.ensure_eq('density', o[0], F)
                            return
                        ders(k, o, F, R, z, phi, mask)


# ---- interpolated potentials and densities: splines are abstract functions of log-radius
NAMED = {}


def c_reg(sx, av):
    sx.__dict__.setdefault('named', {})[id(av[0].r), av[0].o] = av[1].args[0]
    return None


def c_spline(sx, av):
    i = sx.named[id(av[0].r), av[0].o]
    for d, p in enumerate(av[2:]):
        wr(sx, p, uf('S%d' % i, [av[1]], (d,)))
    return None


SPL = {'agv_reg': c_reg}
for nm in ('Quintic', 'Cubic'):
    SPL['math::%sSpline::evalDeriv(double, double*, double*, double*) const' % nm] = c_spline
    SPL['math::%sSpline::evalDeriv(double, double*, double*, double*, double*) const' % nm] = c_spline


def interpcoef(k, idx, nr, mem, n, neg=True):
    """data of a natively constructed object"""
    r = [k.real('r%d' % i, ('range', 0.3 * 3**i, 0.6 * 3**i), lo=0) for i in range(nr)]
    for i in range(nr):
        if i:
            k.require(lt(r[i - 1] * q(Fraction(11, 10)), r[i]))
    P, dP = [ZERO] * (n * nr), [ZERO] * (n * nr)
    for l, m in mem:
        for i in range(nr):
            c = (l * l + l + m) * nr + i
            P[c], dP[c] = k.real('P%d' % c, ('range', -1 / (1. + 3**i), -0.8 / (1 + 3**i)) if neg and not l else 'real'), k.real('dP%d' % c, ('range', 0.1 * 3**(-2 * i), 0.2 * 3**(-2 * i)) if neg and not l else 'real')
    return r, P, dP


for lmax, mmax, sym in [(0, 0, SPH), (1, 1, 0), (2, 2, TRI), (2, 0, AXI), (2, 1, ZR), (3, 3, YR)]:
    full = sym | (ZROT | 3 if mmax == 0 else 0) | (SPH if lmax == 0 else 0)
    for lsc in (1, 0):
        for mask in (1, 2, 4, 7):
            if lmax > 2 and mask in (2, 4):
                continue

            @contract('C13', 'interpolated potential, degree %d, order %d, symmetry %d, %s, outputs %d' % (lmax, mmax, sym, 'logarithmic scaling' if lsc else 'no scaling', mask),
                      callees=dict(SHT, **SPL), maxpaths=500, budget=300, ring_s=100, fb_tol=1e-6)
            def m1(k, lmax=lmax, mmax=mmax, sym=sym, full=full, lsc=lsc, mask=mask):
                n = (lmax + 1)**2
                mem = members(lmax, mmax, full)
                if k.native:
                    # an actual object: values and derivatives at the nodes are the input ones
                    r, P, dP = interpcoef(k, 0, 3, mem, n, lsc)
                    th, phi = k.real('theta', ('range', 0.3, 2.7)), k.real('phi', 'angle')
                    ct, st = cos(th), sin(th)
                    tau = ct / (ONE + st)
                    o = k.call('d_m1', lmax + 16 * mmax + 256 * sym + 65536, ZERO, r + P + dP, [r[1] * st, r[1] * ct, phi], mask & 3, k.out(10)) if mask & 3 else None
                    f = lambda a: sum([a[(l * l + l + m) * 3 + 1] * (harm(k, l, m, tau, phi) if lmax else ONE) for l, m in mem], ZERO)
                    k.ensure('evaluated', TRUE)
                    if mask & 1:
                        k.ensure_eq('value', o[0], f(P))
                    if mask & 2:
                        k.ensure_eq('radial derivative', o[1] * st + o[2] * ct, f(dP))
                    return
                iP = k.real('iphi', hi=0, strict=False) if lsc else ZERO
                R, z, phi = k.real('R', 'mod', lo=0, strict=True), k.real('z', 'modreal'), k.real('phi', 'angle')
                rsq = R * R + z * z
                o = k.call('d_m1', lmax + 16 * mmax + 256 * sym + 131072 * lsc, iP, [ZERO], [R, z, phi], mask, k.out(10))
                lr = log(sqrt(rsq))
                tau = z / (sqrt(rsq) + R)
                S = lambda c: uf('S%d' % c, [lr])
                P0 = ONE / (iP - exp(S(0))) if lsc else S(0)
                F = ZERO
                for l, m in mem:
                    c = l * l + l + m
                    F = F + (P0 if not c else S(c) * P0 if lsc else S(c)) * (harm(k, l, m, tau, phi) if lmax else ONE)
                ders(k, o, F, R, z, phi, mask)

        @contract('C13', 'interpolated density, degree %d, order %d, symmetry %d, %s' % (lmax, mmax, sym, 'logarithmic scaling' if lsc else 'no scaling'),
                  callees=dict(SHT, **SPL), maxpaths=500, budget=300, ring_s=100, fb_tol=1e-6)
        def dn(k, lmax=lmax, mmax=mmax, sym=sym, full=full, lsc=lsc):
            n = (lmax + 1)**2
            mem = members(lmax, mmax, full)
            if k.native:
                r = [k.real('r%d' % i, ('range', 0.3 * 3**i, 0.6 * 3**i), lo=0) for i in range(3)]
                for i in range(2):
                    k.require(lt(r[i] * q(Fraction(11, 10)), r[i + 1]))
                C = [ZERO] * (3 * n)
                for l, m in mem:
                    for i in range(3):
                        c = (l * l + l + m) * 3 + i
                        C[c] = k.real('C%d' % c, 'pos' if lsc and not l else 'real')
                th, phi = k.real('theta', ('range', 0.3, 2.7)), k.real('phi', 'angle')
                ct, st = cos(th), sin(th)
                tau = ct / (ONE + st)
                for i in (1,):
                    o = k.call('d_dens', lmax + 16 * mmax + 256 * sym + 65536, r + C, [r[i] * st, r[i] * ct, phi], k.out(1))
                    k.ensure_eq('value', o[0], sum([C[(l * l + l + m) * 3 + i] * (harm(k, l, m, tau, phi) if lmax else ONE) for l, m in mem], ZERO))
                return
            r1, r2 = k.real('rmin', lo=0, strict=True), k.real('rmax', lo=0, strict=True)
            k.require(lt(r1, r2))
            a, b = k.reals('inner outer')
            R, z, phi = k.real('R', 'mod', lo=0, strict=True), k.real('z', 'modreal'), k.real('phi', 'angle')
            r = sqrt(R * R + z * z)
            k.require(and_(not_(eq(r, r1)), not_(eq(r, r2))))
            o = k.call('d_dens', lmax + 16 * mmax + 256 * sym + 131072 * lsc, [r1, r2, a, b], [R, z, phi], k.out(1))
            rc = r1 if k.decide(lt(r, r1)) else r2 if k.decide(lt(r2, r)) else r
            S = lambda c: uf('S%d' % c, [log(rc)])
            d0 = exp(S(0)) if lsc else S(0)
            if rc is r1:
                d0 = d0 * fn('pow', r / r1, a)
            elif rc is r2:
                d0 = d0 * fn('pow', r / r2, b)
            tau = z / (r + R)
            F = ZERO
            for l, m in mem:
                c = l * l + l + m
                F = F + (d0 if not c else S(c) * d0 if lsc else S(c)) * (uf('W%d_%d' % (l, abs(m)), [tau]) * TWO * sqrt(T.PI) * (ONE if not m else sqrt(TWO)) * trigd(m, phi, 0))
            k.ensure_eq('density', o[0], F)


# ---- choice of the component: power laws beyond the grid, interpolator inside
@contract('C13', 'components of the multipole potential', maxpaths=500)
def mpdisp(k):
    if k.native:
        k.ensure('symbolic only', TRUE)
        return
    r = [k.real('r%d' % i, lo=0, strict=True) for i in range(3)]
    k.require(and_(lt(r[0] * q(Fraction(10001, 10000)), r[1]), lt(r[1], r[2])))
    R, z, phi = k.real('R', lo=0), k.real('z'), k.real('phi', 'angle')
    rsq = R * R + z * z
    eps = q(Fraction(1, 10**5))
    for mask in (1, 2, 4, 7):
        o = k.call('d_mp', 0, r, [R, z, phi], mask, k.out(10))
        F = lambda i, *d: uf('F%d_4' % i, [R, z, phi, ZERO], d + (0,))
        for i in (1, 2, 3):
            if not (k.decide(lt(rsq, r[0] * r[0])) if i == 1 else k.decide(lt(r[2] * r[2], rsq)) if i == 3 else k.decide(and_(lt(r[0] * r[0] * (ONE + eps)**2, rsq), lt(rsq, r[2] * r[2] * (ONE - eps)**2)))):
                continue
            outcmp(k, o, [F(i, 0, 0, 0), F(i, 1, 0, 0), F(i, 0, 1, 0), F(i, 0, 0, 1), F(i, 2, 0, 0), F(i, 0, 2, 0), F(i, 0, 0, 2), F(i, 1, 1, 0), F(i, 0, 1, 1), F(i, 1, 0, 1)], mask)
            k.ensure_eq('density', k.call('d_mp', 1, r, [R, z, phi], 0, k.out(1))[0], uf('F%d_4' % (10 + i), [R, z, phi, ZERO]))
    k.ensure('evaluated', TRUE)


# ---- constructors
def c_excoef(sx, av):
    """computeExtrapolationCoefs: functions of the arguments; slopes of l>0 harmonics are not steeper (inwards) than that of the main one"""
    v = av[5].args[0]
    args = [a for i, a in enumerate(av[:7]) if i != 5]
    if any(a.op == 'sp' for a in args):
        args = args[:5]
    res = [uf('ex%s%d' % (nm, v), args) for nm in 'SUW']
    if v > 0:
        sx.assume(le(args[5], res[0]))
    if v < -1:
        sx.assume(le(res[0], args[5]))
    for p, t in zip(av[7:], res):
        wr(sx, p, t)
    return None


EXC = {'potential::(anonymous namespace)::computeExtrapolationCoefs(double, double, double, double, double, int, double, double&, double&, double&)': c_excoef}


for inner in (1, 0):
    for lmax, nr in ((0, 2), (0, 3), (1, 3), (2, 2)):
        @contract('C13', 'setup of the %s extrapolation, degree %d, %d nodes' % ('inner' if inner else 'outer', lmax, nr), callees=EXC, maxpaths=3000, budget=200)
        def asy(k, inner=inner, lmax=lmax, nr=nr):
            n = (lmax + 1)**2
            r = [k.real('r%d' % i, ('range', 0.3 * 3**i, 0.6 * 3**i), lo=0, strict=True) for i in range(nr)]
            for i in range(nr - 1):
                k.require(lt(r[i], r[i + 1]))
            P, dP = [k.real('P%d' % i, 'modreal') for i in range(n * nr)], [k.real('dP%d' % i, 'modreal') for i in range(n * nr)]
            if lmax > 1:
                for c in range(1, n - 1):
                    for i in range(nr):
                        P[c * nr + i] = dP[c * nr + i] = ZERO
                        if c == 2:
                            P[c * nr + i], dP[c * nr + i] = k.real('Q%d' % i, 'modreal'), k.real('dQ%d' % i, 'modreal')
            if lmax == 1:
                P[nr:2 * nr] = dP[nr:2 * nr] = [ZERO] * nr
            o = k.call('d_asympt', inner, n, nr, r + P + dP, k.out(2 + 3 * n))
            i1, i2 = (0, 1) if inner else (nr - 1, nr - 2)
            k.ensure_eq('radius', o[0], r[i1] * r[i1])
            k.ensure_eq('direction', o[1], lift(inner))
            s0 = ZERO
            for c in range(n):
                l = 0 if not c else 1 if c < 4 else 2
                e = k.call('d_extrap', [P[c * nr + i1], P[c * nr + i2], dP[c * nr + i1], r[i1], r[i2], s0], l if inner else -l - 1, k.out(3))
                if not c:
                    s0 = o[2]
                for j, nm in enumerate(('slope', 'power-law coefficient', 'vacuum coefficient')):
                    k.ensure_eq('%s of term %d' % (nm, c), o[2 + j * n + c], e[j])


def drvcall(name, nargs=None):
    """a routine of the driver called in place of the one of the library"""
    return lambda sx, av: sx.call(sx.prog.find(None, '@' + name), [nz(a) for a in (av[:nargs] if nargs is not None else av)])


VD = 'std::vector<double, std::allocator<double> > const&'
CTOR = dict(SPL, **EXC)
CTOR.update({'math::QuinticSpline::QuinticSpline(%s, %s, %s)' % (VD, VD, VD): drvcall('d_quintic'),
             'math::CubicSpline::CubicSpline(%s, %s, bool, double, double)' % (VD, VD): drvcall('d_cubic')})

for lmax, nr, sg in ((0, 2, 1), (0, 2, 0), (1, 2, 1), (1, 2, 0), (0, 3, 1)):
    @contract('C13', 'construction of the interpolated potential, degree %d, %d nodes, %s' % (lmax, nr, 'negative' if sg else 'any sign'), callees=CTOR, maxpaths=3000, budget=300)
    def m1ctor(k, lmax=lmax, nr=nr, sg=sg):
        n = (lmax + 1)**2
        r = [k.real('r%d' % i, ('range', 0.3 * 3**i, 0.6 * 3**i), lo=0, strict=True) for i in range(nr)]
        for i in range(nr - 1):
            k.require(lt(r[i], r[i + 1]))
        P, dP = [k.real('P%d' % i, 'modreal') for i in range(n * nr)], [k.real('dP%d' % i, 'modreal') for i in range(n * nr)]
        if lmax:
            for c in (1, 2):
                for i in range(nr):
                    P[c * nr + i] = dP[c * nr + i] = ZERO
            for i in range(nr):
                k.require(and_(not_(eq(P[3 * nr + i], ZERO)), not_(eq(dP[3 * nr + i], ZERO))))
        neg = [lt(P[i], ZERO) for i in range(nr)]
        k.require(and_(*neg) if sg else not_(and_(*neg)))
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        o = k.call('d_m1ctor', n, nr, r + P + dP, k.out(2 + n * (1 + 3 * nr)))
        k.ensure_eq('logarithmic scaling if all values are negative', o[0], lift(sg))
        iP = o[1]
        p = 2
        for c in range(n):
            used = c in (0, 3)
            k.ensure_eq('number of nodes of term %d' % c, o[p], lift(nr if used else 0))
            if used:
                for i in range(nr):
                    x, f, d = o[p + 1 + i], o[p + 1 + nr + i], o[p + 1 + 2 * nr + i]
                    k.ensure_eq('node %d of term %d' % (i, c), x, log(r[i]))
                    # the inverse of the scaling in the evaluation
                    v, dv = P[c * nr + i], dP[c * nr + i] * r[i]
                    if sg:
                        ex = (iP - ONE / P[i]) if c == 0 else None
                        if c == 0:
                            k.ensure('argument of the logarithm is positive', lt(ZERO, ex))
                            k.ensure_eq('scaled value at node %d' % i, f, log(ex))
                            k.ensure_eq('scaled derivative at node %d' % i, P[i] * P[i] * ex * d, dv)
                        else:
                            k.ensure_eq('relative value of term %d at node %d' % (c, i), f * P[i], v)
                            k.ensure_eq('relative derivative of term %d at node %d' % (c, i), d * P[i] + f * dP[i] * r[i], dv)
                    else:
                        k.ensure_eq('value of term %d at node %d' % (c, i), f, v)
                        k.ensure_eq('derivative of term %d at node %d' % (c, i), d, dv)
            p += 1 + 3 * nr

for lmax, nr, sg in ((0, 2, 1), (0, 2, 0), (1, 2, 1), (1, 2, 0), (0, 3, 1)):
    @contract('C13', 'construction of the interpolated density, degree %d, %d nodes, %s' % (lmax, nr, 'positive' if sg else 'any sign'), callees=CTOR, maxpaths=3000, budget=300)
    def dctor(k, lmax=lmax, nr=nr, sg=sg):
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        n = (lmax + 1)**2
        r = [k.real('r%d' % i, lo=0, strict=True) for i in range(nr)]
        for i in range(nr - 1):
            k.require(lt(r[i], r[i + 1]))
        P = [k.real('P%d' % i, 'modreal') for i in range(n * nr)]
        if lmax:
            for c in (1, 2):
                for i in range(nr):
                    P[c * nr + i] = ZERO
            for i in range(nr):
                k.require(not_(eq(P[3 * nr + i], ZERO)))
        pos = [lt(ZERO, P[i]) for i in range(nr)]
        k.require(and_(*pos) if sg else not_(and_(*pos)))
        o = k.call('d_dctor', n, nr, r + P, k.out(3 + n * (3 + 2 * nr)))
        k.ensure_eq('logarithmic scaling if all values are positive', o[0], lift(sg))
        for j, (nm, e) in enumerate((('inner', 0), ('outer', nr - 1))):
            s = uf('S0', [log(r[e])], (1,))
            if not sg:
                s = ZERO if k.decide(eq(P[e], ZERO)) else s / P[e]
            lim = q(Fraction(-14, 5)) if j == 0 else q(Fraction(-11, 5))
            s = ite(lt(s, lim), lim, s) if j == 0 else ite(lt(lim, s), lim, s)
            k.ensure_eq('%s slope' % nm, o[1 + j], s)
        p = 3
        for c in range(n):
            if c in (1, 2):
                k.ensure_eq('no data for term %d' % c, o[p], ZERO)
                p += 1 + 2 * nr + 2
                continue
            k.ensure_eq('number of nodes of term %d' % c, o[p], lift(nr))
            for i in range(nr):
                k.ensure_eq('node %d of term %d' % (i, c), o[p + 1 + i], log(r[i]))
                f = o[p + 1 + nr + i]
                if not sg:
                    k.ensure_eq('value of term %d at node %d' % (c, i), f, P[c * nr + i])
                elif c:
                    k.ensure_eq('relative value of term %d at node %d' % (c, i), f * P[i], P[c * nr + i])
                else:
                    k.ensure_eq('logarithm of the value at node %d' % i, f, log(P[i]))
            if c:
                k.ensure_eq('flat at the inner end', o[p + 1 + 2 * nr], ZERO)
                k.ensure_eq('flat at the outer end', o[p + 2 + 2 * nr], ZERO)
            p += 1 + 2 * nr + 2


# ---- restriction of coefficients to a given symmetry and order
for lm, lmax, mmax, sym in [(2, 2, 2, TRI), (2, 2, 0, AXI), (2, 1, 1, 0), (2, 2, 2, YR), (3, 2, 1, ZR), (1, 3, 3, 0), (2, 2, 2, ZR | YR)]:
    @contract('C13', 'restriction of coefficients of degree %d to degree %d, order %d, symmetry %d' % (lm, lmax, mmax, sym), maxpaths=3000, budget=300)
    def restr(k, lm=lm, lmax=lmax, mmax=mmax, sym=sym):
        n = (lm + 1)**2
        P = [k.real('P%d' % i, 'modreal') for i in range(2 * n)]
        mem = members(lmax, mmax, sym | (ZROT | 3 if mmax == 0 else 0))
        keep = [(l, m) for l, m in mem if l <= lm]
        # terms of the highest degree are present, lower ones are arbitrary
        top = [l * l + l + m for l, m in keep if l == max(l for l, m in keep)]
        for c in range(n):
            k.require(and_(*[not_(eq(P[j * n + c], ZERO)) for j in (0, 1)]))
        o = k.call('d_restrict', n, 1, lmax + 16 * mmax + 256 * sym, P, k.out(2 + 2 * n))
        la = max(l for l, m in keep)
        for j in (0, 1):
            k.ensure_eq('size %d' % j, o[j], lift(min(n, (la + 1)**2)))
        for l in range(la + 1):
            for m in range(-l, l + 1):
                c = l * l + l + m
                for j in (0, 1):
                    k.ensure_eq('term (%d, %d) of array %d' % (l, m, j), o[2 + j * n + c], P[j * n + c] if (l, m) in keep else ZERO)

# ---- coefficients of a given density: a polynomial of second degree has a finite expansion
def dehomog(o, rs):
    """sqrt(r^2 - (r c)^2) = r sqrt(1 - c^2) for r > 0"""
    m, st, seen = {}, [o], set()
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'fn' and t.args[0] == 'abs' and t.args[1] in rs:
            m[t] = t.args[1]
        if t.op == 'fn' and t.args[0] == 'sqrt':
            for r in rs:
                if variables(t) == {r} or list(variables(t)) == [r]:
                    m[t] = r * sqrt(subst(t.args[1], {r: ONE}))
        st.extend(kids(t))
    return subst(o, m) if m else o


CART = {  # coefficients of 1, x, y, z, xy, yz, xz, x2-y2, z2 by (l, m) and the power of radius
    0: {(0, 0): (1, 0)}, 1: {(1, 1): (1, 1)}, 2: {(1, -1): (1, 1)}, 3: {(1, 0): (1, 1)}, 4: {(2, -2): (1, 2)}, 5: {(2, -1): (1, 2)},
    6: {(2, 1): (1, 2)}, 7: {(2, 2): (1, 2)}, 8: {(2, 0): (1, 2), (0, 0): (1, 2)}}


def c_nearz(sx, av):
    return None


NZ = {'math::eliminateNearZeros(std::vector<double, std::allocator<double> >&, double)': c_nearz}
for lmax, mmax, sym in [(0, 0, SPH), (1, 1, 0), (2, 2, 0), (2, 2, TRI), (2, 0, AXI), (2, 2, YR), (2, 2, XR), (3, 2, ZR)]:
    for pot in (0, 1):
        @contract('C13', 'expansion of a %s, degree %d, order %d, symmetry %d' % ('potential' if pot else 'density', lmax, mmax, sym), callees=NZ, maxvisits=400, maxpaths=1000, budget=300, maxsteps=10**8, fb_tol=1e-9)
        def dcoefs(k, lmax=lmax, mmax=mmax, sym=sym, pot=pot):
            full = sym | (ZROT | 3 if mmax == 0 else 0) | (SPH if lmax == 0 else 0)
            mem = members(lmax, mmax, full)
            r = [k.real('r%d' % i, ('range', 0.5, 2), lo=0, strict=True) for i in range(2)]
            c = [ZERO] * 9
            for i, (tm) in CART.items():
                if all(t in mem for t in tm):
                    c[i] = k.real('c%d' % i, 'modreal')
                    if i > 1:
                        k.require(not_(eq(c[i], ZERO)))
            n = (lmax + 1)**2
            o = k.call('d_pcoefs' if pot else 'd_coefs', lmax + 16 * mmax + 256 * sym, 2, r, c, k.out(2 + 4 * n if pot else 1 + 2 * n))
            k.ensure_eq('number of terms', o[0], lift(n))
            if pot:
                k.ensure_eq('number of derivatives', o[1], lift(n))
            # basis: normalized so that the mean square over the sphere of each function is 1 (m = 0) etc.
            if not k.native:
                o = [dehomog(x, r) for x in o]
            s3, s15, s5 = sqrt(lift(3)), sqrt(lift(15)), sqrt(lift(5))
            for j in range(2):
                rr = r[j]
                ref = lambda rr: {(0, 0): c[0] + c[8] * rr * rr / lift(3), (1, 1): -c[1] * rr / s3, (1, -1): -c[2] * rr / s3, (1, 0): c[3] * rr / s3,
                       (2, -2): c[4] * rr * rr / s15, (2, -1): -c[5] * rr * rr / s15, (2, 1): -c[6] * rr * rr / s15,
                       (2, 2): c[7] * rr * rr * TWO / s15, (2, 0): c[8] * rr * rr * TWO / (lift(3) * s5)}
                dref = lambda rr: {i: (f - (c[0] if i == (0, 0) else ZERO)) * lift(max(i[0], 1 if i[0] else 2)) / rr for i, f in ref(rr).items()}
                for l in range(lmax + 1):
                    for m in range(-l, l + 1):
                        i = l * l + l + m
                        a = o[2 + 2 * (2 * i + j)] if pot else o[1 + 2 * i + j]
                        sc = sum([x * x for x in c if x is not ZERO], ONE) * (ONE + rr * rr)
                        k.ensure_close('term (%d, %d) at radius %d' % (l, m, j), a, ref(rr).get((l, m), ZERO) if (l, m) in mem else ZERO, 1e-12, sc)
                        if pot:
                            k.ensure_close('derivative of term (%d, %d) at radius %d' % (l, m, j), o[3 + 2 * (2 * i + j)], dref(rr).get((l, m), ZERO) if (l, m) in mem else ZERO, 1e-12, sc / rr)


# ---- potential interpolated in radius and polar angle separately for each azimuthal harmonic
def c_spline2(sx, av):
    i = sx.named[id(av[0].r), av[0].o]
    for p, d in zip(av[3:], ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2))):
        wr(sx, p, uf('T%d' % i, [av[1], av[2]], d))
    return None


SPL2 = {'agv_reg': c_reg, 'math::QuinticSpline2d::evalDeriv(double, double, double*, double*, double*, double*, double*, double*) const': c_spline2}

for lmax, mmax, sym in [(3, 0, AXI), (1, 1, 0), (3, 3, 0), (4, 4, TRI), (4, 3, YR), (3, 2, ZR), (3, 3, XR)]:
    full = sym | (ZROT | 3 if mmax == 0 else 0) | (SPH if lmax == 0 else 0)
    for lsc in (1, 0):
        for mask in (1, 2, 4, 7):
            if lmax > 2 and mask in (2, 4) and mmax:
                continue

            @contract('C13', 'potential interpolated in two dimensions, degree %d, order %d, symmetry %d, %s, outputs %d' % (lmax, mmax, sym, 'logarithmic scaling' if lsc else 'no scaling', mask),
                      callees=dict(TRIG, **SPL2), maxpaths=500, budget=300, ring_s=100, fb_tol=1e-5)
            def m2(k, lmax=lmax, mmax=mmax, sym=sym, full=full, lsc=lsc, mask=mask):
                n = (lmax + 1)**2
                mem = members(lmax, mmax, full)
                if k.native:
                    r, P, dP = interpcoef(k, 0, 3, mem, n, lsc)
                    th, phi = k.real('theta', ('range', 0.3, 2.7)), k.real('phi', 'angle')
                    ct, st = cos(th), sin(th)
                    tau = ct / (ONE + st)
                    o = k.call('d_m2', lmax + 16 * mmax + 256 * sym + 65536, ZERO, r + P + dP, [r[1] * st, r[1] * ct, phi], mask & 3, k.out(10)) if mask & 3 else None
                    f = lambda a: sum([a[(l * l + l + m) * 3 + 1] * (harm(k, l, m, tau, phi) if lmax else ONE) for l, m in mem], ZERO)
                    k.ensure('evaluated', TRUE)
                    if mask & 1:
                        k.ensure_close('value', o[0], f(P), 1e-3, sum([x * x for x in P if x is not ZERO], ONE))
                    if mask & 2:
                        k.ensure_close('radial derivative', o[1] * st + o[2] * ct, f(dP), 1e-2, sum([x * x for x in P + dP if x is not ZERO], ONE))
                    return
                iP = k.real('iphi', hi=0, strict=False) if lsc else ZERO
                R, z, phi = k.real('R', 'mod', lo=0, strict=True), k.real('z', 'modreal'), k.real('phi', 'angle')
                r = sqrt(R * R + z * z)
                o = k.call('d_m2', lmax + 16 * mmax + 256 * sym + 131072 * lsc, iP, [ZERO], [R, z, phi], mask, k.out(10))
                lr, tau = log(r), z / (r + R)
                S = lambda m: uf('T%d' % (m + mmax), [lr, tau])
                P0 = ONE / (iP - exp(S(0))) if lsc else S(0)
                F = P0
                for m in sorted({m for l, m in mem} - {0}):
                    F = F + S(m) * (P0 if lsc else ONE) * trigd(m, phi, 0)
                ders(k, o, F, R, z, phi, mask)


MD = 'math::IMatrixDense<double> const&'
CTOR3 = dict(EXC)
CTOR3['math::QuinticSpline2d::QuinticSpline2d(%s, %s, %s, %s, %s, %s)' % (VD, VD, MD, MD, MD, MD)] = drvcall('d_quintic2d')


def c_sha0(sx, av):
    """the same with the constant function for l = m = 0"""
    c_sha(sx, av)
    if av[1].args[0] == 0:
        for i, x in enumerate((ONE / (TWO * sqrt(T.PI)), ZERO, ZERO)):
            wr(sx, av[3 + i], x)
    return None


CTOR3['math::sphHarmArray(unsigned int, unsigned int, double, double*, double*, double*)'] = c_sha0

NODES2 = [0, 1, 3, 4, 6, 9]
for lmax, mem2, kind in ((1, ((0, 0), (1, 0), (1, 1)), 'finite'), (1, ((0, 0), (1, 1)), 'below centre'), (1, ((0, 0), (1, -1), (1, 1)), 'infinite'), (1, ((0, 0), (1, 1)), 'positive'),
                         (2, ((0, 0), (1, 1), (2, 1), (2, 2), (2, -1)), 'finite'), (2, ((0, 0), (2, 2)), 'infinite')):
    @contract('C13', 'construction of the potential interpolated in two dimensions, degree %d, terms %s, %s' % (lmax, mem2, kind), callees=CTOR3, maxpaths=3000, budget=300, weight=50 if (1, 0) in mem2 else 1, maxvisits=400, maxsteps=10**8)
    def m2ctor(k, lmax=lmax, mem2=mem2, kind=kind):
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        nr, n = 2, (lmax + 1)**2
        nc = 6
        r = [k.real('r%d' % i, ('range', 0.3 * 3**i, 0.6 * 3**i), lo=0, strict=True) for i in range(nr)]
        k.require(lt(r[0], r[1]))
        P, dP = [ZERO] * (n * nr), [ZERO] * (n * nr)
        for l, m in mem2:
            for i in range(nr):
                c = (l * l + l + m) * nr + i
                P[c], dP[c] = k.real('P%d' % c, 'modreal'), k.real('dP%d' % c, 'modreal')
                k.require(and_(not_(eq(P[c], ZERO)), not_(eq(dP[c], ZERO))))
                if (l, m, i) == (1, 0, 1):
                    P[c] = ZERO   # the conditions on the values are decided separately for each node
        t = k.call('d_tau', lmax, k.out(40))
        nt = 3 * (lmax + 2) + 1
        k.ensure_eq('number of nodes in the second coordinate', t[0], lift(nt))
        t = t[1:1 + nt]
        for i in range(nt - 1):
            k.ensure('nodes increase %d' % i, lt(t[i], t[i + 1]))
        k.ensure_eq('first node', t[0], -ONE)
        k.ensure_eq('last node', t[-1], ONE)
        mm = max(abs(m) for l, m in mem2)
        ms = [0, 2] if len(mem2) == 2 and lmax == 2 else list(range(-mm if min(m for l, m in mem2) < 0 else 0, mm + 1))   # terms allowed by the symmetry
        mul = lambda m: TWO * sqrt(T.PI) * (ONE if m == 0 else sqrt(TWO))

        def node(m, i, tau):
            f = lambda a, d: sum([a[(l * l + l + m) * nr + i] * (uf('W%d_%d' % (l, abs(m)), [tau], (d,)) if l else ZERO if d else ONE / (TWO * sqrt(T.PI))) for l, mm in mem2 if mm == m], ZERO) * mul(m)
            return f(P, 0), f(dP, 0) * r[i], f(P, 1), f(dP, 1) * r[i]
        s, W = [uf('ex%s0' % c, [P[0], P[1], dP[0], r[0], r[1]]) for c in 'SW']
        k.require(le(s, ZERO) if kind in ('infinite', 'positive') else lt(ZERO, s))
        if kind in ('finite', 'below centre'):
            k.require(lt(W, ZERO))
        for i in range(nr):
            for j in range(nt):
                v = node(0, i, t[j])[0]
                if kind == 'positive':
                    k.require(lt(ZERO, v))
                else:
                    k.require(lt(v, ZERO))
                    if kind == 'finite':
                        k.require(lt(ONE / v, ONE / W))
        if kind == 'below centre':
            k.require(le(ONE / W, ONE / node(0, 0, t[0])[0]))
        o = k.call('d_m2ctor', n, nr, nc, r + P + dP, k.out(2 + len(ms) * (1 + nr + nc + 4 * nr * nc)))
        lsc = kind != 'positive'
        iP = ONE / W if kind == 'finite' else ZERO
        k.ensure_eq('logarithmic scaling', o[0], lift(int(lsc)))
        k.ensure_eq('inverse of the central value', o[1], iP)
        p, sz = 2, 1 + nr + nc + 4 * nr * nc
        for m in [m for m in ms if m >= 0] + [m for m in ms if m < 0][::-1]:
            s = o[p:p + sz]
            p += sz
            k.ensure_eq('m=%d, number of nodes' % m, s[0], lift(nt))
            for i in range(nr):
                k.ensure_eq('m=%d, radius %d' % (m, i), s[1 + i], log(r[i]))
            for j in range(nc):
                tau = t[NODES2[j]]
                k.ensure_eq('m=%d, angle %d' % (m, j), s[1 + nr + j], tau)
                for i in range(nr):
                    f, fx, fy, fxy = s[1 + nr + nc + 4 * (i * nc + j):][:4]
                    nm = 'm=%d, node %d,%d: ' % (m, i, j)
                    v0, x0, y0, xy0 = node(0, i, tau)
                    v, x, y, xy = node(m, i, tau)
                    if not lsc:
                        g = (f, fx, fy, fxy)
                    elif m == 0:
                        ex = iP - ONE / v0
                        k.ensure(nm + 'argument of the logarithm is positive', lt(ZERO, ex))
                        k.ensure_eq(nm + 'scaled value', f, log(ex))
                        a = v0 * v0 * ex
                        b = a * v0 * (iP + ex)
                        g = (v0, a * fx, a * fy, a * fxy + b * fx * fy)
                    else:
                        g = (f * v0, fx * v0 + f * x0, fy * v0 + f * y0, fxy * v0 + fx * y0 + fy * x0 + f * xy0)
                    for a, b, c in zip(('value', 'derivative by radius', 'derivative by angle', 'mixed derivative'), g, (v, x, y, xy)):
                        k.ensure_eq(nm + a, b, c)


# ---- solution of the Poisson equation: coefficients of the density at the nodes of quadrature are arbitrary
PO = {'void potential::(anonymous namespace)::computeSphHarmCoefs<potential::BaseDensity>(potential::BaseDensity const&, math::SphHarmIndices const&, %s, std::vector<std::vector<double, std::allocator<double> >, std::allocator<std::vector<double, std::allocator<double> > > >*)' % VD: drvcall('d_shc')}
NGL = 10
for lmax, mmax, sym, nr in [(0, 0, SPH, 2), (0, 0, SPH, 3), (2, 0, AXI, 2), (3, 2, ZR, 2), (3, 3, YR, 2), (1, 1, 0, 2), (2, 2, TRI, 2), (2, 1, ZR, 3), (4, 0, AXI, 2)]:
    @contract('C13', 'solution of the Poisson equation, degree %d, order %d, symmetry %d, %d radii' % (lmax, mmax, sym, nr), callees=PO, maxvisits=4000, budget=300, maxsteps=10**8, ring_s=100)
    def pois(k, lmax=lmax, mmax=mmax, sym=sym, nr=nr):
        full = sym | (ZROT | 3 if mmax == 0 else 0) | (SPH if lmax == 0 else 0)
        mem = members(lmax, mmax, full)
        r = [k.real('r%d' % i, ('range', 0.3 * 3**i, 0.6 * 3**i), lo=0, strict=True) for i in range(nr)]
        for i in range(nr - 1):
            k.require(lt(r[i], r[i + 1]))
        if k.native:
            k.ensure('symbolic only', TRUE)
            return
        n = (lmax + 1)**2
        g = k.call('d_gl', k.out(2 * NGL))
        X, Wt = g[:NGL], g[NGL:]
        o = k.call('d_pois', lmax + 16 * mmax + 256 * sym, nr, r, [ZERO] * 9, k.out(2 + 2 * n * nr))
        k.ensure_eq('size', o[0], lift(n))
        k.ensure_eq('size of derivatives', o[1], lift(n))
        for l in range(lmax + 1):
            for m in range(-l, l + 1):
                c = l * l + l + m
                f = lambda s: uf('F%d_1' % c, [s])

                def seg(j, p):
                    """Gauss-Legendre sum for the integral of rho s^p over segment j (the last one is mapped by r_max/s)"""
                    if j == nr:
                        return sum([w * f(r[-1] / x) * pw(r[-1] / x, p) * r[-1] / (x * x) for x, w in zip(X, Wt)], ZERO)
                    a = r[j - 1] if j else ZERO
                    return sum([w * f(a + x * (r[j] - a)) * pw(a + x * (r[j] - a), p) * (r[j] - a) for x, w in zip(X, Wt)], ZERO)
                for i in range(nr):
                    v, d = o[2 + 2 * (c * nr + i)], o[3 + 2 * (c * nr + i)]
                    if (l, m) not in mem:
                        k.ensure_eq('absent term (%d, %d) %d' % (l, m, i), v, ZERO)
                        k.ensure_eq('derivative of the absent term (%d, %d) %d' % (l, m, i), d, ZERO)
                        continue
                    I = sum([seg(j, l + 2) for j in range(i + 1)], ZERO)
                    E = sum([seg(j, 1 - l) for j in range(i + 1, nr + 1)], ZERO)
                    mul = -lift(4) * T.PI / lift(2 * l + 1)
                    rl = pw(r[i], l)
                    k.ensure_eq('potential, term (%d, %d) at radius %d' % (l, m, i), v, mul * (I / (rl * r[i]) + rl * E))
                    k.ensure_eq('its derivative, term (%d, %d) at radius %d' % (l, m, i), d, mul * (-lift(l + 1) * I / (rl * r[i] * r[i]) + lift(l) * rl / r[i] * E))
