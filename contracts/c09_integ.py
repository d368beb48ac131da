"""C09: integrals, projections, roots and extrema of the one-dimensional interpolators."""
from agv.engine import contract, ArrArg
from agv.terms import *
from agv import terms as T


def fabs(x):
    return ite(lt(x, ZERO), -x, x)


def fmin(a, b):
    return ite(lt(a, b), a, b)


def fmax(a, b):
    return ite(lt(a, b), b, a)

from contracts.c08_spline import nodes_, powi, symm, binom
from agv.symex import Ptr, nz
import numpy as np

TUS = ['math_core.cpp', 'math_specfunc.cpp', 'math_linalg.cpp', 'math_fit.cpp', 'utils.cpp']
DRV = ['drv_spline.cpp']
TOL = 3e-13


for N in range(6):
    @contract('C09', name='polynomial_through_points_%d' % N)
    def vander(k, N=N):
        x, h = nodes_(k, N + 1)
        y = [k.real('y%d' % i) for i in range(N + 1)]
        c = k.call('d_vander', N, x, y, k.out(N + 1))
        for i in range(N + 1):
            s = ZERO
            for j in range(N + 1):
                s = s + c[j] * powi(x[i], j)
            k.ensure_eq('value at point %d' % i, s, y[i])


def polycoef(kind, i, n, f, h):
    """coefficients of the polynomial on segment i in powers of the distance from its left end"""
    f0, f1 = f[i], f[i + 1]
    if kind == 0:
        return [f0, (f1 - f0) / h]
    d0, d1 = f[n + i], f[n + i + 1]
    if kind == 1:
        q = (f1 - f0) / h
        return [f0, d0, (3 * q - 2 * d0 - d1) / h, (d0 + d1 - 2 * q) / (h * h)]
    s0, s1 = f[2 * n + i], f[2 * n + i + 1]
    A = f1 - f0 - d0 * h - s0 * h * h / 2
    B = d1 - d0 - s0 * h
    C = s1 - s0
    return [f0, d0, s0 / 2, (10 * A - 4 * B * h + C * h * h / 2) / (h * h * h), (-15 * A + 7 * B * h - C * h * h) / (h * h * h * h),
            (6 * A - 3 * B * h + C * h * h / 2) / (h * h * h * h * h)]


def polyint(c, x0, a, b, w):
    """integral of sum c_k s^k * sum w_m (x0+s)^m over s = a .. b"""
    r = ZERO
    for m, wm in enumerate(w):
        for j in range(m + 1):
            for kk, ck in enumerate(c):
                e = kk + j + 1
                r = r + wm * ck * lift(binom(m, j)) * powi(x0, m - j) * (powi(b, e) - powi(a, e)) / lift(e)
    return r


KN = ['linear', 'cubic', 'quintic']
# the ends of the interval: the cell they fall in, or outside the grid on the left (-1) or the right (9)
CASES = [(0, 0), (0, 1), (1, 1), (-1, 0), (1, 9), (-1, 9), (-1, -1), (9, 9)]


def ends(k, X, h, case, rev):
    n = len(X)
    pts, pos = [], []
    for e, nm in zip(case, 'uv'):
        u = k.real(nm, lo=0, hi=1)
        if e < 0:
            pts.append(X[0] - u)
        elif e > n - 2:
            pts.append(X[-1] + u)
        else:
            pts.append(X[e] + u * h[e])
    if case[0] == case[1]:
        if case[0] < 0:
            k.require(lt(var('v'), var('u')))
        else:
            k.require(lt(var('u'), var('v')))
    return pts[::-1] if rev else pts


def segs(case, X, h):
    n = len(X)
    if case in ((-1, -1), (9, 9)):
        return
    for i in range(n - 1):
        lo, hi = case
        if i < lo or i > hi:
            continue
        a = var('u') * h[i] if i == lo else ZERO
        b = var('v') * h[i] if i == hi else h[i]
        yield i, a, b


for kind in range(3):
    for case in CASES:
        tag = '%s_to_%s' % tuple({-1: 'left', 9: 'right'}.get(e, 'cell%d' % e) for e in case)
        for p in (0, 1, 3):
            @contract('C09', name='%s_integral_x%d_%s' % (KN[kind], p, tag), weight=2 + kind, forkselect_int=True)
            def integ(k, kind=kind, p=p, case=case):
                n = 3
                X, h = nodes_(k, n)
                f = [k.real('f%d' % i) for i in range(n * (kind + 1))]
                s = ZERO
                for rev in (0, 1):
                    x1, x2 = ends(k, X, h, case, rev)
                    r = k.call('d_integ', kind, n, p, X, f, x1, x2)
                    s = ZERO
                    for i, a, b in segs(case, X, h):
                        s = s + polyint(polycoef(kind, i, n, f, h[i]), X[i], a, b, [ZERO] * p + [ONE])
                    k.ensure_close('integral' + ' with reversed limits' * rev, r, -s if rev else s, TOL)

        @contract('C09', name='%s_integral_F_%s' % (KN[kind], tag), weight=2 + kind, fb_tol=1e-4, forkselect_int=True)
        def integF(k, kind=kind, case=case):
            n = 3
            X, h = nodes_(k, n)
            for g in h:
                k.require(and_(lt(lift(Fraction(1, 1000)), g), lt(g, lift(1000))))
            f = [k.real('f%d' % i) for i in range(n * (kind + 1))]
            c = [ONE, ZERO, ZERO]
            for rev in (0, 1):
                x1, x2 = ends(k, X, h, case, rev)
                for e in 'uv':
                    k.require(and_(lt(lift(Fraction(1, 1000)), var(e)), lt(var(e), lift(Fraction(999, 1000)))))
                if case[0] == case[1]:
                    k.require(lt(lift(Fraction(1, 1000)), var('v') - var('u')) if case[0] >= 0 else TRUE)
                r = k.call('d_integF', kind, n, X, f, c, x1, x2)
                s = ZERO
                for i, a, b in segs(case, X, h):
                    s = s + polyint(polycoef(kind, i, n, f, h[i]), X[i], a, b, c)
                k.ensure_close('integral' + ' with reversed limits' * rev, r, -s if rev else s, TOL)

    @contract('C09', name='%s_convolution' % KN[kind], weight=2 + kind, fb_tol=1e-4)
    def conv(k, kind=kind):
        n = 3
        X, h = nodes_(k, n)
        for g in h:
            k.require(and_(lt(lift(Fraction(1, 1000)), g), lt(g, lift(1000))))
        f = [k.real('f%d' % i) for i in range(n * (kind + 1))]
        t = k.real('t')
        for c in ([ONE, ZERO, ZERO],):
            r = k.call('d_convF', kind, n, X, f, c, t)
            s = ZERO
            for i in range(n - 1):
                s = s + polyint(polycoef(kind, i, n, f, h[i]), X[i], ZERO, h[i], c)
            k.ensure_close('convolution', r, s, TOL)


# ---- polynomial equations ----------------------------------------------------------------------
def linear_roots(k, n, o, a, b):
    """contract of solveLinear: an identically zero equation counts as having the root 0"""
    if k.decide(eq(a, ZERO)):
        if k.decide(eq(b, ZERO)):
            k.ensure('identity', eq(n, ic(1)))
            k.ensure_eq('root of the identity', o[0], ZERO)
        else:
            k.ensure('no root of a nonzero constant', eq(n, ic(0)))
    else:
        k.ensure('one root', eq(n, ic(1)))
        k.ensure_eq('root', a * o[0], -b)


@contract('C09')
def linear_equation(k):
    a, b = k.reals('a b')
    n, o = k.call('d_solvelin', a, b, k.out(1))
    if k.native:
        k.require(not_(eq(a, ZERO)))
        k.ensure('one root unless degenerate', eq(n, ONE))
        k.ensure_eq('root', a * o[0], -b)
        return
    linear_roots(k, n, o, a, b)


@contract('C09')
def quadratic_equation(k):
    a, b, c = k.reals('a b c')
    n, o = k.call('d_solvequad', a, b, c, k.out(2))
    D = b * b - 4 * a * c
    if k.native:
        k.require(not_(eq(a, ZERO)))
        k.require(lt((b * b + fabs(a * c)) / 10**6, fabs(D)))
        k.ensure('number of roots', or_(and_(lt(D, ZERO), eq(n, ZERO)), and_(lt(ZERO, D), eq(n, ONE * 2), le(o[0], o[1]))))
        k.ensure_eq('sum of roots', ite(lt(ZERO, D), o[0] + o[1], -b / a), -b / a)
        return
    if k.decide(eq(a, ZERO)):
        linear_roots(k, n, o, b, c)
    elif k.decide(lt(D, ZERO)):
        k.ensure('no roots', eq(n, ic(0)))
    elif k.decide(eq(D, ZERO)):
        k.ensure('double root', eq(n, ic(1)))
        k.ensure_eq('value of the double root', 2 * a * o[0], -b)
    else:
        k.ensure('two roots', eq(n, ic(2)))
        k.ensure('in increasing order', lt(o[0], o[1]))
        k.ensure_eq('sum of the roots', a * (o[0] + o[1]), -b)
        k.ensure_eq('product of the roots', a * o[0] * o[1], c)


@contract('C09', bounded='cube roots and trigonometric formulae polished iteratively')
def cubic_equation(k):
    a, b, c, d = [k.real(s, lo=-3, hi=3) for s in 'abcd']
    k.require(lt(lift(Fraction(1, 10)), fabs(a)))
    n, o = k.call('d_solvecub', a, b, c, d, k.out(3))
    p = lambda x: ((a * x + b) * x + c) * x + d
    s = lambda x: ((fabs(a * x) + fabs(b)) * fabs(x) + fabs(c)) * fabs(x) + fabs(d)
    ds = [18 * a * b * c * d, -4 * b * b * b * d, b * b * c * c, -4 * a * c * c * c, -27 * a * a * d * d]
    D = ZERO
    m = ZERO
    for t in ds:
        D, m = D + t, m + fabs(t)
    k.require(lt(m / 10**6, fabs(D)))
    k.ensure('number of roots', or_(and_(lt(D, ZERO), eq(n, ONE)), and_(lt(ZERO, D), eq(n, ONE * 3), le(o[0], o[1]), le(o[1], o[2]))))
    for i in range(3):
        k.ensure('root %d' % i, or_(le(n, lift(i) * ONE), le(fabs(p(o[i])), s(o[i]) * Fraction(1, 10**11))))


@contract('C09', bounded='resolvent cubic polished iteratively')
def quartic_equation(k):
    """a quartic with four given roots, or with two given roots and a quadratic factor without roots"""
    r = [k.real('r%d' % i) for i in range(4)]
    q = k.real('q', lo=-1, hi=1)
    A = k.real('A', 'pos')
    lo, hi = Fraction(1, 20), 20
    for i in range(4):
        k.require(and_(lt(fabs(r[i]), lift(hi))))
        for j in range(i):
            k.require(lt(lift(lo), fabs(r[i] - r[j])))
    two = lt(q, ZERO)
    # second factor x^2 + u x + v
    u = -(r[2] + r[3])
    v = ite(two, r[2] * r[2] + r[3] * r[3] + 1, r[2] * r[3])
    s, t = -(r[0] + r[1]), r[0] * r[1]
    n, o = k.call('d_solvequart', A, A * (s + u), A * (t + s * u + v), A * (s * v + t * u), A * t * v, k.out(4))
    k.ensure('number of roots', eq(n, ite(two, ONE * 2, ONE * 4)))
    for i in range(2 if k.native else 0):
        k.ensure('root %d found' % i, or_(*[and_(lt(lift(j) * ONE, n), lt(fabs(r[i] - o[j]), lift(Fraction(1, 10**6)))) for j in range(4)]))
    for j in range(3):
        k.ensure('order %d' % j, or_(le(n, lift(j + 1) * ONE), lt(o[j], o[j + 1])))


# ---- integrals of B-splines --------------------------------------------------------------------
def bsegval(k, N, n, X, A, i, x):
    """value of the B-spline polynomial of segment i at x"""
    B = k.call('d_bspl', N, 0, i, n, X, x, k.out(N + 1))
    s = ZERO
    for j in range(N + 1):
        s = s + B[j] * A[i + j]
    return s


def polyderivs(k, N, n, X, A, i):
    """Taylor coefficients of the B-spline at the left end of segment i"""
    out, fac = [], 1
    for d in range(N + 1):
        B = k.call('d_bspl', N, d, i, n, X, X[i], k.out(N + 1))
        s = ZERO
        for j in range(N + 1):
            s = s + B[j] * A[i + j]
        fac *= max(d, 1)
        out.append(s / lift(fac))
    return out


for N in range(4):
    for case in CASES:
        tag = '%s_to_%s' % tuple({-1: 'left', 9: 'right'}.get(e, 'cell%d' % e) for e in case)
        for p in (0, 2):
            @contract('C09', name='bspline%d_integral_x%d_%s' % (N, p, tag), weight=2 + N, forkselect_int=True)
            def binteg(k, N=N, p=p, case=case):
                n = 3
                X, h = nodes_(k, n)
                A = [k.real('a%d' % i) for i in range(n + N - 1)]
                for rev in (0, 1):
                    x1, x2 = ends(k, X, h, case, rev)
                    r = k.call('d_binteg', N, n, p, X, A, x1, x2)
                    s = ZERO
                    for i, a, b in segs(case, X, h):
                        s = s + polyint(polyderivs(k, N, n, X, A, i), X[i], a, b, [ZERO] * p + [ONE])
                    k.ensure_close('integral' + ' with reversed limits' * rev, r, -s if rev else s, TOL)

for N in (1, 2, 3):
    @contract('C09', name='bspline%d_derivative_amplitudes' % N, weight=2)
    def bder(k, N=N):
        for n in (2, 3, 4):
            X, h = nodes_(k, n)
            A = [k.real('a%d' % i) for i in range(n + N - 1)]
            cnt, a = k.call('d_bderiv', N, 0, n, X, A, k.out(n + N - 2))
            k.ensure('number of amplitudes', eq(cnt, ic(n + N - 2)) if not k.native else eq(cnt, lift(n + N - 2) * ONE))
            u = k.real('u', lo=0, hi=1)
            for i in range(n - 1):
                t = X[i] + u * h[i]
                B = k.call('d_bspl', N, 1, i, n, X, t, k.out(N + 1))
                C = k.call('d_bspl', N - 1, 0, i, n, X, t, k.out(N))
                s, r = ZERO, ZERO
                for j in range(N + 1):
                    s = s + B[j] * A[i + j]
                for j in range(N):
                    r = r + C[j] * a[i + j]
                k.ensure_eq('%d nodes, segment %d' % (n, i), r, s)

for N in (0, 1, 2):
    @contract('C09', name='bspline%d_antiderivative_amplitudes' % N, weight=2)
    def banti(k, N=N):
        for n in (2, 3, 4):
            X, h = nodes_(k, n)
            A = [k.real('a%d' % i) for i in range(n + N - 1)]
            cnt, a = k.call('d_bderiv', N, 1, n, X, A, k.out(n + N))
            k.ensure('number of amplitudes', eq(cnt, ic(n + N)) if not k.native else eq(cnt, lift(n + N) * ONE))
            k.ensure_eq('zero at the left end', a[0], ZERO)
            u = k.real('u', lo=0, hi=1)
            for i in range(n - 1):
                t = X[i] + u * h[i]
                B = k.call('d_bspl', N, 0, i, n, X, t, k.out(N + 1))
                C = k.call('d_bspl', N + 1, 1, i, n, X, t, k.out(N + 2))
                s, r = ZERO, ZERO
                for j in range(N + 1):
                    s = s + B[j] * A[i + j]
                for j in range(N + 2):
                    r = r + C[j] * a[i + j]
                k.ensure_eq('%d nodes, segment %d' % (n, i), r, s)


# ---- kernels -------------------------------------------------------------------------------------
ERF = {'math::erf(double)': lambda sx, av: fn('erf', av[0])}


@contract('C09', bounded='rational approximations to machine precision')
def error_function(k):
    x = k.real('x', lo=-8, hi=8)
    k.ensure_close('value', k.call('d_erf', x), fn('erf', x), 1e-15, ONE)


def gauss(y, s):
    return fn('exp', lift(Fraction(-1, 2)) * y * y) / (s * fn('sqrt', 2 * T.PI))


for n in range(8):
    @contract('C09', name='gaussian_integral_x%d' % n, callees=ERF)
    def gint(k, n=n):
        """derivatives of the integral of x^n times the Gaussian between s*u and s*v, not both beyond 7 sigma on one side"""
        s, u, v = k.real('s', 'pos'), k.real('u'), k.real('v')
        k.require(lt(fmin(u, v), lift(7)))
        k.require(lt(lift(-7), fmax(u, v)))
        if k.native:
            k.require(and_(lt(fabs(u), lift(7)), lt(fabs(v), lift(7)), lt(lift(Fraction(1, 10)), fabs(u - v))))
        r = k.call('d_gaussint', s, n, s * u, s * v)
        if k.degenerate([u, v]):
            k.ensure_close('symmetric limits', r, ZERO, TOL, powi(s, n))
            return
        tol, sc = 1e-5 if k.native else TOL, powi(s, n)
        k.ensure_close('derivative by the upper limit', k.D(r, v), powi(s * v, n) * gauss(v, s) * s, tol, sc)
        k.ensure_close('derivative by the lower limit', k.D(r, u), -powi(s * u, n) * gauss(u, s) * s, tol, sc)


@contract('C09', name='gaussian_integral_of_empty_interval')
def gint0(k):
    s, u = k.real('s', 'pos'), k.real('u')
    for n in range(8):
        k.ensure_eq('x^%d' % n, k.call('d_gaussint', s, n, s * u, s * u), ZERO)


@contract('C09')
def gaussian_value(k):
    s, u, x = k.real('s', 'pos'), k.real('u'), k.real('x')
    o = k.call('d_gausseval', s, s * u, k.out(3))
    k.ensure_close('value', o[0], gauss(u, s), TOL)
    k.ensure_close('derivative', o[1], -u / s * gauss(u, s), TOL)
    k.ensure_close('second derivative', o[2], (u * u - 1) / (s * s) * gauss(u, s), TOL)


for m in range(4):
    @contract('C09', name='monomial_%d' % m)
    def mono(k, m=m):
        x, a, b = k.reals('x a b')
        o = k.call('d_moneval', m, x, k.out(3))
        k.ensure_eq('value', o[0], powi(x, m))
        k.ensure_eq('derivative', o[1], m * powi(x, m - 1) if m > 0 else ZERO)
        k.ensure_eq('second derivative', o[2], m * (m - 1) * powi(x, m - 2) if m > 1 else ZERO)
        for n in range(4):
            k.ensure_eq('integral with x^%d' % n, k.call('d_monint', m, n, a, b), (powi(b, n + m + 1) - powi(a, n + m + 1)) / (n + m + 1))


# ---- roots and extrema ---------------------------------------------------------------------------
def coefs(sx, av):
    """in place of a polynomial solver: hand its coefficients (highest power first) to the contract"""
    for i, c in enumerate(av[:-1]):
        sx.store(add_ptr(av[-1], 8 * i), nz(c), 8)
    return ic(len(av) - 1)


def add_ptr(p, off):
    return Ptr(p.r, add(p.o, ic(off)))


SOLVERS = {'math::solve%s(%sdouble*)' % (nm, 'double, ' * m): coefs for nm, m in (('Linear', 2), ('Quadratic', 3), ('Cubic', 4), ('Quartic', 5))}


def segcheck(k, m, n, o, P, scale, label):
    """the polynomial given to the solver is a positive multiple of P (coefficients, lowest power first); natively: the
    reported roots are roots of P"""
    if k.native:
        for i in range(m - 1):
            v, s = ZERO, ZERO
            for j, c in enumerate(P):
                v, s = v + c * powi(o[i], j), s + fabs(c * powi(o[i], j))
            k.ensure('%s: root %d' % (label, i), or_(le(n, lift(i) * ONE), le(fabs(v), s * Fraction(1, 10**6))))
        return
    if m == 2:      # solved in place
        if k.decide(not_(eq(P[1], ZERO))):
            k.ensure(label + ': one root', eq(n, ic(1)))
            k.ensure_eq(label + ': root', o[0] * P[1], -P[0])
        return
    k.ensure(label + ': degree', eq(n, ic(m)))
    for j in range(m):
        k.ensure_close('%s: coefficient %d' % (label, j), o[m - 1 - j], P[j] * scale, TOL)


@contract('C09', callees=SOLVERS)
def cubic_segment_polynomials(k):
    n = 3
    X, h = nodes_(k, n)
    f = [k.real('f%d' % i) for i in range(2 * n)]
    y = k.real('y')
    for i in range(n - 1):
        c = polycoef(1, i, n, f, h[i])
        r, o = k.call('d_segroots', 1, i, n, X, f, k.out(5), y)
        segcheck(k, 4, r, o, [c[0] - y] + c[1:], ONE, 'value on segment %d' % i)
        r, o = k.call('d_segroots', 2, i, n, X, f, k.out(5), y)
        segcheck(k, 3, r, o, [c[1], 2 * c[2], 3 * c[3]], ONE, 'derivative on segment %d' % i)


@contract('C09', callees=SOLVERS)
def quintic_segment_polynomial(k):
    n = 3
    X, h = nodes_(k, n)
    f = [k.real('f%d' % i) for i in range(3 * n)]
    for i in range(n - 1):
        c = polycoef(2, i, n, f, h[i])
        r, o = k.call('d_segroots', 3, i, n, X, f, k.out(5), ZERO)
        segcheck(k, 5, r, o, [j * c[j] for j in range(1, 6)], powi(h[i], 4), 'derivative on segment %d' % i)


for N, D in ((1, 0), (2, 0), (3, 0), (2, 1), (3, 1)):
    @contract('C09', name='bspline%d_segment_polynomial_%d' % (N, D), callees=SOLVERS, weight=2)
    def bseg(k, N=N, D=D):
        n = 4
        X, h = nodes_(k, n)
        A = [k.real('a%d' % i) for i in range(n + N - 1)]
        y = k.real('y')
        for i in range(n - 1):
            c = polyderivs(k, N, n, X, A, i)
            c = [c[0] - y] + c[1:] if D == 0 else [j * c[j] for j in range(1, N + 1)]
            r, o = k.call('d_segroots', 4 + 4 * D + N, i, n, X, A, k.out(5), y)
            segcheck(k, N - D + 1, r, o, c, ONE, 'segment %d' % i)


def interval(k, X, lo, hi, rev=False):
    """ends of an interval in the given cells"""
    n = len(X)
    e = []
    for c, nm in ((lo, 'u'), (hi, 'v')):
        u = k.real(nm, lo=0, hi=1)
        k.require(and_(lt(lift(Fraction(1, 1000)), u), lt(u, lift(Fraction(999, 1000)))))
        e.append(X[0] - u if c < 0 else X[-1] + u if c > n - 2 else X[c] + u * (X[c + 1] - X[c]))
    if lo == hi:
        k.require(lt(var('u'), var('v')) if 0 <= lo else TRUE)
    return e[::-1] if rev else e


for lo, hi in ((-1, 9), (0, 1), (0, 0), (-1, 0), (1, 9), (-1, -1), (9, 9)):
    @contract('C09', name='root_selection_%d_%d' % (lo, hi), weight=3, forkselect_int=True)
    def rootsel(k, lo=lo, hi=hi):
        """findRoots with arbitrary sorted candidates on each segment: those in the segment and the interval, in increasing order"""
        n, m = 3, 2 if lo == hi else 1
        X, h = nodes_(k, n)
        x1, x2 = interval(k, X, lo, hi)
        r = [k.real('r%d' % i, lo=-1, hi=3) for i in range(m * (n - 1))]
        for i in range(n - 1):
            if m > 1:
                k.require(lt(r[m * i] + Fraction(1, 1000), r[m * i + 1]))
        f = [k.real('f%d' % i) for i in range(n)]
        for rev in (0, 1):
            cnt, o = k.call('d_roots', n, m, X, f, r, *((x2, x1) if rev else (x1, x2)), k.out(4))
            t = ' reversed' * rev
            cand = [X[i] + r[m * i + j] for i in range(n - 1) for j in range(m)]
            seg = [i for i in range(n - 1) for j in range(m)]
            ok = [and_(le(X[i], c), le(c, X[i + 1]), le(x1, c), le(c, x2)) for c, i in zip(cand, seg)]
            N = (lambda j: lift(j) * ONE) if k.native else ic
            for j in range(4):
                has = lt(N(j), cnt)
                if k.native or k.decide(has):
                    k.ensure('result %d is a root in the interval' % j + t, or_(not_(has), *[and_(a, eq(o[j], c)) for a, c in zip(ok, cand)]))
                    if j:
                        k.ensure('increasing order %d' % j + t, or_(not_(has), lt(o[j - 1], o[j])))
            for q_, (a, c) in enumerate(zip(ok, cand)):
                tol = lift(Fraction(1, 10**12)) * (fabs(c))
                k.ensure('candidate %d is reported' % q_ + t, or_(not_(a), *[and_(lt(N(j), cnt), le(fabs(o[j] - c), tol)) for j in range(4) if o[j] is not None]))


for lo, hi in ((-1, 9), (0, 1), (0, 0), (-1, -1), (9, 9)):
    @contract('C09', name='linear_roots_%d_%d' % (lo, hi), weight=3, forkselect_int=True)
    def linroot(k, lo=lo, hi=hi):
        n = 3
        X, h = nodes_(k, n)
        x1, x2 = interval(k, X, lo, hi)
        f = [k.real('f%d' % i) for i in range(n)]
        y = k.real('y')
        for i in range(n - 1):
            k.require(not_(eq(f[i], f[i + 1])))
        S = [lambda t, i=i: f[i] + (f[i + 1] - f[i]) * (t - X[i]) / h[i] for i in range(n - 1)]
        N = (lambda j: lift(j) * ONE) if k.native else ic
        cnt, o = k.call('d_sproots', 0, n, X, f, k.out(3), y, x1, x2)
        for j in range(3):
            has = lt(N(j), cnt)
            if k.native:
                continue
            if k.decide(has):
                k.ensure('root %d in the interval' % j, and_(le(x1, o[j]), le(o[j], x2), le(X[0], o[j]), le(o[j], X[-1])))
                i = 0 if k.decide(le(o[j], X[1])) else 1
                k.ensure_eq('value at root %d' % j, S[i](o[j]), y)
        for i in range(n - 1):
            if lo < 0 and hi > 1 or (lo, hi) == (0, 1):
                a = x1 if (lo, i) == (0, 0) else X[i]
                b = x2 if (hi, i) == (1, 1) else X[i + 1]
                inside = lt((S[i](a) - y) * (S[i](b) - y), ZERO)
                c = X[i] + (y - f[i]) * h[i] / (f[i + 1] - f[i])
                if k.native or k.decide(inside):
                    k.ensure('the root on segment %d is reported' % i, or_(not_(inside), *[and_(lt(N(j), cnt), le(fabs(o[j] - c),
                             lift(Fraction(1, 10**12)) * fabs(c))) for j in range(3) if o[j] is not None]))
            elif lo == hi and lo in (-1, 9):
                k.ensure('no roots outside the grid', eq(cnt, N(0)))


@contract('C09', weight=2)
def linear_extrema(k):
    """extrema of a linear interpolator over the entire grid or a part of it: the ends and the nodes where the slope changes sign"""
    n = 4
    X, h = nodes_(k, n)
    f = [k.real('f%d' % i) for i in range(n)]
    for i in range(n - 1):
        k.require(not_(eq(f[i], f[i + 1])))
    N = (lambda j: lift(j) * ONE) if k.native else ic
    for lo, hi in ((-1, 9), (0, 2), (1, 9)):
        x1, x2 = interval(k, X, lo, hi)
        cnt, o = k.call('d_spext', 0, n, X, f, k.out(4), x1, x2)
        exp = [X[0] if lo < 0 else x1]
        if k.native:
            k.ensure_eq('left end', o[0], exp[0])
            continue
        for i in range(max(lo, 0) + 1, min(hi, n - 2) + 1):
            if k.decide(lt((f[i] - f[i - 1]) * (f[i + 1] - f[i]), ZERO)):
                exp.append(X[i])
        exp.append(X[-1] if hi > n - 2 else x2)
        k.ensure('number of extrema %d %d' % (lo, hi), eq(cnt, ic(len(exp))))
        for j, e in enumerate(exp):
            k.ensure_eq('extremum %d' % j, o[j], e)


for lo, hi in ((-1, 9), (0, 1), (0, 0), (-1, -1), (9, 9)):
    @contract('C09', name='extremum_selection_%d_%d' % (lo, hi), weight=5, maxpaths=4000, forkselect_int=True)
    def extsel(k, lo=lo, hi=hi):
        """findRoots for extrema with arbitrary candidates: sorted points of the interval starting from its left end, at which
        the function alternately rises and falls"""
        n, m = 3, 1
        X, h = nodes_(k, n)
        x1, x2 = interval(k, X, lo, hi)
        r = [k.real('r%d' % i, lo=-1, hi=3) for i in range(m * (n - 1))]
        f = [k.real('f%d' % i) for i in range(n)]
        N = (lambda j: lift(j) * ONE) if k.native else ic
        cnt, o = k.call('d_extgen', n, m, X, f, r, x1, x2, k.out(4))
        if lo == hi and lo in (-1, 9):
            k.ensure('none outside the grid', eq(cnt, N(0)))
            return
        a, b = X[0] if lo < 0 else x1, X[-1] if hi > n - 2 else x2
        k.ensure_eq('left end', o[0], a)
        if k.native:
            return
        S = []
        cand = [X[i] + r[i] for i in range(n - 1)] + [b]
        for j in range(4):
            if not k.decide(lt(ic(j), cnt)):
                break
            i = 0 if k.decide(lt(o[j], X[1])) else 1
            S.append(f[i] + (f[i + 1] - f[i]) * (o[j] - X[i]) / h[i])
            if j:
                k.ensure('point %d comes after the previous one' % j, lt(o[j - 1], o[j]))
                k.ensure('point %d is a candidate' % j, or_(*[eq(o[j], c) for c in cand]))
                k.ensure('point %d in the interval' % j, le(o[j], b))
                k.ensure('value changes to point %d' % j, not_(eq(S[j], S[j - 1])))
            if j > 1:
                k.ensure('direction changes at point %d' % (j - 1), lt((S[j] - S[j - 1]) * (S[j - 1] - S[j - 2]), ZERO))


# ---- finite elements -----------------------------------------------------------------------------
def basis(k, N, n, X, i, d=0):
    """Taylor coefficients of the d-th derivative of the N+1 B-splines that are not zero on segment i, at its left end"""
    out = [[] for _ in range(N + 1)]
    fac = 1
    for e in range(d, N + 1):
        B = k.call('d_bspl', N, e, i, n, X, X[i], k.out(N + 1))
        fac *= max(e - d, 1)
        for j in range(N + 1):
            out[j].append(B[j] / lift(fac))
    return out


def pmul(a, b):
    r = [ZERO] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


def pint(c, h):
    r = ZERO
    for i, x in enumerate(c):
        r = r + x * powi(h, i + 1) / lift(i + 1)
    return r


def femnodes(k, N, n):
    X, h = nodes_(k, n)
    for g in h:
        k.require(and_(lt(lift(Fraction(1, 1000)), g), lt(g, lift(1000))))
    return X, h


for N in range(4):
    @contract('C09', name='projection_nodes_%d' % N)
    def fenod(k, N=N):
        n = 3
        X, h = femnodes(k, N, n)
        o = k.call('d_fenodes', N, n, X, k.out((n - 1) * (N + 1)))
        for i in range(n - 1):
            for p in range(N + 1):
                k.ensure('node %d %d inside its segment' % (i, p), and_(lt(X[i], o[i * (N + 1) + p]), lt(o[i * (N + 1) + p], X[i + 1])))

    for d in range(N + 1):
        @contract('C09', name='projection_vector_%d_%d' % (N, d), weight=3 + N, maxvisits=20000)
        def feproj(k, N=N, d=d):
            """projections of polynomials of degree up to N+1+d, given by their values at the nodes of the element, onto
            the d-th derivatives of basis functions"""
            n = 3
            X, h = femnodes(k, N, n)
            nb, ng = n + N - 1, (n - 1) * (N + 1)
            xi = k.call('d_fenodes', N, n, X, k.out(ng))
            # arbitrary polynomials on each segment
            P = [[k.real('p%d_%d' % (i, j)) for j in range(min(N + 2, 3) if not d else 2)] for i in range(n - 1)]
            f = []
            for i in range(n - 1):
                for p in range(N + 1):
                    s = ZERO
                    for j, c in enumerate(P[i]):
                        s = s + c * powi(xi[i * (N + 1) + p] - X[i], j)
                    f.append(s)
            o = k.call('d_feproj', N, n, d, X, f, k.out(nb + nb * nb))
            v = [ZERO] * nb
            for i in range(n - 1):
                for j, c in enumerate(basis(k, N, n, X, i, d)):
                    v[i + j] = v[i + j] + pint(pmul(c, P[i]), h[i])
            for j in range(nb):
                k.ensure_close('component %d' % j, o[j], v[j], TOL)

    for dp, dq in [(a, b) for a in range(3) for b in range(3)]:
        if max(dp, dq) > N:
            continue

        @contract('C09', name='projection_matrix_%d_%d%d' % (N, dp, dq), weight=3 + N, maxvisits=20000)
        def femat(k, N=N, dp=dp, dq=dq):
            n = 3
            X, h = femnodes(k, N, n)
            nb, ng = n + N - 1, (n - 1) * (N + 1)
            # the function is piecewise constant (piecewise linear for N>0)
            P = [[k.real('p%d_%d' % (i, j)) for j in range(2 if N else 1)] for i in range(n - 1)]
            xi = k.call('d_fenodes', N, n, X, k.out(ng))
            f = []
            for i in range(n - 1):
                for p in range(N + 1):
                    s = ZERO
                    for j, c in enumerate(P[i]):
                        s = s + c * powi(xi[i * (N + 1) + p] - X[i], j)
                    f.append(s)
            sc = ZERO
            for g in h:
                sc = sc + lift(Fraction(17, 7)) * powi(g, max(1 - dp - dq, 0)) / powi(g, max(dp + dq - 1, 0))
            b1 = [basis(k, N, n, X, i, dp) for i in range(n - 1)]
            b2 = [basis(k, N, n, X, i, dq) for i in range(n - 1)]
            for nofnc in (0, 1):
                o = k.call('d_feproj', N, n, dp + 4 * dq + 16 * nofnc, X, f, k.out(nb + nb * nb))
                M = [[ZERO] * nb for _ in range(nb)]
                for i in range(n - 1):
                    for a in range(N + 1):
                        for b in range(N + 1):
                            c = pmul(b1[i][a], b2[i][b])
                            M[i + a][i + b] = M[i + a][i + b] + pint(c if nofnc else pmul(c, P[i]), h[i])
                for a in range(nb):
                    for b in range(nb):
                        k.ensure_close('element %d %d' % (a, b) + ' of the mass matrix' * nofnc, o[nb + a * nb + b], M[a][b], TOL, sc)

    for sign in (0, 1):
        @contract('C09', name='point_convolution_%d_%d' % (N, sign), weight=3 + N, maxvisits=20000)
        def feconv(k, N=N, sign=sign):
            """integrals of B_j(y) K(x-y) (or K(y-x)) over the grid for the constant kernel and for K(z)=z"""
            n = 3
            X, h = femnodes(k, N, n)
            nb = n + N - 1
            t, m = k.real('t'), k.real('m')
            for q_ in range(2):
                c = [ZERO] * 3
                c[q_] = ONE
                v = [ZERO] * nb
                for i in range(n - 1):
                    for j, b in enumerate(basis(k, N, n, X, i)):
                        K = [ONE] if q_ == 0 else [t - X[i], -ONE] if sign else [X[i] - t, ONE]
                        v[i + j] = v[i + j] + m * pint(pmul(b, K), h[i])
                o = k.call('d_feconv', N, n, sign, X, c, t, m, k.out(nb))
                for j in range(nb):
                    k.ensure_close('K=z^%d component %d' % (q_, j), o[j], v[j], TOL)
