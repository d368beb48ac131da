"""C07: ODE solvers: every method is of the order it claims, its dense output agrees with the computed steps, and steps go where they are told."""
from functools import lru_cache
import mpmath
from agv.engine import contract
from agv.terms import *
from agv import terms as T

TUS = ['math_ode.cpp', 'math_core.cpp', 'math_specfunc.cpp']
DRV = ['drv_ode.cpp']


# ---- rooted trees: a tree is a sorted tuple of trees; order conditions sum_i b_i Phi_i(tree) = 1/gamma(tree)
@lru_cache(None)
def trees(n):
    if n == 1:
        return [()]
    out = set()
    for p in partitions(n - 1, n - 1):
        def rec(i, cur):
            if i == len(p):
                out.add(tuple(sorted(cur)))
                return
            for t in trees(p[i]):
                rec(i + 1, cur + [t])
        rec(0, [])
    return sorted(out)


@lru_cache(None)
def partitions(n, m):
    if n == 0:
        return [[]]
    return [[k] + r for k in range(min(n, m), 0, -1) for r in partitions(n - k, k)]


def order(t):
    return 1 + sum(map(order, t))


def gamma(t):
    g = order(t)
    for s in t:
        g *= gamma(s)
    return g


def phis(A, n):
    """Phi_i(tree) for the tableau A (lists of terms)"""
    memo = {}

    def phi(t):
        if t not in memo:
            v = [ONE] * n
            for s in t:
                ps = phi(s)
                w = [sum((A[i][j] * ps[j] for j in range(len(A[i])) if A[i][j] is not ZERO and ps[j] is not ZERO), ZERO) for i in range(n)]
                v = [a * b for a, b in zip(v, w)]
            memo[t] = v
        return memo[t]
    return phi


def coefs(arg, x0, dt, t0, ks, j):
    """coefficient of dt*k_j in arg = x0 + dt * sum a_j k_j"""
    return T.subst(arg, dict([(x0, ZERO), (dt, ONE), (t0, ZERO)] + [(kk, ONE if i == j else ZERO) for i, kk in enumerate(ks)]))


def dopsetup(k, n=1, dtlo=None):
    t0, dt = k.real('t0'), k.real('dt')
    k.require(not_(eq(dt, ZERO)))
    x = [k.real('x%d' % d) for d in range(n)]
    K = [[k.real('k%d_%d' % (i, d)) for d in range(n)] for i in range(13)]
    return t0, dt, x, K


def dop(k, n, t0, dt, x, K, t):
    log, o = k.call('d_dop', n, [t0, dt, ZERO, ONE, ONE], x, sum(K, []), k.out(13 * (n + 1)), k.out(4 + 3 * n), t)
    return log, o


@contract('C07', 'DOP853: eighth order (200 order conditions), stages consistent with their times', ring_s=60, maxpaths=60)
def dop_order(k):
    t0, dt, x, K = dopsetup(k)
    ks = [a[0] for a in K]
    log, o = dop(k, 1, t0, dt, x, K, t0)
    k.ensure_eq('number of evaluations', o[3], lift(13))
    k.ensure_eq('time reported', o[0], dt)
    k.ensure_eq('time advanced', o[1], t0 + dt)
    k.ensure_eq('first evaluation at the initial point', log[1], x[0])
    k.ensure_eq('first evaluation at the initial time', log[0], t0)
    A = []
    for i in range(13):
        a = [coefs(log[2 * i + 1], x[0], dt, t0, ks, j) for j in range(i)]
        A.append(a)
        k.ensure_eq('stage %d is linear in the previous derivatives' % i, log[2 * i + 1], x[0] + dt * sum((c * kk for c, kk in zip(a, ks)), ZERO))
        c = coefs(log[2 * i], x[0], dt, t0, ks, -1)
        k.ensure_eq('time of stage %d' % i, log[2 * i], t0 + c * dt)
        k.ensure_close('stage %d consistent with its time' % i, sum(a, ZERO), c, 1e-13)
    b = A[12]
    phi = phis(A[:12], 12)
    for r in range(1, 9):
        for t in trees(r):
            k.ensure_close('order %d condition %r' % (r, t), sum((u * v for u, v in zip(b, phi(t))), ZERO), lift(Fraction(1, gamma(t))), 1e-11)
    k.ensure_eq('solution at the end of the step', o[5], x[0] + dt * sum((c * kk for c, kk in zip(b, ks)), ZERO))
    k.ensure_eq('solution at the beginning of the step', o[4], x[0])
    k.ensure_eq('last evaluation at the end of the step', log[25], o[5])


@contract('C07', 'DOP853: components do not mix', ring_s=60, maxpaths=60)
def dop_comp(k):
    t0, dt, x, K = dopsetup(k, 2)
    log, o = dop(k, 2, t0, dt, x, K, t0)
    m = dict((v, x[0]) for v in x[1:])
    m.update((K[i][1], K[i][0]) for i in range(13))
    for i in range(13):
        k.ensure_eq('stage %d: second component by the same formula' % i, T.subst(log[3 * i + 2], m), log[3 * i + 1])
        k.ensure_eq('stage %d: first component independent of the second' % i, T.subst(log[3 * i + 1], m), log[3 * i + 1])
        k.ensure_eq('stage %d: second component independent of the first' % i, T.subst(log[3 * i + 2], dict([(x[0], ZERO)] + [(a[0], ZERO) for a in K])), log[3 * i + 2])
    for j in (4, 6):
        k.ensure_eq('solution at %d: second component by the same formula' % j, T.subst(o[j + 1], m), o[j])


def dense(k, what):
    t0, dt, x, K = dopsetup(k)
    th = k.real('th', lo=0, hi=1)
    ks = [a[0] for a in K]
    log, o = dop(k, 1, t0, dt, x, K, t0 + th * dt)
    return t0, dt, x[0], ks, th, log, o, o[6]


@contract('C07', 'DOP853: dense output has a local error O(dt^7) and joins the steps smoothly', ring_s=60, maxpaths=60)
def dop_dense(k):
    t0, dt, x, ks, th, log, o, f = dense(k, 0)
    A = [[coefs(log[2 * i + 1], x, dt, t0, ks, j) for j in range(i)] for i in range(13)]
    B = [coefs(f, x, dt, t0, ks, j) for j in range(13)]
    k.ensure_close('linear in the derivatives', f, x + dt * sum((c * kk for c, kk in zip(B, ks)), ZERO), 1e-14)
    phi = phis(A, 13)
    for r in range(1, 7):
        for t in trees(r):
            k.ensure_close('order %d condition %r at any time' % (r, t), sum((u * v for u, v in zip(B, phi(t))), ZERO), th ** r / gamma(t), 1e-9, sc=th)
    k.ensure_close('value at the beginning', T.subst(f, {th: ZERO}), o[4], 1e-13)
    k.ensure_close('value at the end', T.subst(f, {th: ONE}), o[5], 1e-13)
    d = k.D(f, th)
    k.ensure_close('derivative at the beginning', T.subst(d, {th: ZERO}), dt * ks[0], 1e-13)
    k.ensure_close('derivative at the end', T.subst(d, {th: ONE}), dt * ks[12], 1e-13)


def auto(k, d):
    t0, h, x = k.real('t0'), k.real('h', lo=0), k.real('x')
    k.require(ne(h, ZERO))
    rel, ab, fac = k.real('accRel', lo=0, hi=1), k.real('accAbs', lo=0, hi=1), k.real('accFac', lo=0, hi=1)
    k.require(ne(rel, ZERO))
    k.require(ne(fac, ZERO))
    K = [k.real('k%d' % i) for i in range(25)]
    log, o = k.call('d_dopauto', d, [t0, h, rel, ab, fac], [x], K, k.out(50), k.out(5))
    return t0, h, x, K, log, o


def mkauto(d):
    @contract('C07', 'DOP853: length and direction of a step chosen automatically, %s' % ('backward', 'forward')[d], ring_s=60, maxpaths=400, samples=1500)
    def dop_auto(k):
        t0, h, x, K, log, o = auto(k, d)
        sg = lift(2 * d - 1)
        imp, fr = implies, lambda a: lift(Fraction(a))
        k.ensure('direction of time', or_(eq(o[0], ZERO), lt(ZERO, o[0] * sg)))
        k.ensure('not longer than the estimate', le(o[0] * sg, h))
        k.ensure_eq('time advanced by the step', o[1], t0 + o[0])
        k.ensure('number of evaluations of an accepted step', or_(eq(o[0], ZERO), eq(o[3], lift(13)), eq(o[3], lift(24))))
        one, two = and_(ne(o[0], ZERO), eq(o[3], lift(13))), and_(ne(o[0], ZERO), eq(o[3], lift(24)))
        k.ensure('one attempt: full length', imp(one, eq(o[0], h * sg)))
        k.ensure('one attempt: next step at least 9/10 of this one', imp(one, le(h * fr('0.9'), o[2])))
        k.ensure('one attempt: next step at most 6 times longer', imp(one, le(o[2], 6 * h)))
        k.ensure('two attempts: shortened', imp(two, le(o[0] * sg, h * fr('0.9'))))
        k.ensure('two attempts: shortened by no more than 3 times', imp(two, le(h * fr('0.333'), o[0] * sg)))
        k.ensure('two attempts: next step', imp(two, and_(le(o[0] * sg * fr('0.9'), o[2]), le(o[2], 6 * o[0] * sg))))


mkauto(0)
mkauto(1)


def mkerr(m):
    @contract('C07', 'DOP853: error estimate vanishes where the lower-order formulas are exact: derivative ~ t^%d' % m, ring_s=60, maxpaths=100)
    def dop_err(k):
        al = k.real('al', lo=-1000, hi=1000)
        cs = dopnodes(k)
        K = [al * c ** m for c in cs]
        log, o = k.call('d_dop', 1, [ZERO, ONE, ZERO, ONE, ONE], [ZERO], K, k.out(26), k.out(7), ZERO)
        k.ensure('next step longer by the largest factor allowed', eq(o[2], lift(6)))


def dopnodes(k):
    """times of the evaluations of one step starting at t=0 with a unit length"""
    log, o = k.call('d_dop', 1, [ZERO, ONE, ZERO, ONE, ONE], [ZERO], [ZERO] * 13, k.out(26), k.out(7), ZERO)
    return [log[2 * i] for i in range(13)]


for m in range(5):
    mkerr(m)


@contract('C07', 'DOP853: next step continues from the end of the previous one', ring_s=60, maxpaths=400)
def dop_two(k):
    t0, dt, d2, x, t = k.real('t0'), k.real('dt'), k.real('d2'), k.real('x'), k.real('t')
    k.require(not_(eq(dt, ZERO)))
    k.require(not_(eq(d2, ZERO)))
    K = [k.real('k%d' % i) for i in range(25)]
    log, o = k.call('d_dop2', [t0, dt, d2], [x], K, k.out(50), k.out(5), t)
    k.ensure_eq('time', o[1], t0 + dt + d2)
    k.ensure_eq('solution at the beginning of the second step', o[2], o[0])
    k.ensure_eq('no evaluation repeated', log[26], t0 + dt + (log[2] - t0) * d2 / dt)
    # the second step is the first one with other names
    m = dict([(t0, t0 + dt), (dt, d2), (x, o[0]), (K[0], K[12])] + [(K[i], K[12 + i]) for i in range(1, 13)])
    k.ensure_eq('result of the second step', o[3], T.subst(o[0], m))
    for i in range(1, 13):
        k.ensure_eq('stage %d of the second step: time' % i, log[24 + 2 * i], T.subst(log[2 * i], m))
        k.ensure_eq('stage %d of the second step' % i, log[25 + 2 * i], T.subst(log[2 * i + 1], m))


@contract('C07', 'DOP853: initialization', ring_s=60, maxpaths=100)
def dop_init(k):
    t0, h, x, y = k.real('t0'), k.real('h', lo=0), k.real('x'), k.real('y')
    k.require(ne(h, ZERO))
    K = [k.real('k%d' % i) for i in range(26)]
    log, o = k.call('d_dopinit', 2, [t0, h, ZERO, ONE], [x, y], K, k.out(39), k.out(5))
    k.ensure_eq('time', o[0], t0)
    k.ensure_eq('time step', o[1], h)
    k.ensure_eq('evaluations', o[2], ONE)
    k.ensure_eq('x', o[3], x)
    k.ensure_eq('y', o[4], y)
    k.ensure_eq('point of evaluation x', log[1], x)
    k.ensure_eq('point of evaluation y', log[2], y)
    k.ensure_eq('time of evaluation', log[0], t0)


@contract('C07', 'initial time step is positive and within the limits', ring_s=60, maxpaths=2000)
def inittime(k):
    t0, x, rel, ab = k.real('t0'), k.real('x'), k.real('accRel', lo=0, hi=1), k.real('accAbs', lo=0)
    K = [k.real('k%d' % i) for i in range(3)]
    log = k.out(6)
    r, log = k.call('d_inittime', [t0, ZERO, rel, ab], [x], K, log)
    k.ensure('lower limit', le(lift(Fraction(1e-12)), r))
    k.ensure('upper limit', le(r, lift(Fraction(10 ** 12))))
    k.ensure_eq('first evaluation at the initial point', log[1], x)
    k.ensure_eq('second evaluation: Euler step', log[3], x + (log[2] - t0) * K[0])
    k.ensure_eq('third evaluation: Heun step', log[5], x + (log[2] - t0) / 2 * (K[0] + K[1]))
    k.ensure_eq('third evaluation: time', log[4], log[2])


def mkrange(which, n, size, what):
    @contract('C07', 'index outside the solution vector is rejected: %s, %d' % (what, n))
    def rng(k):
        def thr(k):
            k.ensure('rejected', TRUE)
        k.onthrow = thr
        k.call('d_range', which, n)
        k.ensure('rejected', FALSE)


for n in (1, 2, 6):
    mkrange(0, n, n, 'DOP853')
for n in (1, 2):
    mkrange(1, n, n, 'GL3')
    mkrange(2, n, n, 'GL4')


# ---- Hermite
def herm(k, n=1, tt=None):
    t0, dt = k.real('t0'), k.real('dt')
    k.require(not_(eq(dt, ZERO)))
    x = [k.real('x%d' % i) for i in range(2 * n)]
    K = [k.real('%s%d_%d' % (w, i, j)) for i in range(2) for w in 'ab' for j in range(n)]
    t = k.real('t')
    if tt:
        k.require(ne(t, t0 + dt))
    log, o = k.call('d_hermstep', n, [t0, dt], x, K, k.out(2 * (2 * n + 1)), k.out(3 + 8 * n), t)
    return t0, dt, x, K, t, log, o


@contract('C07', 'Hermite: predictor, corrector and bookkeeping')
def herm_step(k):
    t0, dt, x, K, t, log, o = herm(k)
    a0, b0, a1, b1 = K
    k.ensure_eq('returned step', o[0], dt)
    k.ensure_eq('time', o[1], t0 + dt)
    k.ensure_eq('evaluations', o[2], lift(2))
    for i in range(2):
        k.ensure_eq('right after initialization %d' % i, o[9 + i], x[i])
        k.ensure_eq('solution at the beginning %d' % i, o[3 + i], x[i])
        k.ensure_eq('first evaluation %d' % i, log[1 + i], x[i])
    k.ensure_eq('first evaluation, time', log[0], t0)
    k.ensure_eq('second evaluation, time', log[3], t0 + dt)
    k.ensure_eq('predicted position', log[4], x[0] + dt * x[1] + dt ** 2 / 2 * a0 + dt ** 3 / 6 * b0)
    k.ensure_eq('predicted velocity', log[5], x[1] + dt * a0 + dt ** 2 / 2 * b0)
    v = x[1] + dt / 2 * (a0 + a1) + dt ** 2 / 12 * (b0 - b1)
    k.ensure_eq('corrected velocity', o[6], v)
    k.ensure_eq('corrected position', o[5], x[0] + dt / 2 * (x[1] + v) + dt ** 2 / 12 * (a0 - a1))


@contract('C07', 'Hermite: second component by the same formulas')
def herm_comp(k):
    t0, dt, x, K, t, log, o = herm(k, 2)
    m = {x[1]: x[0], x[3]: x[2], K[1]: K[0], K[3]: K[2], K[5]: K[4], K[7]: K[6]}
    for j in (1, 3, 6, 8):
        k.ensure_eq('evaluation %d' % j, T.subst(log[j + 1], m), log[j])
    for j in range(3, 15, 2):
        k.ensure_eq('solution %d' % j, T.subst(o[j + 1], m), o[j])
    z = {x[0]: ZERO, x[2]: ZERO, K[0]: ZERO, K[2]: ZERO, K[4]: ZERO, K[6]: ZERO}
    for j in range(3, 15, 2):
        k.ensure_eq('independent of the other component %d' % j, T.subst(o[j + 1], z), o[j + 1])


def hermpoly(deg):
    @contract('C07', 'Hermite: exact for an acceleration of degree %d in time' % deg)
    def herm_exact(k):
        t0, dt = k.real('t0'), k.real('dt')
        k.require(not_(eq(dt, ZERO)))
        x = [k.real('x'), k.real('v')]
        c = [k.real('c%d' % i) for i in range(deg + 1)]
        t = k.real('t')
        a = lambda s: sum((ci * s ** i for i, ci in enumerate(c)), ZERO)
        b = lambda s: sum((i * ci * s ** (i - 1) for i, ci in enumerate(c) if i), ZERO)
        v = lambda s: x[1] + sum((ci * s ** (i + 1) / (i + 1) for i, ci in enumerate(c)), ZERO)
        p = lambda s: x[0] + x[1] * s + sum((ci * s ** (i + 2) / (i + 1) / (i + 2) for i, ci in enumerate(c)), ZERO)
        log, o = k.call('d_hermstep', 1, [t0, dt], x, [a(ZERO), b(ZERO), a(dt), b(dt)], k.out(6), k.out(11), t)
        k.ensure_eq('velocity at the end', o[6], v(dt))
        if deg < 3:
            k.ensure_eq('position at the end', o[5], p(dt))
        k.ensure_eq('position at any other time', ite(eq(t, t0 + dt), p(dt), o[7]), ite(eq(t, t0 + dt), p(dt), p(t - t0)))
        k.ensure_eq('velocity at any other time', ite(eq(t, t0 + dt), v(dt), o[8]), ite(eq(t, t0 + dt), v(dt), v(t - t0)))


for d in range(4):
    hermpoly(d)


@contract('C07', 'Hermite: dense velocity is the derivative of the dense position')
def herm_dense(k):
    t0, dt, x, K, t, log, o = herm(k, 1, True)
    k.ensure_eq('velocity', k.D(o[7], t), o[8])
    a = k.D(o[8], t)
    k.ensure_eq('acceleration at the beginning', T.subst(a, {t: t0}), K[0])
    k.ensure_eq('jerk at the beginning', T.subst(k.D(a, t), {t: t0}), K[1])
    k.ensure_eq('acceleration at the end', T.subst(a, {t: t0 + dt}), K[2])
    k.ensure_eq('jerk at the end', T.subst(k.D(a, t), {t: t0 + dt}), K[3])
    k.ensure_eq('velocity at the end', T.subst(o[8], {t: t0 + dt}), o[6])


def mkhauto(d):
    @contract('C07', 'Hermite: length and direction of a step chosen automatically, %s' % ('backward', 'forward')[d], ring_s=60, maxpaths=400, samples=1500)
    def herm_auto(k):
        t0, h = k.real('t0'), k.real('h', lo=0)
        k.require(ne(h, ZERO))
        x = [k.real('x'), k.real('v')]
        K = [k.real('k%d' % i) for i in range(12)]
        log, o = k.call('d_hermauto', d, [t0, h], x, K, k.out(18), k.out(5))
        sg = lift(2 * d - 1)
        k.ensure_eq('time advanced by the step', o[1], t0 + o[0])
        k.ensure('not longer than the estimate', le(o[0] * sg, h))
        k.ensure('direction of time', le(ZERO, o[0] * sg))
        k.ensure('at most three attempts', le(o[2], lift(4)))
        k.ensure('first attempt accepted: full length', implies(eq(o[2], lift(2)), eq(o[0], h * sg)))


mkhauto(0)
mkhauto(1)


# ---- Gauss-Legendre solvers for linear systems x'' = A(t) x + B(t) x'
def glnodes(s):
    xs = [mpmath.polyroots(mpmath.taylor(lambda z: mpmath.legendre(s, z), 0, s)[::-1], maxsteps=200, extraprec=200)][0]
    return sorted((mpmath.re(x) + 1) / 2 for x in xs)


def lagrange(hs, i):
    """coefficients of the i-th Lagrange polynomial on the nodes"""
    c = [mpmath.mpf(1)]
    for j, h in enumerate(hs):
        if j != i:
            d = hs[i] - h
            c = [(c[m - 1] if m else 0) / d - (c[m] if m < len(c) else 0) * h / d for m in range(len(c) + 1)]
    return c


def numq(x):
    return lift(Fraction(int(mpmath.nint(x * mpmath.mpf(10) ** 25)), 10 ** 25))


@lru_cache(None)
def glw(s):
    with mpmath.workdps(40):
        hs = glnodes(s)
        L = [lagrange(hs, i) for i in range(s)]
        w = [sum(c / (m + 1) for m, c in enumerate(l)) for l in L]
        om = [sum(c / (m + 1) - c / (m + 2) for m, c in enumerate(l)) for l in L]
        return [numq(h) for h in hs], [numq(x) for x in w], [numq(x) for x in om]


class GL(object):
    def __init__(self, k, s, N, nvec=1):
        self.k, self.s, self.N, self.nvec, self.nst = k, s, N, nvec, s + 2
        self.f = 'd_gl%d%d' % (s, N)

    def run(self, t0, dt, new, st, m, t):
        n = 2 * self.N * self.nvec
        log, o = self.k.call(self.f, self.nvec, [t0, dt, lift(new)], st, m, self.k.out(8), self.k.out(3 * n + 2), t)
        return log, o[:n], o[n:2 * n], o[2 * n:3 * n], o[3 * n]


def mkgl(s):
    nm = 'GL%d' % s

    @contract('C07', nm + ': interpolated velocity is the derivative of the interpolated position')
    def gl_deriv(k):
        for N in (1, 3):
            st = [k.real('s%d_%d' % (N, i)) for i in range((s + 2) * N)]
            t0, t = k.real('t0'), k.real('t')
            k.require(ne(t, t0))
            log, o0, oe, ot, te = GL(k, s, N).run(t0, ZERO, 0, st, [ZERO], t)
            for d in range(N):
                k.ensure_eq('N=%d position at the current time %d' % (N, d), o0[d], st[d])
                k.ensure_eq('N=%d velocity at the current time %d' % (N, d), o0[N + d], st[N + d])
                k.ensure_eq('N=%d derivative %d' % (N, d), k.D(ot[d], t), ot[N + d])
                k.ensure_eq('N=%d position in the limit %d' % (N, d), T.subst(ot[d], {t: t0}), st[d])
                k.ensure_eq('N=%d velocity in the limit %d' % (N, d), T.subst(ot[N + d], {t: t0}), st[N + d])

    @contract('C07', nm + ': evaluations at the Gauss-Legendre nodes')
    def gl_nodes(k):
        for N in (1, 2, 3):
            t0, dt = k.real('t0'), k.real('dt')
            k.require(ne(dt, ZERO))
            log, o0, oe, ot, te = GL(k, s, N).run(t0, dt, 0, [ZERO] * ((s + 2) * N), [ZERO] * (2 * s * N * N), t0)
            k.ensure_eq('N=%d time after the step' % N, te, t0 + dt)
            for i, h in enumerate(glw(s)[0]):
                k.ensure_close('N=%d node %d' % (N, i), log[i], t0 + h * dt, 1e-15)

    def mkforce(j, N, new):
        @contract('C07', nm + ': forcing by dimension %d of %d, %s step' % (j, N, ('subsequent', 'first')[new]), ring_s=60, maxvisits=200)
        def gl_force(k):
            t0, dt = k.real('t0'), k.real('dt')
            k.require(ne(dt, ZERO))
            st = [k.real('s%d' % i) for i in range((s + 2) * N)]
            for m in range(s):
                st[(2 + m) * N + j] = ZERO
            m, F = [], []
            hs, w, om = glw(s)
            for i in range(s):
                a = [[ZERO] * N for _ in range(N)]
                b = [[ZERO] * N for _ in range(N)]
                for d in range(N):
                    if d != j:
                        a[d][j], b[d][j] = k.real('a%d_%d' % (i, d)), k.real('b%d_%d' % (i, d))
                m += sum(a, []) + sum(b, [])
                F.append([a[d][j] * (st[j] + st[N + j] * hs[i] * dt) + b[d][j] * st[N + j] for d in range(N)])
            log, o0, oe, ot, te = GL(k, s, N).run(t0, dt, new, st, m, t0)
            for d in range(N):
                k.ensure_close('position %d' % d, oe[d], st[d] + st[N + d] * dt + dt ** 2 * sum((om[i] * F[i][d] for i in range(s)), ZERO), 1e-13)
                k.ensure_close('velocity %d' % d, oe[N + d], st[N + d] + dt * sum((w[i] * F[i][d] for i in range(s)), ZERO), 1e-13)
                k.ensure_close('dense position at the beginning %d' % d, ot[d], st[d], 1e-13)
                k.ensure_close('dense velocity at the beginning %d' % d, ot[N + d], st[N + d], 1e-13)
    for N in (2, 3):
        for j in range(N):
            for new in (0, 1):
                mkforce(j, N, new)

    def mkpoly(new):
        @contract('C07', nm + ': acceleration of degree %d in time, %s step: the dense output is exact' % (s - 1, ('subsequent', 'first')[new]), ring_s=60)
        def gl_poly(k):
            t0, dt, th = k.real('t0'), k.real('dt'), k.real('th', lo=0, hi=1)
            t = t0 + th * dt
            k.require(ne(dt, ZERO))
            k.require(ne(th, ONE))
            st = [k.real('s%d' % i) for i in range((s + 2) * 2)]
            st[1], st[3] = ONE, ZERO
            for m in range(s):
                st[5 + 2 * m] = ZERO
            c = [k.real('c%d' % i) for i in range(s)]
            m = []
            for i in range(s):
                h = glw(s)[0][i] * dt
                m += [ZERO, sum((cc * h ** e for e, cc in enumerate(c)), ZERO), ZERO, ZERO] + [ZERO] * 4
            log, o0, oe, ot, te = GL(k, s, 2).run(t0, dt, new, st, m, t)
            u = th * dt
            k.ensure_close('position', ot[0], st[0] + st[2] * u + sum((cc * u ** (e + 2) / (e + 1) / (e + 2) for e, cc in enumerate(c)), ZERO), 1e-11)
            k.ensure_close('velocity', ot[2], st[2] + sum((cc * u ** (e + 1) / (e + 1) for e, cc in enumerate(c)), ZERO), 1e-11)
    mkpoly(0)
    mkpoly(1)

    def mkorder(new, damp):
        @contract('C07', nm + ': order %d for a variable-coefficient equation%s, %s step' % (2 * s, (' without', ' with')[damp] + ' damping', ('subsequent', 'first')[new]), ring_s=120)
        def gl_order(k):
            dt = k.real('dt')
            k.require(ne(dt, ZERO))
            x, v = k.real('x'), k.real('v')
            na, nb = (2, 2) if damp else (3, 0)
            A = [k.real('A%d' % i) for i in range(na)]
            B = [k.real('B%d' % i) for i in range(nb)]
            # Taylor coefficients of the exact solution
            c = [x, v]
            for n in range(2 * s):
                f = sum((A[i] * c[n - i] for i in range(na) if i <= n), ZERO) + sum((B[i] * c[n - i + 1] * (n - i + 1) for i in range(nb) if i <= n), ZERO)
                c.append(f / ((n + 1) * (n + 2)))
            st = [x, v] + ([ZERO] * s if new else c[2:2 + s])
            m = []
            for i in range(s):
                h = glw(s)[0][i] * dt
                m += [sum((a * h ** e for e, a in enumerate(A)), ZERO), sum((a * h ** e for e, a in enumerate(B)), ZERO)]
            log, o0, oe, ot, te = GL(k, s, 1).run(ZERO, dt, new, st, m, ZERO)
            if oe[0].op == 'uf':      # bounded stand-in (native sampling): compare with the summed Taylor series
                n = 24
                for i in range(2 * s, n):
                    f = sum((A[j] * c[i - j] for j in range(na) if j <= i), ZERO) + sum((B[j] * c[i - j + 1] * (i - j + 1) for j in range(nb) if j <= i), ZERO)
                    c.append(f / ((i + 1) * (i + 2)))
                for z in [x, v] + A + B:
                    k.require(and_(lt(lift(-2), z), lt(z, lift(2))))
                k.require(and_(lt(lift(Fraction(-1, 4)), dt), lt(dt, lift(Fraction(1, 4)))))
                for nm_, a, b in (('position', oe[0], sum((u * dt ** i for i, u in enumerate(c)), ZERO)), ('velocity', oe[1], sum((u * i * dt ** (i - 1) for i, u in enumerate(c) if i), ZERO))):
                    k.ensure(nm_, le(absv(a - b), lift(Fraction(1, 10 ** 6))))
                return
            p = tser(oe[0], dt, 2 * s + 1)
            q = tser(oe[1], dt, 2 * s + 1)
            for n in range(2 * s + 1):
                k.ensure_close('position: term of order %d' % n, p[n], c[n], 1e-11)
                if n < 2 * s + 1:
                    k.ensure_close('velocity: term of order %d' % n, q[n], c[n + 1] * (n + 1), 1e-11)
    for new in (0, 1):
        for damp in (0, 1):
            mkorder(new, damp)

    @contract('C07', nm + ': several vectors are advanced independently')
    def gl_vec(k):
        N = 1
        t0, dt, t = k.real('t0'), k.real('dt'), k.real('t')
        k.require(ne(dt, ZERO))
        k.require(ne(t, t0 + dt))
        st = [[k.real('s%d_%d' % (v, i)) for i in range(s + 2)] for v in range(3)]
        m = [k.real('m%d' % i) for i in range(2 * s)]
        log, o0, oe, ot, te = GL(k, s, 1, 3).run(t0, dt, 0, sum(st, []), m, t)
        for v in (1, 2):
            sub = dict(zip(st[0], st[v]))
            for i in range(2):
                k.ensure_eq('vector %d, before' % v, o0[2 * v + i], st[v][i])
                k.ensure_eq('vector %d, after' % v, oe[2 * v + i], T.subst(oe[i], sub))
                k.ensure_eq('vector %d, dense' % v, ot[2 * v + i], T.subst(ot[i], sub))

    @contract('C07', nm + ': initialization discards the previous steps')
    def gl_init(k):
        for N, nv in ((1, 1), (2, 2), (3, 3)):
            t0, t = k.real('t0'), k.real('t')
            k.require(ne(t, t0))
            x = [k.real('x%d_%d' % (N, i)) for i in range(2 * N * nv)]
            n = len(x)
            o = k.call('d_gl%d%dinit' % (s, N), nv, [t0], x, k.out(2 * n + 1), t)
            k.ensure_eq('first step', o[n], ONE)
            for i in range(n):
                k.ensure_eq('N=%d element %d' % (N, i), o[i], x[i])
                k.ensure_eq('N=%d element %d, extrapolated' % (N, i), o[n + 1 + i], x[i] + (t - t0) * x[i + N] if i % (2 * N) < N else x[i])


def tser(f, h, n):
    """Taylor coefficients of f in h up to (not including) order n"""
    memo = {}
    z = [ZERO] * n

    def rec(t):
        if t.id in memo:
            return memo[t.id]
        if t is h:
            r = [ZERO, ONE] + [ZERO] * (n - 2)
        elif h not in T.variables(t):
            r = [t] + [ZERO] * (n - 1)
        elif t.op == '+':
            r = [sum(c, ZERO) for c in zip(*map(rec, t.args))]
        elif t.op == 'neg':
            r = [-c for c in rec(t.args[0])]
        elif t.op == '*':
            r = None
            for a in t.args:
                b = rec(a)
                r = b if r is None else [sum((r[i] * b[m - i] for i in range(m + 1) if r[i] is not ZERO and b[m - i] is not ZERO), ZERO) for m in range(n)]
        elif t.op == '/' and h not in T.variables(t.args[1]):
            r = [c / t.args[1] for c in rec(t.args[0])]
        else:
            raise ValueError('series of ' + T.show(t))
        memo[t.id] = r
        return r
    return rec(f)


mkgl(3)
mkgl(4)
