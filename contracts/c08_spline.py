"""C08: one-dimensional interpolators: values at the nodes, derivatives, continuity, extrapolation; B-splines."""
from agv.engine import contract, ArrArg
from agv.terms import *
from agv import terms as T
import numpy as np

TUS = ['math_core.cpp', 'math_specfunc.cpp', 'math_linalg.cpp', 'math_fit.cpp', 'utils.cpp']
DRV = ['drv_spline.cpp']


def gengrid(rng, ns, maxlen, nn):
    a = np.cumsum(rng.uniform(0.2, 1.5, (ns, maxlen)), axis=1) - 3
    return a


def genval(rng, ns, maxlen, nn):
    return rng.normal(size=(ns, maxlen))


def increasing(i, v, j, w):
    import z3
    return None if j is None else z3.Implies(i < j, v < w)


def grid(k, minlen=2, nm='x', nn='n'):
    n = k.int(nn, minlen, 1000000, maxsample=8)
    S = k.ex.samples
    S.env[n] = np.clip(S.env[n], minlen, minlen + 6)
    X = ArrArg(k, nm, n, 12, gengrid, [increasing])
    return n, X


def cell(k, n, X, tn='t', iname='i', ends=False):
    """a point of the grid and the index of the cell that contains it"""
    i, t = k.int(iname, 0), k.real(tn)
    S = k.ex.samples
    k.ex.__dict__.setdefault('cells', set()).add((i, t, X.name))
    if not hasattr(k.ex, 'cellset'):
        k.ex.cellset = set()
    if i not in k.ex.cellset:
        k.ex.cellset.add(i)
        rng = np.random.default_rng(len(k.ex.cellset))
        iv = (rng.random(S.n) * (S.env[n] - 1)).astype(int)
        u = rng.random(S.n)
        u[rng.random(S.n) < 0.1] = 0
        A = S.arrs[X.name]
        r = np.arange(S.n)
        last = (iv == S.env[n] - 2) & (rng.random(S.n) < 0.2)
        S.setvar(i, iv)
        S.setvar(t, np.where(last, A[r, iv + 1], A[r, iv] + u * (A[r, iv + 1] - A[r, iv])))
    k.require(le(i, n - ic(2)))
    k.require(lt(X[i], X[i + ic(1)]))
    k.require(le(X[i], t))
    k.require(or_(lt(t, X[i + ic(1)]), and_(eq(i, n - ic(2)), eq(t, X[i + ic(1)]))))
    if k.native and not ends:          # the numerical derivatives need some room
        k.require(and_(lt(X[i] + Fraction(1, 20), t), lt(t, X[i + ic(1)] - Fraction(1, 20))))
    k.require(le(X[ic(0)], t))         # follow from the ordering of the nodes
    k.require(le(t, X[n - ic(1)]))
    return i, t


@contract('C08', weight=2)
def linear_inside(k):
    n, X = grid(k)
    F = ArrArg(k, 'f', n, 12, genval)
    i, t = cell(k, n, X)
    o = k.call('d_lin', n, X, F, t, k.out(4))
    k.ensure_eq('straight line through the two nodes', (o[0] - F[i]) * (X[i + ic(1)] - X[i]), (t - X[i]) * (F[i + ic(1)] - F[i]))
    k.ensure_eq('slope', o[1], k.D(o[0], t))
    k.ensure_eq('second derivative', o[2], ZERO)
    k.ensure_eq('third derivative', o[3], ZERO)


def outer(k, n, X, right):
    t, u = k.real('t'), k.real('u', 'pos')
    S = k.ex.samples
    if not hasattr(k.ex, 'outset'):
        k.ex.outset = True
        A, r = S.arrs[X.name], np.arange(S.n)
        S.setvar(t, A[r, S.env[n] - 1] + S.env[u] if right else A[r, 0] - S.env[u])
    k.require(lt(X[n - ic(1)], t) if right else lt(t, X[ic(0)]))
    return t


for right in (0, 1):
    @contract('C08', name='linear_%s_of_grid' % ['left', 'right'][right])
    def linear_outside(k, right=right):
        n, X = grid(k)
        F = ArrArg(k, 'f', n, 12, genval)
        t = outer(k, n, X, right)
        o = k.call('d_lin', n, X, F, t, k.out(4))
        i = n - ic(2) if right else ic(0)
        k.require(lt(X[i], X[i + ic(1)]))
        k.ensure_eq('straight line', (o[0] - F[i]) * (X[i + ic(1)] - X[i]), (t - X[i]) * (F[i + ic(1)] - F[i]))
        k.ensure_eq('slope', o[1] * (X[i + ic(1)] - X[i]), F[i + ic(1)] - F[i])
        k.ensure_eq('second derivative', o[2], ZERO)
        k.ensure_eq('third derivative', o[3], ZERO)


@contract('C08')
def linear_single(k):
    x, f, t = k.reals('x f t')
    o = k.call('d_lin', 1, [x], [f], t, k.out(4))
    k.ensure_eq('constant', o[0], f)
    for d in (1, 2, 3):
        k.ensure_eq('derivative %d' % d, o[d], ZERO)


KINDS = {'cubic': ('d_cub', 2), 'quintic': ('d_qui', 3)}
for kind, (drv, nd) in KINDS.items():
    @contract('C08', name='%s_inside' % kind, weight=2, fb_frac=0.05)
    def inside(k, kind=kind, drv=drv, nd=nd):
        n, X = grid(k)
        A = [ArrArg(k, 'f%d' % d, n, 12, genval) for d in range(nd)]
        i, t = cell(k, n, X)
        o = k.call(drv, n, X, *A, t, k.out(4))
        if k.native or not k.decide(eq(t, X[i + ic(1)])):
            for d in range(3):
                k.ensure_eq('derivative %d' % (d + 1), o[d + 1], k.D(o[d], t))
            k.ensure_eq('degree of the polynomial', k.D(o[3], t) if nd == 2 or k.native else k.D(k.D(k.D(o[3], t), t), t), ZERO if nd == 2 or not k.native else k.D(o[3], t))

    @contract('C08', name='%s_nodes' % kind, weight=2)
    def nodes(k, kind=kind, drv=drv, nd=nd):
        n, X = grid(k)
        A = [ArrArg(k, 'f%d' % d, n, 12, genval) for d in range(nd)]
        i, t = cell(k, n, X, ends=True)
        o = k.call(drv, n, X, *A, t, k.out(4))
        x0, x1 = X[i], X[i + ic(1)]
        ends = [(x0, i, 'left'), (x1, i + ic(1), 'right')]
        if k.native:       # bounded stand-in: next to the nodes
            ends = [(x0 + Fraction(1, 10**11), i, 'left'), (x1 - Fraction(1, 10**11), i + ic(1), 'right')]
            vals = [k.call(drv, n, X, *A, x, k.out(4)) for x, j, w in ends]
        elif k.decide(eq(t, x1)):
            ends, vals = ends[1:], [o]
        else:
            vals = [[T.subst(v, {t: x}) for v in o] for x, j, w in ends]
        for v, (x, j, w) in zip(vals, ends):
            for d in range(nd):
                what = ['value', 'derivative', 'second derivative'][d] + ' at the %s node' % w
                if k.native:
                    k.ensure_close(what, v[d], A[d][j], 1e-6, ONE)
                else:
                    k.ensure_eq(what, v[d], A[d][j])
            if not k.native:
                j0, j1, w = i, i + ic(1), w == 'right'
                if nd == 2:
                    h = x1 - x0
                    k.ensure_eq('second derivative at node', v[2], cub2(A[0][j0], A[0][j1], A[1][j0], A[1][j1], h)[w])
                    k.ensure_eq('third derivative at node', v[3], (6 * (A[1][j0] + A[1][j1]) - 12 * (A[0][j1] - A[0][j0]) / h) / (h * h))
                else:
                    k.ensure_eq('third derivative at node', v[3], qui34(A[0][j0], A[0][j1], A[1][j0], A[1][j1], A[2][j0], A[2][j1], x1 - x0)[w])

    for right in (0, 1):
        @contract('C08', name='%s_%s_of_grid' % (kind, ['left', 'right'][right]))
        def outside(k, drv=drv, nd=nd, right=right):
            n, X = grid(k, 1)
            A = [ArrArg(k, 'f%d' % d, n, 12, genval) for d in range(nd)]
            t = outer(k, n, X, right)
            o = k.call(drv, n, X, *A, t, k.out(4))
            i = n - ic(1) if right else ic(0)
            k.ensure_eq('linear extrapolation', o[0], A[0][i] + A[1][i] * (t - X[i]))
            k.ensure_eq('slope', o[1], A[1][i])
            k.ensure_eq('second derivative', o[2], ZERO)
            k.ensure_eq('third derivative', o[3], ZERO)


def knot(X, n, j):
    """knot of the clamped B-spline basis: grid node j, with the end nodes repeated"""
    return ite(lt(j, ic(0)), X[ic(0)], ite(le(n, j), X[n - ic(1)], X[j]))


def symm(xs, m):
    if m == 0:
        return ONE
    if m > len(xs):
        return ZERO
    return symm(xs[1:], m) + xs[0] * symm(xs[1:], m - 1)


def binom(n, m):
    r = 1
    for i in range(m):
        r = r * (n - i) // (i + 1)
    return r


for N in range(4):
    for D in range(N + 1):
        @contract('C08', name='bspline%d_derivative%d' % (N, D), weight=3)
        def bspline(k, N=N, D=D):
            n, X = grid(k)
            i, t = cell(k, n, X)
            for d in range(-3, 5):         # the nodes increase
                a, b = i + ic(d), i + ic(d + 1)
                k.require(or_(lt(a, ic(0)), le(n, b), lt(X[a], X[b])))
            B = k.call('d_bspl', N, D, i, n, X, t, k.out(N + 1))
            for p in range(N + 1):         # Marsden's identity: determines all the basis functions
                s = ZERO
                for j in range(N + 1):     # basis function i+j has knots i+j-N .. i+j+1 (in units of grid nodes)
                    s = s + B[j] * symm([knot(X, n, i + ic(j - N + m)) for m in range(1, N + 1)], p) / lift(binom(N, p))
                w = ONE
                for m in range(D):
                    w = w * lift(p - m)
                e = w * powi(t, p - D) if p >= D else ZERO
                k.ensure_eq('reproduces the derivative of x^%d' % p, s, e)


def powi(t, n):
    r = ONE
    for _ in range(n):
        r = r * t
    return r


def ampl(k, n, N):
    return ArrArg(k, 'a', n + ic(N - 1), 16, genval)


for N in range(4):
    @contract('C08', name='bspline%d_wrapper' % N, weight=2)
    def bwrap(k, N=N):
        n, X = grid(k)
        A = ampl(k, n, N)
        i, t = cell(k, n, X)
        o = k.call('d_bwrap', N, n, X, A, t, k.out(4))
        for D in range(N + 1):
            B = k.call('d_bspl', N, D, i, n, X, t, k.out(N + 1))
            s = ZERO
            for j in range(N + 1):
                s = s + B[j] * A[i + ic(j)]
            k.ensure_eq('derivative %d is the sum of basis functions with their amplitudes' % D, o[D], s)
            k.ensure_eq('interpolate', k.call('d_binterp', N, D, n, X, A, t), s)
        for D in range(N + 1, 4):
            k.ensure_eq('derivative %d' % D, o[D], ZERO)
            k.ensure_eq('interpolate %d' % D, k.call('d_binterp', N, D, n, X, A, t), ZERO)

    @contract('C08', name='bspline%d_basis_at_point' % N, weight=2)
    def bnz(k, N=N):
        n, X = grid(k)
        i, t = cell(k, n, X)
        for D in range(N + 2):
            r, o = k.call('d_bnz', N, D, n, X, t, k.out(N + 1))
            B = k.call('d_bspl', N, D, i, n, X, t, k.out(N + 1)) if D <= N else [ZERO] * (N + 1)
            if D <= N:
                k.ensure('index', eq(r, i) if r.sort == 'I' else eq(r, toreal(i)))
            for j in range(N + 1):
                k.ensure_eq('basis function %d, derivative %d' % (j, D), o[j], B[j])

    for add in (0, 1):
        @contract('C08', name='bspline%d_%s' % (N, ['eval', 'addPoint'][add]), weight=2)
        def beval(k, N=N, add=add):
            for n in (2, 3, 5):
                x, h = k.real('x'), [k.real('h%d' % i, 'pos') for i in range(n - 1)]
                X = [x]
                for g in h:
                    X.append(X[-1] + g)
                u, m = k.real('u', lo=0, hi=1), k.real('m')
                for c in range(n - 1):
                    t = X[c] + u * h[c]
                    o = k.call('d_beval', N, add, n, X, t, m, k.out(n + N - 1))
                    B = k.call('d_bspl', N, 0, c, n, X, t, k.out(N + 1))
                    for j in range(n + N - 1):
                        e = B[j - c] if c <= j <= c + N else ZERO
                        k.ensure_eq('basis function %d of %d in cell %d' % (j, n + N - 1, c), o[j], e * m if add else e)
                for t, w in ((X[0] - u, 'left'), (X[-1] + u, 'right')):
                    o = k.call('d_beval', N, add, n, X, t, m, k.out(n + N - 1))
                    for j in range(n + N - 1):
                        k.ensure_eq('basis function %d of %d on the %s of the grid' % (j, n + N - 1, w), o[j], ZERO)


# ---- construction -------------------------------------------------------------------------
def nodes_(k, n, symmetric=False):
    """n increasing nodes"""
    h = [k.real('h%d' % i, 'pos') for i in range(n - 1)]
    if symmetric:
        h = [h[min(i, n - 2 - i)] for i in range(n - 1)]
        s = ZERO
        for g in h:
            s = s + g
        X = [-s / 2]
    else:
        X = [k.real('x')]
    for g in h:
        X.append(X[-1] + g)
    return X, h


def cub2(f0, f1, d0, d1, h):
    """second derivatives at both ends of the cubic polynomial with the given values and derivatives at the ends"""
    q = (f1 - f0) / h
    return (6 * q - 4 * d0 - 2 * d1) / h, (4 * d1 + 2 * d0 - 6 * q) / h


def qui34(f0, f1, d0, d1, s0, s1, h):
    """third and fourth derivatives at both ends of the quintic polynomial with the given values and two derivatives at the ends"""
    def left(f0, f1, d0, d1, s0, s1, h):
        h2 = h * h
        return ((60 * (f1 - f0) - (24 * d1 + 36 * d0) * h - (9 * s0 - 3 * s1) * h2) / (h2 * h),
                (-360 * (f1 - f0) + (168 * d1 + 192 * d0) * h + (36 * s0 - 24 * s1) * h2) / (h2 * h2))
    c3, c4 = left(f0, f1, d0, d1, s0, s1, h)
    b3, b4 = left(f1, f0, -d1, -d0, s1, s0, h)
    return c3, -b3, c4, b4


for n in (2, 3, 4, 5):
    for mode in (0, 1, 2, 3):
        for sym in (0, 1):
            @contract('C08', name='cubic_construct_%s%s_%d' % (['natural', 'clamped_left', 'clamped_right', 'clamped'][mode], '_symmetric' * sym, n), weight=2)
            def ccub(k, n=n, mode=mode, sym=sym):
                X, h = nodes_(k, n, sym)
                F = [k.real('f%d' % (min(i, n - 1 - i) if sym else i)) for i in range(n)]
                dl, dr = k.reals('dl dr')
                o = k.call('d_ccub', n, mode, X, F, dl, dr, k.out(2 * n))
                f, d = o[:n], o[n:]
                for i in range(n):
                    k.ensure_eq('value %d' % i, f[i], F[i])
                s = [cub2(f[i], f[i + 1], d[i], d[i + 1], h[i]) for i in range(n - 1)]
                if mode & 1:
                    k.ensure_eq('slope at the left end', d[0], dl)
                else:
                    k.ensure_eq('natural left end', s[0][0], ZERO)
                if mode & 2:
                    k.ensure_eq('slope at the right end', d[n - 1], dr)
                else:
                    k.ensure_eq('natural right end', s[n - 2][1], ZERO)
                for i in range(n - 2):
                    k.ensure_eq('second derivative is continuous at node %d' % (i + 1), s[i][1], s[i + 1][0])

for n in (2, 3, 4):
    for mode in (0, 1, 2, 3, 4):
        if n == 4 and mode < 4:
            continue
        @contract('C08', name='quintic_construct_%s_%d' % (['natural', 'clamped_left', 'clamped_right', 'clamped', 'with_derivatives'][mode], n), weight=3)
        def cqui(k, n=n, mode=mode):
            X, h = nodes_(k, n)
            F, G = [k.real('f%d' % i) for i in range(n)], [k.real('g%d' % i) for i in range(n)]
            dl, dr = k.reals('dl dr')
            o = k.call('d_cqui', n, mode, X, F, G, dl, dr, k.out(3 * n))
            f, d, e = o[:n], o[n:2 * n], o[2 * n:]
            for i in range(n):
                k.ensure_eq('value %d' % i, f[i], F[i])
                if mode == 4:
                    k.ensure_eq('derivative %d' % i, d[i], G[i])
            s = [qui34(f[i], f[i + 1], d[i], d[i + 1], e[i], e[i + 1], h[i]) for i in range(n - 1)]
            if mode < 4:
                if mode & 1:
                    k.ensure_eq('slope at the left end', d[0], dl)
                else:
                    k.ensure_eq('zero second derivative at the left end', e[0], ZERO)
                if mode & 2:
                    k.ensure_eq('slope at the right end', d[n - 1], dr)
                else:
                    k.ensure_eq('zero second derivative at the right end', e[n - 1], ZERO)
            k.ensure_eq('zero fourth derivative at the left end', s[0][2], ZERO)
            k.ensure_eq('zero fourth derivative at the right end', s[n - 2][3], ZERO)
            for i in range(n - 2):
                k.ensure_eq('third derivative is continuous at node %d' % (i + 1), s[i][1], s[i + 1][0])
                if mode < 4:
                    k.ensure_eq('fourth derivative is continuous at node %d' % (i + 1), s[i][3], s[i + 1][2])

for n in (1, 2, 3):
    @contract('C08', name='hermite_construct_%d' % n)
    def chermite(k, n=n):
        X, h = nodes_(k, n)
        A = [[k.real('%s%d' % (c, i)) for i in range(n)] for c in 'fde']
        for drv, m in (('d_clin', 1), ('d_ccubh', 2), ('d_cquih', 3)):
            o = k.call(drv, n, X, *A[:m], k.out((m + 1) * n))
            for i, (a, b) in enumerate(zip(o, X + sum(A[:m], []))):
                k.ensure_eq('%s %d' % (drv, i), a, b)

for n in (2, 3, 4, 5):
    for deg in (2, 3):
        @contract('C08', name='cubic_from_amplitudes_%d_%d' % (deg, n))
        def ccubamp(k, n=n, deg=deg):
            X, h = nodes_(k, n)
            A = [k.real('a%d' % i) for i in range(n + deg - 1)]
            o = k.call('d_ccubamp', n, deg, X, A, k.out(2 * n))
            for i in range(n):
                for D in (0, 1):
                    B = k.call('d_bspl', deg, D, min(i, n - 2), n, X, X[i], k.out(deg + 1))
                    s = ZERO
                    for j in range(deg + 1):
                        s = s + B[j] * A[j + min(i, n - 2)]
                    k.ensure_eq('%s at node %d' % (['value', 'derivative'][D], i), o[D * n + i], s)


# ---- any subset of the outputs ----------------------------------------------------------------
for kind, nd in (('lin', 1), ('cub', 2), ('qui', 2)):   # d_quim: the values serve as second derivatives too
    @contract('C08', name='%s_any_outputs' % kind)
    def anyout(k, kind=kind, nd=nd):
        n, X = grid(k, 2)
        A = [ArrArg(k, 'f%d' % d, n, 12, genval) for d in range(nd)]
        i, t = cell(k, n, X)
        o = k.call('d_%sm' % kind, 15, n, X, *A, t, k.out(4))
        for m in range(1, 15):
            p = k.call('d_%sm' % kind, m, n, X, *A, t, k.out(4))
            for d in range(4):
                if m >> d & 1:
                    k.ensure_eq('output %d of subset %d' % (d, m), p[d], o[d])


# ---- natural-spline basis and extrapolated basis ---------------------------------------------
for D in range(4):
    @contract('C08', name='bspline_natural_derivative%d' % D, weight=3)
    def bnat(k, D=D):
        n, X = grid(k)
        c = ArrArg(k, 'c', n, 14, genval)
        i, t = cell(k, n, X)
        for d in range(-3, 5):
            a, b = i + ic(d), i + ic(d + 1)
            k.require(or_(lt(a, ic(0)), le(n, b), lt(X[a], X[b])))
        k.require(lt(X[ic(0)], X[ic(1)]))
        k.require(lt(X[n - ic(2)], X[n - ic(1)]))
        k.require(or_(eq(n, ic(2)), and_(lt(X[ic(1)], X[ic(2)]), lt(X[n - ic(3)], X[n - ic(2)]))))
        ret, o = k.call('d_bnat', D, n, X, t, k.out(4))
        B = k.call('d_bspl', 3, D, i, n, X, t, k.out(4))
        k.ensure('index', and_(le(ic(0), ret), le(ret, n - ic(2))))

        def mix(j0, j1, c0, c1):
            if two:
                return (2 * c0 + c1) / 3
            d1, d2 = X[j0 + s] - X[j0], X[j0 + s + s] - X[j0]
            return (d2 * c0 + d1 * c1) / (d1 + d2)
        two = k.decide(eq(n, ic(2))) if not k.native else False
        if k.native:
            k.require(not_(eq(n, ic(2))))
        amp = []
        for j in range(4):
            jj = i + ic(j)                  # amplitude of the original basis function number i+j out of n+2
            if k.native or not k.decide(or_(le(jj, ic(1)), le(n, jj))):
                inner = c[jj - ic(1)] if not k.native else None
            if k.native:
                return
            if k.decide(eq(jj, ic(0))):
                a = c[ic(0)]
            elif k.decide(eq(jj, n + ic(1))):
                a = c[n - ic(1)]
            elif k.decide(eq(jj, ic(1))):
                s = ic(1)
                a = mix(ic(0), ic(1), c[ic(0)], c[ic(1)])
            elif k.decide(eq(jj, n)):
                s = ic(-1)
                a = mix(n - ic(1), n - ic(2), c[n - ic(1)], c[n - ic(2)])
            else:
                a = inner
            amp.append(a)
        lhs, rhs = ZERO, ZERO
        for j in range(4):
            rhs = rhs + B[j] * amp[j]
            jj = ret + ic(j)
            if k.decide(lt(jj, n)):
                lhs = lhs + o[j] * c[jj]
            else:
                k.ensure_eq('function %d beyond the last one' % j, o[j], ZERO)
        k.ensure_eq('combination of the modified functions is a natural cubic spline', lhs, rhs)

for N in (1, 2, 3):
    @contract('C08', name='bspline%d_extrapolated' % N, weight=2)
    def bext(k, N=N):
        n, X = grid(k)
        i, t = cell(k, n, X)
        ret, o = k.call('d_bext', N, n, X, t, k.out(N + 1))
        B = k.call('d_bspl', N, 0, i, n, X, t, k.out(N + 1))
        if not k.native and k.decide(eq(t, X[i + ic(1)])):
            pass
        k.ensure('index', eq(ret, i))
        for j in range(N + 1):
            k.ensure_eq('inside: function %d' % j, o[j], B[j])

    for right in (0, 1):
        @contract('C08', name='bspline%d_extrapolated_%s' % (N, ['left', 'right'][right]), weight=2)
        def bexto(k, N=N, right=right):
            n, X = grid(k)
            t = outer(k, n, X, right)
            i = n - ic(2) if right else ic(0)
            e = n - ic(1) if right else ic(0)
            for d in range(-3, 5):
                a, b = i + ic(d), i + ic(d + 1)
                k.require(or_(lt(a, ic(0)), le(n, b), lt(X[a], X[b])))
            k.require(lt(X[ic(0)], X[n - ic(1)]))
            ret, o = k.call('d_bext', N, n, X, t, k.out(N + 1))
            B = k.call('d_bspl', N, 0, i, n, X, X[e], k.out(N + 1))
            D = k.call('d_bspl', N, 1, i, n, X, X[e], k.out(N + 1))
            k.ensure('index', eq(ret, i))
            for j in range(N + 1):
                k.ensure_eq('linear extrapolation: function %d' % j, o[j], B[j] + D[j] * (t - X[e]))


# ---- monotonic regularization ----------------------------------------------------------------
for n in (2, 3, 4):
    @contract('C08', name='regularized_slopes_%d' % n, weight=2)
    def reg(k, n=n):
        X, h = nodes_(k, n)
        F, G = [k.real('f%d' % i) for i in range(n)], [k.real('g%d' % i) for i in range(n)]
        if n == 4:
            for i in range(n - 1):
                k.require(lt(F[i], F[i + 1]))
        o = k.call('d_reg', n, X, F, G, k.out(n))
        s = [(F[i + 1] - F[i]) / h[i] for i in range(n - 1)]
        for i in range(n):
            for j in (i - 1, i):
                if 0 <= j < n - 1:
                    k.ensure('slope %d has the sign of the secant unless it changes sign' % i, or_(*([le(ZERO, s[j] * o[i])] + ([lt(s[i - 1] * s[i], ZERO)] if 0 < i < n - 1 else []))))
                    k.ensure('slope %d is at most three times the secant' % i, le(o[i] * o[i], 9 * s[j] * s[j]))
            both = [s[j] for j in (i - 1, i) if 0 <= j < n - 1]
            fine = [le(ZERO, both[0] * both[-1])] + [le(ZERO, G[i] * b) for b in both] + [le(G[i] * G[i], Fraction(8) * b * b) for b in both]
            k.ensure('slope %d is left alone when it complies' % i, or_(eq(o[i], G[i]), not_(and_(*fine))))
