"""C10: two- and three-dimensional interpolators, log-log splines, grids."""
from agv.engine import contract
from agv.terms import *
from agv import terms as T
from contracts.c08_spline import powi

TUS = ['math_core.cpp', 'math_specfunc.cpp', 'math_linalg.cpp', 'math_fit.cpp', 'utils.cpp']
DRV = ['drv_spline.cpp']


def nodes(k, n, nm):
    x = [k.real(nm)]
    h = []
    for i in range(n - 1):
        g = k.real('h%s%d' % (nm, i), 'pos')
        if k.native:
            k.require(and_(lt(lift(Fraction(1, 20)), g), lt(g, lift(20))))
        h.append(g)
        x.append(x[-1] + g)
    return x, h


def inside(k, X, h, i, nm):
    """a point of the cell i"""
    u = k.real(nm, lo=0, hi=1)
    k.require(and_(lt(lift(Fraction(1, 100)), u), lt(u, lift(Fraction(99, 100)))) if k.native else and_(le(ZERO, u), lt(u, ONE)))
    return X[i] + u * h[i], u


def hermite3(u, h):
    """weights of value and slope at both ends of a cubic segment"""
    return [(1 + 2 * u) * (1 - u) ** 2, u * u * (3 - 2 * u)], [h * u * (1 - u) ** 2, -h * u * u * (1 - u)]


def hermite5(u, h):
    v = 1 - u
    return ([v ** 3 * (1 + 3 * u + 6 * u * u), u ** 3 * (1 + 3 * v + 6 * v * v)],
            [h * u * v ** 3 * (1 + 3 * u), -h * v * u ** 3 * (1 + 3 * v)],
            [h * h * u * u * v ** 3 / 2, h * h * v * v * u ** 3 / 2])


def linear1(u, h):
    return [[1 - u, u]]


BASES = [linear1, hermite3, hermite5]
NAMES = ['bilinear', 'bicubic', 'biquintic']
# arrays of node values: order of derivative in x and y
ARR2 = [[(0, 0)], [(0, 0), (1, 0), (0, 1), (1, 1)], [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (2, 2)]]
NX, NY = 3, 4


def setup2(k, kind):
    X, hx = nodes(k, NX, 'x')
    Y, hy = nodes(k, NY, 'y')
    f = [[k.real('f%d%d_%d' % (a + (i,))) for i in range(NX * NY)] for a in ARR2[kind]]
    return X, hx, Y, hy, f, sum(f, [])


def surface(kind, i, j, f, u, v, hx, hy):
    bx, by = BASES[kind](u, hx[i]), BASES[kind](v, hy[j])
    s = ZERO
    for n, (a, b) in enumerate(ARR2[kind]):
        for p in range(2):
            for q_ in range(2):
                s = s + f[n][(i + p) * NY + j + q_] * bx[a][p] * by[b][q_]
    return s


for kind in range(3):
    for i, j in ((0, 0), (1, 0), (0, 2), (1, 2), (0, 1)):
        @contract('C10', name='%s_value_cell_%d_%d' % (NAMES[kind], i, j), weight=1 + kind)
        def val2(k, kind=kind, i=i, j=j):
            """tensor product of one-dimensional interpolants of the node values (so that neighbouring cells match), and its derivatives"""
            X, hx, Y, hy, f, F = setup2(k, kind)
            px, u = inside(k, X, hx, i, 'u')
            py, v = inside(k, Y, hy, j, 'v')
            o = k.call('d_i2d', kind, 63, NX * 16 + NY, X, Y, F, px, py, k.out(6))
            s = surface(kind, i, j, f, u, v, hx, hy)
            k.ensure_eq('value', o[0], s)
            if k.native:
                return
            k.ensure_eq('derivative by x', o[1] * hx[i], k.D(s, u))
            k.ensure_eq('derivative by y', o[2] * hy[j], k.D(s, v))
            k.ensure_eq('second derivative by x', o[3] * hx[i] ** 2, k.D(k.D(s, u), u))
            k.ensure_eq('mixed derivative', o[4] * hx[i] * hy[j], k.D(k.D(s, u), v)) if kind else k.ensure_eq('mixed derivative', o[4], ZERO)
            k.ensure_eq('second derivative by y', o[5] * hy[j] ** 2, k.D(k.D(s, v), v))

    @contract('C10', name='%s_any_outputs' % NAMES[kind], weight=2 + kind)
    def sub2(k, kind=kind):
        X, hx, Y, hy, f, F = setup2(k, kind)
        px, u = inside(k, X, hx, 1, 'u')
        py, v = inside(k, Y, hy, 1, 'v')
        o = k.call('d_i2d', kind, 63, NX * 16 + NY, X, Y, F, px, py, k.out(6))
        for m in range(1, 63):
            r = k.call('d_i2d', kind, m, NX * 16 + NY, X, Y, F, px, py, k.out(6))
            for b in range(6):
                if m >> b & 1:
                    k.ensure_eq('output %d of subset %d' % (b, m), r[b], o[b])

    @contract('C10', name='%s_upper_edges' % NAMES[kind])
    def edge2(k, kind=kind):
        X, hx, Y, hy, f, F = setup2(k, kind)
        px, u = inside(k, X, hx, 0, 'u')
        py, v = inside(k, Y, hy, 0, 'v')
        o = k.call('d_i2d', kind, 63, NX * 16 + NY, X, Y, F, X[-1], py, k.out(6))
        k.ensure_eq('right edge', o[0], surface(kind, NX - 2, 0, f, ONE, v, hx, hy))
        o = k.call('d_i2d', kind, 63, NX * 16 + NY, X, Y, F, px, Y[-1], k.out(6))
        k.ensure_eq('upper edge', o[0], surface(kind, 0, NY - 2, f, u, ONE, hx, hy))
        for i in range(NX):
            for j in range(NY):
                o = k.call('d_i2d', kind, 63, NX * 16 + NY, X, Y, F, X[i], Y[j], k.out(6))
                k.ensure_eq('value at node %d %d' % (i, j), o[0], f[0][i * NY + j])
                for n, (a, b) in enumerate(ARR2[kind]):
                    e = {(1, 0): 1, (0, 1): 2, (2, 0): 3, (1, 1): 4, (0, 2): 5}.get((a, b))
                    if e:
                        k.ensure_eq('derivative %d %d at node %d %d' % (a, b, i, j), o[e], f[n][i * NY + j])

    @contract('C10', name='%s_outside' % NAMES[kind])
    def out2(k, kind=kind):
        X, hx, Y, hy, f, F = setup2(k, kind)
        t, s = k.real('t', 'pos'), k.real('s')
        if k.native:
            return
        for m in (63, 1, 6, 56):
            for px, py in ((X[0] - t, s), (X[-1] + t, s), (s, Y[0] - t), (s, Y[-1] + t)):
                o = k.call('d_i2d', kind, m, NX * 16 + NY, X, Y, F, px, py, k.out(6))
                for b in range(6):
                    if m >> b & 1:
                        if kind == 0 and b > 2:
                            k.ensure_eq('zero second derivative', o[b], ZERO)
                        else:
                            k.ensure_eq('not a number', o[b], T.NAN)


# ---- construction in two dimensions: each row or column is a one-dimensional spline -------------------
SHAPES = [(3, 4), (2, 3)]


def row(f, i, ny):
    return [f[i * ny + j] for j in range(ny)]


def col(f, j, nx, ny):
    return [f[i * ny + j] for i in range(nx)]


def ccub(k, x, f, mode=0, dl=ZERO, dr=ZERO):
    return k.call('d_ccub', len(x), mode, x, f, dl, dr, k.out(2 * len(x)))[len(x):]


def skew(k, *grids):
    """not symmetric about zero (symmetric grids only add an explicit symmetrization of an already symmetric result; see smaller grids)"""
    for g in grids:
        k.require(not_(eq(g[0], -g[-1])))


def same(k, name, a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        k.ensure_eq('%s [%d]' % (name, i), x, y)


def c_limiter(sx, av):
    """the slope limiter: i-th slope is a function of nodes, values and slopes (the limiter itself: see C08)"""
    from agv.callees import rd
    from agv.symex import Ptr
    v, pf, pd = av
    b = sx.coerce(sx._load(v.r, v.o, 8, ir.PTR), ir.PTR)
    e = sx.coerce(sx._load(v.r, add(v.o, ic(8)), 8, ir.PTR), ir.PTR)
    n = add(e.o, -b.o).args[0] // 8
    a = [rd(sx, p, i) for p in (b, pf, pd) for i in range(n)]
    for i in range(n):
        sx.store(Ptr(pd.r, add(pd.o, ic(8 * i))), uf('limiter%d_%d' % (n, i), a), 8)
    return None


def limiter(n, i):
    def ev(deriv, a):
        if sum(deriv):
            raise ValueError
        x, f, d = a[:n], a[n:2 * n], a[2 * n:]
        sec = [(f[j + 1] - f[j]) / (x[j + 1] - x[j]) for j in range(n - 1)]
        if i in (0, n - 1):
            s = sec[0 if i == 0 else -1]
            return min(max(d[i], min(0, 3 * s)), max(0, 3 * s))
        m = min(abs(d[i]), 3 * abs(sec[i - 1]), 3 * abs(sec[i]))
        return m * (mpmath.sign(sec[i - 1]) if sec[i - 1] * sec[i] >= 0 else mpmath.sign(d[i]))
    return ev


import mpmath
from agv import ir
LIMITER = dict(callees={'math::(anonymous namespace)::regularizeSpline(std::vector<double, std::allocator<double> > const&, double const*, double*)': c_limiter},
               uf={'limiter%d_%d' % (n, i): limiter(n, i) for n in (2, 3, 4) for i in range(n)})


def lim(k, x, f, d):
    return k.call('d_reg', len(x), x, f, d, k.out(len(x)))


for nx, ny in SHAPES:
    for mode in (0, 1, 2, 4, 8, 15, 16, 31):
        @contract('C10', name='bicubic_construction_%d_%d_mode%d' % (nx, ny, mode), weight=4, **(LIMITER if mode & 16 else {}))
        def ccub2(k, nx=nx, ny=ny, mode=mode):
            X, hx = nodes(k, nx, 'x')
            Y, hy = nodes(k, ny, 'y')
            n = nx * ny
            f = [k.real('f%d' % i) for i in range(n)]
            e = [k.real('e%d' % i) for i in range(4)]
            if mode in ((0, 15, 16, 31) if nx == 3 else (16,)):
                skew(k, X, Y)
            o = k.call('d_ccub2', nx * 16 + ny, mode, X, Y, f, e, k.out(4 * n))
            F, FX, FY, FXY = [o[i * n:(i + 1) * n] for i in range(4)]
            reg = 4 if mode & 16 else 0
            same(k, 'value', F, f)
            mixed = []
            for i in range(nx):
                same(k, 'd/dy in row %d' % i, row(FY, i, ny), ccub(k, Y, row(f, i, ny), reg | mode >> 2 & 3, e[2], e[3]))
            for j in range(ny):
                same(k, 'd/dx in column %d' % j, col(FX, j, nx, ny), ccub(k, X, col(f, j, nx, ny), reg | mode & 3, e[0], e[1]))
                if (j == 0 and mode & 4) or (j == ny - 1 and mode & 8):
                    m = [ZERO] * nx
                else:
                    m = ccub(k, X, col(FY, j, nx, ny), reg | mode & 3, ZERO, ZERO)
                if reg:
                    mixed.append(m)
                else:
                    same(k, 'mixed derivative in column %d' % j, col(FXY, j, nx, ny), m)
            for i in range(nx if reg else 0):
                same(k, 'mixed derivative in row %d' % i, row(FXY, i, ny), lim(k, Y, row(FX, i, ny), [m[i] for m in mixed]))


@contract('C10', weight=3)
def bicubic_mixed_derivative_is_symmetric(k):
    """natural splines in both directions: the mixed derivative does not depend on the order of coordinates"""
    nx = ny = 3
    X, hx = nodes(k, nx, 'x')
    Y, hy = nodes(k, ny, 'y')
    n = nx * ny
    f = [k.real('f%d' % i) for i in range(n)]
    skew(k, X, Y)
    o = k.call('d_ccub2', nx * 16 + ny, 0, X, Y, f, [ZERO] * 4, k.out(4 * n))
    FX, FXY = o[n:2 * n], o[3 * n:]
    for i in range(nx):
        same(k, 'row %d' % i, row(FXY, i, ny), ccub(k, Y, row(FX, i, ny)))


def cqui(k, x, f, d):
    return k.call('d_cqui', len(x), 4, x, f, d, ZERO, ZERO, k.out(3 * len(x)))[2 * len(x):]


for nx, ny in SHAPES:
    @contract('C10', name='biquintic_construction_mixed_%d_%d' % (nx, ny), weight=4)
    def cq2(k, nx=nx, ny=ny):
        X, hx = nodes(k, nx, 'x')
        Y, hy = nodes(k, ny, 'y')
        n = nx * ny
        f = [[k.real('%s%d' % (s, i)) for i in range(n)] for s in ('f', 'fx', 'fy', 'fxy')]
        o = k.call('d_cqui2', nx * 16 + ny, 1, X, Y, sum(f, []), k.out(9 * n))
        F, FX, FY, FXY, FXX, FYY, FXXY, FXYY, FXXYY = [o[i * n:(i + 1) * n] for i in range(9)]
        for a, b, nm in zip((F, FX, FY, FXY), f, ('value', 'd/dx', 'd/dy', 'd2/dxdy')):
            same(k, nm, a, b)
        for j in range(ny):
            c = lambda a: col(a, j, nx, ny)
            same(k, 'd2/dx2 in column %d' % j, c(FXX), cqui(k, X, c(F), c(FX)))
            same(k, 'd3/dx2dy in column %d' % j, c(FXXY), cqui(k, X, c(FY), c(FXY)))
        for i in range(nx):
            r = lambda a: row(a, i, ny)
            same(k, 'd2/dy2 in row %d' % i, r(FYY), cqui(k, Y, r(F), r(FY)))
            same(k, 'd3/dxdy2 in row %d' % i, r(FXYY), cqui(k, Y, r(FX), r(FXY)))
            same(k, 'd4/dx2dy2 in row %d' % i, r(FXXYY), cqui(k, Y, r(FXX), r(FXXY)))


def c2nd(k, x, f):
    """second derivatives at the nodes of the natural cubic spline through f"""
    d = ccub(k, x, f)
    n = len(x)
    out = []
    for i in range(n):
        if i in (0, n - 1):
            out.append(ZERO)
        else:
            h = x[i + 1] - x[i]
            out.append((6 * (f[i + 1] - f[i]) / h - 4 * d[i] - 2 * d[i + 1]) / h)
    return d, out


for nx, ny in ((3, 4), (3, 3)):
    @contract('C10', name='biquintic_construction_%d_%d' % (nx, ny), weight=6, ring_s=60)
    def cq3(k, nx=nx, ny=ny):
        """without mixed derivatives: these come from cubic splines of first and second derivatives along the other coordinate"""
        X, hx = nodes(k, nx, 'x')
        Y, hy = nodes(k, ny, 'y')
        n = nx * ny
        f = [[k.real('%s%d' % (s, i)) for i in range(n)] for s in ('f', 'fx', 'fy')]
        skew(k, X, Y)
        for s in f[1] + f[2]:     # identically zero slopes on a line are kept zero by a special case
            k.require(not_(eq(s, ZERO)))
        o = k.call('d_cqui2', nx * 16 + ny, 0, X, Y, sum(f, []), k.out(9 * n))
        F, FX, FY, FXY, FXX, FYY, FXXY, FXYY, FXXYY = [o[i * n:(i + 1) * n] for i in range(9)]
        for a, b, nm in zip((F, FX, FY), f, ('value', 'd/dx', 'd/dy')):
            same(k, nm, a, b)
        cols = [c2nd(k, X, col(FY, j, nx, ny)) for j in range(ny)]      # d2/dxdy, d3/dx2dy from df/dy
        rows = [c2nd(k, Y, row(FX, i, ny)) for i in range(nx)]          # d2/dxdy, d3/dxdy2 from df/dx
        rxx = [c2nd(k, Y, row(FXX, i, ny)) for i in range(nx)]          # d3/dx2dy, d4 from d2f/dx2
        cyy = [c2nd(k, X, col(FYY, j, nx, ny)) for j in range(ny)]      # d3/dxdy2, d4 from d2f/dy2
        for j in range(ny):
            same(k, 'd2/dx2 in column %d' % j, col(FXX, j, nx, ny), cqui(k, X, col(F, j, nx, ny), col(FX, j, nx, ny)))
        for i in range(nx):
            same(k, 'd2/dy2 in row %d' % i, row(FYY, i, ny), cqui(k, Y, row(F, i, ny), row(FY, i, ny)))
        for i in range(nx):
            for j in range(ny):
                a, t = i * ny + j, ' at %d %d' % (i, j)
                ex, ey = i in (0, nx - 1), j in (0, ny - 1)
                fc, fr = cols[j][0][i], rows[i][0][j]
                k.ensure_eq('mixed derivative' + t, FXY[a], fr if ex and not ey else fc if ey and not ex else (fc + fr) / 2)
                k.ensure_eq('d3/dx2dy' + t, FXXY[a], cols[j][1][i] if ey else rxx[i][0][j])
                k.ensure_eq('d3/dxdy2' + t, FXYY[a], rows[i][1][j] if ex else cyy[j][0][i])
                u, w = cyy[j][1][i], rxx[i][1][j]
                k.ensure_eq('d4/dx2dy2' + t, FXXYY[a], ZERO if ex and ey else w if ex else u if ey else (u + w) / 2)


# ---- three dimensions ----------------------------------------------------------------------------------
ARR3 = [[(0, 0, 0)], [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1)]]
N3 = (2, 3, 4)
NODES3 = 2 * 256 + 3 * 16 + 4


def setup3(k, kind):
    g = [nodes(k, n, c) for n, c in zip(N3, 'xyz')]
    f = [[k.real('f%d%d%d_%d' % (a + (i,))) for i in range(24)] for a in ARR3[kind]]
    return g, f, sum(f, [])


def volume(kind, c, g, f, u):
    b = [BASES[kind](u[d], g[d][1][c[d]]) for d in range(3)]
    s = ZERO
    for n, a in enumerate(ARR3[kind]):
        for p in range(8):
            q_ = (p >> 2, p >> 1 & 1, p & 1)
            i = [c[d] + q_[d] for d in range(3)]
            s = s + f[n][(i[0] * 3 + i[1]) * 4 + i[2]] * b[0][a[0]][q_[0]] * b[1][a[1]][q_[1]] * b[2][a[2]][q_[2]]
    return s


for kind in range(2):
    for c in ((0, 0, 0), (0, 1, 0), (0, 0, 2), (0, 1, 2), (0, 1, 1)):
        @contract('C10', name='%s_value_cell_%d%d%d' % ((('trilinear', 'tricubic')[kind],) + c), weight=2)
        def val3(k, kind=kind, c=c):
            g, f, F = setup3(k, kind)
            pu = [inside(k, g[d][0], g[d][1], c[d], 'uvw'[d]) for d in range(3)]
            r = k.call('d_i3d', kind, NODES3, g[0][0], g[1][0], g[2][0], F, *[p for p, _ in pu])
            k.ensure_eq('value', r, volume(kind, c, g, f, [u for _, u in pu]))

    @contract('C10', name='%s_nodes_and_edges' % ('trilinear', 'tricubic')[kind], weight=2)
    def node3(k, kind=kind):
        g, f, F = setup3(k, kind)
        for i in range(24):
            p = [g[0][0][i // 12], g[1][0][i // 4 % 3], g[2][0][i % 4]]
            k.ensure_eq('value at node %d' % i, k.call('d_i3d', kind, NODES3, g[0][0], g[1][0], g[2][0], F, *p), f[0][i])

    @contract('C10', name='%s_outside' % ('trilinear', 'tricubic')[kind])
    def outside3(k, kind=kind):
        g, f, F = setup3(k, kind)
        t, a, b = k.real('t', 'pos'), k.real('a'), k.real('b')
        if k.native:
            return k.ensure('nothing', TRUE)
        for d in range(3):
            for e in (g[d][0][0] - t, g[d][0][-1] + t):
                p = [a, b]
                p.insert(d, e)
                k.ensure_eq('not a number', k.call('d_i3d', kind, NODES3, g[0][0], g[1][0], g[2][0], F, *p), T.NAN)


def tricubic(k, nx, ny, nz, reg):
    """every row along each axis is a one-dimensional natural spline; mixed derivatives are splines of first derivatives;
    with the slope limiter each first derivative is limited along its axis, and each mixed one along both"""
    n = nx * ny * nz
    X, Y, Z = [nodes(k, m, c)[0] for m, c in ((nx, 'x'), (ny, 'y'), (nz, 'z'))]
    f = [k.real('f%d' % i) for i in range(n)]
    skew(k, X, Y, Z)
    o = k.call('d_ccub3', nx * 256 + ny * 16 + nz, n | reg << 16, X, Y, Z, f, k.out(8 * n))
    F, FX, FY, FZ, FXY, FXZ, FYZ, FXYZ = [o[i * n:(i + 1) * n] for i in range(8)]
    at = lambda a, i, j, l: a[(i * ny + j) * nz + l]
    m = 4 * reg
    inx, iny, inz = [lambda a, j, l: [at(a, i, j, l) for i in range(nx)], lambda a, i, l: [at(a, i, j, l) for j in range(ny)], lambda a, i, j: [at(a, i, j, l) for l in range(nz)]]
    same(k, 'value', F, f)
    XY, XZ, YZ = {}, {}, {}
    for j in range(ny):
        for l in range(nz):
            same(k, 'd/dx at y %d z %d' % (j, l), inx(FX, j, l), ccub(k, X, inx(F, j, l), m))
            XY[j, l], XZ[j, l] = ccub(k, X, inx(FY, j, l), m), ccub(k, X, inx(FZ, j, l), m)
            if not reg:
                same(k, 'd2/dxdy at y %d z %d' % (j, l), inx(FXY, j, l), XY[j, l])
                same(k, 'd2/dxdz at y %d z %d' % (j, l), inx(FXZ, j, l), XZ[j, l])
    for i in range(nx):
        for l in range(nz):
            same(k, 'd/dy at x %d z %d' % (i, l), iny(FY, i, l), ccub(k, Y, iny(F, i, l), m))
            YZ[i, l] = ccub(k, Y, iny(FZ, i, l), m)
            if reg:
                same(k, 'd2/dxdy at x %d z %d' % (i, l), iny(FXY, i, l), lim(k, Y, iny(FX, i, l), [XY[j, l][i] for j in range(ny)]))
            else:
                same(k, 'd2/dydz at x %d z %d' % (i, l), iny(FYZ, i, l), YZ[i, l])
        for j in range(ny):
            same(k, 'd/dz at x %d y %d' % (i, j), inz(FZ, i, j), ccub(k, Z, inz(F, i, j), m))
            if reg:
                same(k, 'd2/dxdz at x %d y %d' % (i, j), inz(FXZ, i, j), lim(k, Z, inz(FX, i, j), [XZ[j, l][i] for l in range(nz)]))
                same(k, 'd2/dydz at x %d y %d' % (i, j), inz(FYZ, i, j), lim(k, Z, inz(FY, i, j), [YZ[i, l][j] for l in range(nz)]))
            same(k, 'd3/dxdydz at x %d y %d' % (i, j), inz(FXYZ, i, j), ccub(k, Z, inz(FXY, i, j), m))


@contract('C10', weight=4)
def tricubic_construction_from_values(k):
    tricubic(k, 2, 2, 3, 0)


@contract('C10', weight=4, **LIMITER)
def tricubic_construction_with_the_slope_limiter(k):
    tricubic(k, 2, 2, 3, 1)


for reg in (0, 1):
    @contract('C10', name='tricubic_construction_native_reg%d' % reg, weight=2, bounded='larger grids: constructed splines with the slope limiter are compared at sampled data')
    def ccub3n(k, reg=reg):
        tricubic(k, 3, 4, 5, reg)


def bvals(k, X, ind, x, D=0):
    return k.call('d_bspl', 3, D, ind, len(X), X, x, k.out(4))


@contract('C10', weight=4, maxvisits=2000)
def tricubic_construction_from_amplitudes(k):
    """nodes carry the values and derivatives of the tensor-product B-spline with the given amplitudes"""
    nx, ny, nz = 2, 2, 3
    n = nx * ny * nz
    G = [nodes(k, m, c)[0] for m, c in ((nx, 'x'), (ny, 'y'), (nz, 'z'))]
    na = (nx + 2) * (ny + 2) * (nz + 2)
    a = [k.real('a%d' % i) for i in range(na)]
    o = k.call('d_ccub3', nx * 256 + ny * 16 + nz, na, *G, a, k.out(8 * n))
    O = [o[i * n:(i + 1) * n] for i in range(8)]
    B = [[[bvals(k, g, min(i, len(g) - 2), g[i], D) for i in range(len(g))] for D in (0, 1)] for g in G]
    for i in range(nx):
        for j in range(ny):
            for l in range(nz):
                L = [min(i, nx - 2), min(j, ny - 2), min(l, nz - 2)]
                for q_, d in enumerate(ARR3[1]):
                    s = ZERO
                    for p in range(64):
                        e = (p >> 4, p >> 2 & 3, p & 3)
                        c = a[((L[0] + e[0]) * (ny + 2) + L[1] + e[1]) * (nz + 2) + L[2] + e[2]]
                        s = s + c * B[0][d[0]][i][e[0]] * B[1][d[1]][j][e[1]] * B[2][d[2]][l][e[2]]
                    k.ensure_eq('derivative %d%d%d at %d%d%d' % (d + (i, j, l)), O[q_][(i * ny + j) * nz + l], s)


# ---- three-dimensional B-splines -----------------------------------------------------------------------
for N in (1, 3):
    code = N + 4 * NODES3
    dims = [n + N - 1 for n in N3]
    num = dims[0] * dims[1] * dims[2]

    @contract('C10', name='bspline3d_indices_degree%d' % N)
    def b3ind(k, N=N, code=code, dims=dims, num=num):
        """the number of components, their bijection with triplets of indices, and the region where each one is nonzero"""
        G = [nodes(k, n, c)[0] for n, c in zip(N3, 'xyz')]
        g = sum(G, [])
        r = k.call('d_b3num', code, g)
        k.ensure_eq('number of components', r, lift(num) if k.native else ic(num))
        for c in range(num):
            o = k.call('d_b3d', code, g, c, k.out(10))
            ind = [c // (dims[1] * dims[2]), c // dims[2] % dims[1], c % dims[2]]
            for d in range(3):
                k.ensure_eq('index %d of component %d' % (d, c), o[6 + d], lift(ind[d]))
                k.ensure_eq('lower end %d of component %d' % (d, c), o[d], G[d][max(0, ind[d] - N)])
                k.ensure_eq('upper end %d of component %d' % (d, c), o[3 + d], G[d][min(ind[d] + 1, N3[d] - 1)])
            k.ensure_eq('composed index %d' % c, o[9], lift(c))

    for c in ((0, 0, 0), (0, 1, 2), (0, 1, 1)):
        @contract('C10', name='bspline3d_weights_degree%d_cell_%d%d%d' % ((N,) + c), weight=2)
        def b3w(k, N=N, code=code, dims=dims, num=num, c=c):
            """weights are products of one-dimensional B-splines; all ways of evaluating them agree"""
            gg = [nodes(k, n, t) for n, t in zip(N3, 'xyz')]
            g = sum([x for x, _ in gg], [])
            pu = [inside(k, gg[d][0], gg[d][1], c[d], 'uvw'[d]) for d in range(3)]
            p = [x for x, _ in pu]
            o = k.call('d_b3w', code, g, p, k.out(3 + (N + 1) ** 3))
            B = [k.call('d_bspl', N, 0, c[d], N3[d], gg[d][0], p[d], k.out(N + 1)) for d in range(3)]
            for d in range(3):
                k.ensure_eq('leftmost index %d' % d, o[d], lift(c[d]))
            a = [k.real('a%d' % i) for i in range(num)]
            e = k.call('d_b3e', code, g, p, k.out(num))
            s = ZERO
            for q_ in range(num):
                ind = [q_ // (dims[1] * dims[2]), q_ // dims[2] % dims[1], q_ % dims[2]]
                r = [ind[d] - c[d] for d in range(3)]
                w = ZERO
                if min(r) >= 0 and max(r) <= N:
                    w = B[0][r[0]] * B[1][r[1]] * B[2][r[2]]
                    k.ensure_eq('weight %d%d%d' % tuple(r), o[3 + (r[0] * (N + 1) + r[1]) * (N + 1) + r[2]], w)
                s = s + w * a[q_]
                k.ensure_eq('value of component %d' % q_, e[q_], w)
                if q_ % 3 == 0 or min(r) >= 0 and max(r) <= N and sum(r) % 2:
                    k.ensure_eq('single component %d' % q_, k.call('d_b3v', code, g, p, q_), w)
            k.ensure_eq('interpolated', k.call('d_b3i', code, g, p, a), s)

    @contract('C10', name='bspline3d_outside_degree%d' % N)
    def b3out(k, N=N, code=code, num=num):
        G = [nodes(k, n, c)[0] for n, c in zip(N3, 'xyz')]
        g = sum(G, [])
        t, a, b = k.real('t', 'pos'), k.real('a'), k.real('b')
        if k.native:
            k.require(lt(lift(Fraction(1, 50)), t))
        A = [k.real('a%d' % i) for i in range(num)]
        for d in range(3):
            for e in (G[d][0] - t, G[d][-1] + t):
                p = [(G[0][0] + G[0][1]) / 2, (G[1][0] + 2 * G[1][1]) / 3, (G[2][1] + G[2][2]) / 2]
                p[d] = e
                k.ensure_eq('zero outside', k.call('d_b3i', code, g, p, A), ZERO)
                for i, v in enumerate(k.call('d_b3e', code, g, p, k.out(num))):
                    k.ensure_eq('component %d is zero outside' % i, v, ZERO)


# ---- spline in doubly logarithmic coordinates ----------------------------------------------------------
def llog(k, n, q_, X, f, lf, ld, ld2, lx, t):
    return k.call('d_llog', n, q_, X, f, lf, ld, ld2, lx, t, k.out(3))


def llsetup(k, n):
    X = [k.real('x0', 'pos')]
    for i in range(n - 1):
        g = k.real('h%d' % i, 'pos')
        if k.native:
            k.require(lt(lift(Fraction(1, 10)), g))
        X.append(X[-1] + g)
    lx = [fn('log', x) for x in X]
    f = [k.real('f%d' % i) for i in range(n)]
    lf = [k.real('lf%d' % i) for i in range(n)]
    ld = [k.real('ld%d' % i) for i in range(n)]
    le = [k.real('le%d' % i) for i in range(n)]
    fd = [k.real('fd%d' % i) for i in range(n)]
    return X, lx, f, lf, ld, le, fd


# Hermite basis (value, slope, second derivative at the left and right end) as polynomials
COEFS = [[[[1, 0, -3, 2], [0, 0, 3, -2]], [[0, 1, -2, 1], [0, 0, -1, 1]]],
         [[[1, 0, 0, -10, 15, -6], [0, 0, 0, 10, -15, 6]], [[0, 1, 0, -6, 8, -3], [0, 0, 0, -4, 7, -3]],
          [[0, 0, Fraction(1, 2), Fraction(-3, 2), Fraction(3, 2), Fraction(-1, 2)], [0, 0, 0, Fraction(1, 2), -1, Fraction(1, 2)]]]]

for quin in (0, 1):
    for i in (0, 1, 2):
        @contract('C10', name='loglog_%s_segment_%d' % (('cubic', 'quintic')[quin], i), weight=2)
        def llseg(k, quin=quin, i=i):
            """the function is exp of the interpolated logarithm at log x, and the derivatives are those of this function"""
            n = 4
            X, lx, f, lf, ld, le, fd = llsetup(k, n)
            u = k.real('u', lo=0, hi=1)
            k.require(and_(lt(ZERO, u), lt(u, ONE)))
            t = X[i] + u * (X[i + 1] - X[i])
            for m in (0, 8, 16, 4):
                o = llog(k, n, quin + m, X, f, lf, ld, le + fd, lx, t)
                h = lx[i + 1] - lx[i]
                w = (fn('log', t) - lx[i]) / h
                A = [lf, ld, le]
                s = [ZERO] * 3
                for d in range(2 + quin):
                    for p in range(2):
                        c = COEFS[quin][d][p]
                        for e in range(3):       # e-th derivative by log x
                            s[e] = s[e] + A[d][i + p] * h ** d / h ** e * sum([lift(c[j]) * w ** j for j in range(len(c))], ZERO)
                            c = [j * c[j] for j in range(1, len(c))]
                s, S1, S2 = s
                v = fn('exp', s)
                if not m & 4:
                    k.ensure_eq('value', o[0], v)
                if not m & 8:
                    k.ensure_eq('derivative', o[1], S1 * v / t)
                if not m & 16:
                    k.ensure_eq('second derivative', o[2], (S2 + S1 * S1 - S1) * v / t ** 2)


for side in (0, 1):
    @contract('C10', name='loglog_%s_extrapolation' % ('left', 'right')[side])
    def llext(k, side=side):
        """power law with the slope at the endpoint, or a constant if there is none"""
        n = 3
        X, lx, f, lf, ld, le, fd = llsetup(k, n)
        e = -side
        u = k.real('u', lo=0, hi=1)
        k.require(and_(lt(ZERO, u), lt(u, ONE)))
        t = X[0] * u if not side else X[-1] / u
        k.require(not_(eq(ld[e], ZERO)))
        for quin in (0, 1):
            o = llog(k, n, quin, X, f, lf, ld, le + fd, lx, t)
            v = f[e] * fn('exp', (fn('log', t) - lx[e]) * ld[e])
            k.ensure_eq('value', o[0], v)
            k.ensure_eq('derivative', o[1], v * ld[e] / t)
            k.ensure_eq('second derivative', o[2], v * ld[e] * (ld[e] - 1) / t ** 2)
            bad = [ZERO] if k.native else [ZERO, T.NAN]
            for z in bad:
                l2 = list(ld)
                l2[e] = z
                o = llog(k, n, quin, X, f, lf, l2, le + fd, lx, t)
                k.ensure_eq('constant', o[0], f[e])
                k.ensure_eq('no derivative', o[1], ZERO)
                k.ensure_eq('no second derivative', o[2], ZERO)


for which in (0, 1):
    for neg in (0, 1):
        @contract('C10', name='loglog_unscaled_segment_%d_%s' % (which, ('any', 'nonnegative')[neg]))
        def llun(k, which=which, neg=neg):
            """where the logarithm is unusable, ordinary cubic interpolation, cut at zero if the data are nonnegative"""
            n = 4
            X, lx, f, lf, ld, le, fd = llsetup(k, n)
            i = 1
            u = k.real('u', lo=0, hi=1)
            k.require(and_(lt(ZERO, u), lt(u, ONE)))
            if k.native:
                return k.ensure('nothing', TRUE)
            ld[i + which] = T.NAN
            h = X[i + 1] - X[i]
            t = X[i] + u * h
            B = hermite3(u, h)
            s = sum([A[i + p] * B[d][p] for d, A in enumerate((f, fd)) for p in range(2)], ZERO)
            if neg:
                k.require(not_(eq(s, ZERO)))
            o = llog(k, n, 2 * neg, X, f, lf, ld, le + fd, lx, t)
            z = T.ite(lt(ZERO, s), ONE, ZERO) if neg else ONE
            k.ensure_eq('value', o[0], z * s)
            k.ensure_eq('derivative', o[1] * h, z * k.D(s, u))
            k.ensure_eq('second derivative', o[2] * h ** 2, z * k.D(k.D(s, u), u))


for excl in (0, 1):
    @contract('C10', name='loglog_construction_derivs_%s' % ('all', 'one_excluded')[excl], bounded='the choice of admissible points branches at every node: checked at sampled data', tol=1e-8)
    def llder(k, excl=excl):
        """second derivatives are those of the quintic spline of logarithms through every admissible section"""
        n = 5
        X = [k.real('x0', 'pos')]
        f = [k.real('f0', 'pos')]
        for i in range(n - 1):
            g = k.real('h%d' % i, lo=Fraction(1, 5), hi=3)
            X.append(X[-1] + g)
            f.append(f[-1] + k.real('g%d' % i, lo=Fraction(1, 5), hi=3))
        k.require(and_(lt(lift(Fraction(1, 10)), X[0]), lt(X[0], lift(5)), lt(lift(Fraction(1, 10)), f[0]), lt(f[0], lift(5))))
        lx, lf = [fn('log', x) for x in X], [fn('log', x) for x in f]
        sl = [(lf[i + 1] - lf[i]) / (lx[i + 1] - lx[i]) for i in range(n - 1)]
        ld = []
        for i in range(n):
            c = k.real('c%d' % i, lo=0, hi=3)
            k.require(and_(lt(lift(Fraction(1, 10)), c), lt(c, lift(Fraction(29, 10)))))
            if excl and i == 2:
                c = c + 3
            a, b = sl[max(i - 1, 0)], sl[min(i, n - 2)]
            ld.append(c * ite(lt(a, b), a, b))
        o = k.call('d_cllog', n, 4, X, f, [ld[i] * f[i] / X[i] for i in range(n)], ZERO, ZERO, k.out(4 * n))
        same(k, 'log x', o[:n], lx)
        same(k, 'log f', o[n:2 * n], lf)
        for sec in ((0, 1), (3, 4)) if excl else (range(n),):
            P = lambda v: [v[i] for i in sec]
            same(k, 'slope', P(o[2 * n:3 * n]), P(ld))
            same(k, 'second derivative', P(o[3 * n:]), cqui(k, P(lx), P(lf), P(ld)))
        if excl:    # marked as bad
            k.ensure('excluded point', not_(eq(o[2 * n + 2], o[2 * n + 2])) if not k.native else TRUE)


for mode in range(4):
    @contract('C10', name='loglog_construction_mode%d' % mode, bounded='the slope limiter branches on every segment: compared with the limited cubic spline of logarithms at sampled data', tol=1e-8)
    def llcon(k, mode=mode):
        n = 6
        X = [k.real('x0', 'pos')]
        for i in range(n - 1):
            g = k.real('h%d' % i, 'pos')
            k.require(lt(lift(Fraction(1, 10)), g))
            X.append(X[-1] + g)
        k.require(lt(lift(Fraction(1, 10)), X[0]))
        f = [k.real('g%d' % i, 'pos') for i in range(n)]
        for x in f:
            k.require(and_(lt(lift(Fraction(1, 10)), x), lt(x, lift(10))))
        dl, dr = k.real('dl'), k.real('dr')
        o = k.call('d_cllog', n, mode, X, f, X, dl, dr, k.out(4 * n))
        lx, lf = [fn('log', x) for x in X], [fn('log', x) for x in f]
        m = ccub(k, lx, lf, mode, dl * X[0] / f[0], dr * X[-1] / f[-1])
        e = k.call('d_reg', n, lx, lf, m, k.out(n))
        same(k, 'log x', o[:n], lx)
        same(k, 'log f', o[n:2 * n], lf)
        same(k, 'slope', o[2 * n:3 * n], e)
        m = ccub(k, X, f, mode, dl, dr)
        same(k, 'unscaled slope', o[3 * n:], k.call('d_reg', n, X, f, m, k.out(n)))


for mode, z in ((0, None), (1, None), (2, None), (3, None), (0, 0), (1, 0), (2, 3), (3, 2)):
    @contract('C10', name='loglog_construction_limited_mode%d%s' % (mode, '' if z is None else '_zero_at_%d' % z), weight=2, **LIMITER)
    def llcon2(k, mode=mode, z=z):
        """every section of positive values is a limited cubic spline of logarithms, with the end slopes given by the caller"""
        n = 3 if z is None else 4 if z in (0, 3) else 5
        X = [k.real('x0', 'pos')]
        for i in range(n - 1):
            X.append(X[-1] + k.real('h%d' % i, 'pos'))
        f = [ZERO if i == z else k.real('g%d' % i, 'pos') for i in range(n)]
        dl, dr = k.real('dl'), k.real('dr')
        lx, lf = [fn('log', x) for x in X], [fn('log', x) if i != z else ZERO for i, x in enumerate(f)]
        secs = [r for r in (range(n) if z is None else range(z), range(0) if z is None else range(z + 1, n)) if len(r) > 1]
        for r in secs:
            skew(k, [lx[i] for i in r])
        o = k.call('d_cllog', n, mode, X, f, X, dl, dr, k.out(4 * n))
        same(k, 'log x', o[:n], lx)
        same(k, 'unscaled slope', o[3 * n:], lim(k, X, f, ccub(k, X, f, mode, dl, dr)))
        for r in secs:
            P = lambda v: [v[i] for i in r]
            m = (mode & 1 if r[0] == 0 else 0) | (mode & 2 if r[-1] == n - 1 else 0)
            same(k, 'log f', P(o[n:2 * n]), P(lf))
            same(k, 'slope', P(o[2 * n:3 * n]), lim(k, P(lx), P(lf), ccub(k, P(lx), P(lf), m, dl * X[0] / f[0] if m & 1 else ZERO, dr * X[-1] / f[-1] if m & 2 else ZERO)))


# ---- grids ---------------------------------------------------------------------------------------------
for n in (2, 3, 5, 8):
    @contract('C10', name='uniform_grid_%d' % n)
    def ugrid(k, n=n):
        a, d = k.real('a'), k.real('d', 'pos')
        o = k.call('d_ugrid', n, a, a + d, k.out(n))
        for i in range(n):
            k.ensure_eq('node %d' % i, o[i], a + d * lift(Fraction(i, n - 1)))

    @contract('C10', name='exp_grid_%d' % n)
    def egrid(k, n=n):
        a, d = k.real('a', 'pos'), k.real('d', 'pos')
        b = a * (1 + d)
        o = k.call('d_egrid', n, a, b, k.out(n))
        k.ensure_eq('first', o[0], a)
        k.ensure_eq('last', o[n - 1], b)
        for i in range(1, n - 1):
            c = lift(Fraction(i, n - 1))
            k.ensure_eq('node %d' % i, o[i], fn('exp', fn('log', a) * (1 - c) + fn('log', b) * c))

    @contract('C10', name='mirror_grid_%d' % n)
    def mgrid(k, n=n):
        X = [ZERO]
        for i in range(n - 1):
            X.append(X[-1] + k.real('h%d' % i, 'pos'))
        r, o = k.call('d_mgrid', n, X, k.out(2 * n - 1))
        k.ensure_eq('size', r, lift(2 * n - 1) if k.native else ic(2 * n - 1))
        for i in range(n):
            k.ensure_eq('positive %d' % i, o[n - 1 + i], X[i])
            k.ensure_eq('negative %d' % i, o[n - 1 - i], -X[i])

for n in (3, 4, 7, 20):
    for z in (0, 1):
        @contract('C10', name='nonuniform_grid_%d_%d' % (n, z), bounded='the spacing comes from an iterative root finder: grids are checked at sampled data')
        def ngrid(k, n=n, z=z):
            """strictly increasing from xmin (preceded by 0 if requested) to xmax; nodes are B (exp(A k) - 1)"""
            a, d = k.real('a', 'pos'), k.real('d', 'pos')
            k.require(and_(lt(lift(Fraction(1, 50)), a), lt(a, lift(50)), lt(lift(Fraction(1, 50)), d), lt(d, lift(200))))
            k.require(lt(lift(3 if n - z < 3 else 1), d))
            b = a * (1 + d)
            o = k.call('d_ngrid', n, z, a, b, k.out(n))
            if z:
                k.ensure_eq('zero', o[0], ZERO)
            k.ensure_close('first', o[z], a, Fraction(1, 10 ** 8), a)
            k.ensure_eq('last', o[n - 1], b)
            for i in range(n - 1):
                k.ensure('increasing %d' % i, lt(o[i], o[i + 1]))
            for i in range(z + 1, n - 2):       # (x_{k+1} - x_k) is a geometric progression (the last node only within the accuracy of the root finder)
                p, c, s = o[i - 1], o[i], o[i + 1]
                if i >= z + 2:
                    k.ensure_close('progression %d' % i, (s - c) * (o[i - 1] - o[i - 2]), (c - p) * (c - p), Fraction(1, 10 ** 6), (c - p) * (c - p))

    @contract('C10', name='symmetric_grid_%d' % n, bounded='the spacing comes from an iterative root finder: grids are checked at sampled data')
    def sgrid(k, n=n):
        """strictly increasing, antisymmetric, ends at the given limits"""
        a, d = k.real('a', 'pos'), k.real('d', 'pos')
        k.require(and_(lt(lift(Fraction(1, 50)), a), lt(a, lift(50)), lt(lift(10), d), lt(d, lift(200))))
        b = a * d
        o = k.call('d_sgrid', n, a, b, k.out(n))
        k.ensure_eq('last', o[n - 1], b)
        for i in range(n):
            k.ensure_eq('antisymmetric %d' % i, o[i], -o[n - 1 - i])
            if i:
                k.ensure('increasing %d' % i, lt(o[i - 1], o[i]))
        if n > 3:
            k.ensure_close('smallest interval', o[(n + 1) // 2] - o[(n + 1) // 2 - 1], a, Fraction(1, 10 ** 6), a)
