"""C06: orbits obey Newton's equations in the given potential and rotating frame, whichever coordinate system is used internally;
initial conditions, output states and recorded trajectories refer to the same solution."""
from contracts.potlib import *

TUS = ['coord.cpp', 'potential_base.cpp', 'orbit.cpp', 'orbit_variational.cpp', 'math_core.cpp', 'math_ode.cpp', 'math_linalg.cpp', 'math_fit.cpp',
       'potential_utils.cpp', 'math_spline.cpp', 'math_specfunc.cpp', 'utils.cpp']
DRV = ['drv_orbit.cpp']


def frame(cs, q):
    """Cartesian position and velocity of a state with any sign of R, r, sin(theta)"""
    if cs == 'Car':
        return q[:3], q[3:]
    if cs == 'Cyl':
        R, z, ph, vR, vz, vp = q
        c, s = fn('cos', ph), fn('sin', ph)
        return [R * c, R * s, z], [vR * c - vp * s, vR * s + vp * c, vz]
    r, th, ph, vr, vt, vp = q
    c, s, C, S = fn('cos', ph), fn('sin', ph), fn('cos', th), fn('sin', th)
    vR = vr * S + vt * C
    return [r * S * c, r * S * s, r * C], [vR * c - vp * s, vR * s + vp * c, vr * C - vt * S]


def state(k, cs, ranges):
    """state vector with signs of R / r and the range of theta as given"""
    v = k.reals('v0 v1 v2')
    if cs == 'Car':
        return k.reals('x y z') + v
    if cs == 'Cyl':
        R = k.real('R', **ranges.get('R', {}))
        k.require(not_(eq(R, ZERO)))
        return [R, k.real('z'), k.real('phi', ('angle',))] + v
    r = k.real('r', **ranges.get('r', {}))
    th = k.real('theta', **ranges.get('theta', {}))
    k.require(not_(eq(r, ZERO)))
    k.require(not_(eq(fn('sin', th), ZERO)))
    return [r, th, k.real('phi', ('angle',))] + v


NEG, POS = dict(hi=0), dict(lo=0)
RANGES = {'Car': {'': {}},
          'Cyl': {'R>0': {'R': POS}, 'R<0': {'R': NEG}},
          'Sph': {}}
for rn, rr in (('r>0', POS), ('r<0', NEG)):
    for tn, (lo, hi) in (('0<theta<pi', (0, PI)), ('-pi<theta<0', (-PI, 0)), ('pi<theta<2pi', (PI, 2 * PI)), ('-2pi<theta<-pi', (-2 * PI, -PI))):
        RANGES['Sph'][rn + ', ' + tn] = {'r': rr, 'theta': dict(lo=lo, hi=hi)}


def along(k, f, q, d, t):
    return sum((k.D(f, a) * b for a, b in zip(q, d)), k.D(f, t))


for cs in CSS:
    for rn in RANGES[cs]:
        @contract('C06', 'equations of motion in %s coordinates %s: Newton\'s law in the rotating frame' % (cs, rn), ring_s=60)
        def rhs(k, cs=cs, rn=rn):
            q = state(k, cs, RANGES[cs][rn])
            Om, t = k.reals('Om t')
            d = k.call('d_rhs_' + cs, Om, t, q, k.out(6))
            x, v = frame(cs, q)
            if cs == 'Car':   # the state is in the inertial frame
                c, s = fn('cos', Om * t), fn('sin', Om * t)
                y = [c * x[0] + s * x[1], c * x[1] - s * x[0], x[2]]
                g = [uf('F0_4', y + [t], [int(i == j) for j in range(4)]) for i in range(3)]
                a = [-c * g[0] + s * g[1], -c * g[1] - s * g[0], -g[2]]
                for i in range(3):
                    k.ensure_eq('velocity %s' % 'xyz'[i], d[i], v[i])
                    k.ensure_eq('acceleration %s' % 'xyz'[i], d[3 + i], a[i])
                return
            g = [uf('F0_4', x + [t], [int(i == j) for j in range(4)]) for i in range(3)]
            rot = lambda w: [-Om * w[1], Om * w[0], ZERO]
            for i in range(3):
                k.ensure_eq('velocity %s' % 'xyz'[i], along(k, x[i], q, d, t), v[i] - rot(x)[i])
                k.ensure_eq('acceleration %s' % 'xyz'[i], along(k, v[i], q, d, t), -g[i] - rot(v)[i])

        @contract('C06', 'output state in %s coordinates %s' % (cs, rn), ring_s=60)
        def sol(k, cs=cs, rn=rn):
            q = state(k, cs, RANGES[cs][rn])
            Om, t = k.reals('Om t')
            nat, car = k.call('d_sol_' + cs, Om, t, q, k.out(6), k.out(6))
            x, v = frame(cs, q)
            if cs == 'Car':
                c, s = fn('cos', Om * t), fn('sin', Om * t)
                x, v = [[c * w[0] + s * w[1], c * w[1] - s * w[0], w[2]] for w in (x, v)]
            nx, nv = frame(cs, nat)
            for i in range(3):
                k.ensure_eq('position %s of the native state' % 'xyz'[i], nx[i], x[i])
                k.ensure_eq('velocity %s of the native state' % 'xyz'[i], nv[i], v[i])
                k.ensure_eq('position %s' % 'xyz'[i], car[i], x[i])
                k.ensure_eq('velocity %s' % 'xyz'[i], car[3 + i], v[i])
            if cs != 'Car':
                k.ensure('radius is not negative', le(ZERO, nat[0]))
            if cs == 'Sph':
                k.ensure('theta>=0', le(ZERO, nat[1]))
                k.ensure('theta<=pi', le(nat[1], PI))

    @contract('C06', 'initial conditions are returned unchanged (%s)' % cs, ring_s=60)
    def rnd(k, cs=cs):
        ic = k.reals('x y z vx vy vz')
        Om, t = k.reals('Om t')
        exclude_axis_car(k, cs, ic)
        for w in ('round', 'reinit'):
            o = k.call('d_%s_%s' % (w, cs), Om, t, ic, k.out(8))
            for i in range(6):
                k.ensure_eq('%s %d' % (w, i), o[i], ic[i])
            k.ensure_eq('%s: time' % w, o[6], t)

    @contract('C06', 'accuracy factor is between 0 and 1 (%s)' % cs, ring_s=60)
    def acc(k, cs=cs):
        q = state(k, cs, {'R': POS, 'r': POS, 'theta': dict(lo=0, hi=PI)})
        t = k.real('t')
        x, v = frame(cs, q)
        F = uf('F0_4', x + [t])
        Ek = (v[0] ** 2 + v[1] ** 2 + v[2] ** 2) / 2
        a = k.call('d_acc_' + cs, t, q)
        aE = fn('fabs', F + Ek)
        k.require(not_(eq(F, ZERO)))
        k.ensure('not negative', le(ZERO, a))
        k.ensure('not above one', le(a, ONE))


def exclude_axis_car(k, cs, ic):
    if cs != 'Car':
        k.require(not_(eq(ic[0] * ic[0] + ic[1] * ic[1], ZERO)))


@contract('C06', 'acceleration and jerk for the Hermite integrator, static potential', ring_s=60)
def herm(k):
    q = state(k, 'Car', {})
    t = k.real('t')
    a, j = k.call('d_herm', ZERO, t, q, k.out(3), k.out(3))
    for i in range(3):
        g = uf('F0_4', q[:3] + [t], [int(i == m) for m in range(4)])
        k.ensure_eq('acceleration %d' % i, a[i], -g)
        k.ensure_eq('jerk %d' % i, j[i], -sum((k.D(g, q[m]) * q[3 + m] for m in range(3)), ZERO))


@contract('C06', 'variational equation: matrix is minus the Hessian in the inertial frame', ring_s=60)
def vareq(k):
    Om, t = k.reals('Om t')
    x, a, b = k.call('d_vareq', Om, t, k.out(6), k.out(9), k.out(9))
    y = [uf('F%d_1' % (20 + i), [t]) for i in range(3)]
    H = [[uf('F0_4', y + [t], [int(i == m) + int(j == m) for m in range(4)]) for j in range(3)] for i in range(3)]
    c, s = fn('cos', Om * t), fn('sin', Om * t)
    Q = [[c, -s, ZERO], [s, c, ZERO], [ZERO, ZERO, ONE]]   # inertial = Q . rotating
    for i in range(3):
        for j in range(3):
            w = sum((Q[i][m] * Q[j][n] * H[m][n] for m in range(3) for n in range(3)), ZERO)
            k.ensure_eq('matrix %d,%d' % (i, j), a[3 * i + j], -w)
            k.ensure_eq('velocity matrix %d,%d' % (i, j), b[3 * i + j], ZERO)


for vec in (0, 3, 5):
    @contract('C06', 'deviation vector %d is reported in the rotating frame' % vec, ring_s=60, maxvisits=300)
    def store(k, vec=vec):
        Om, t, al = k.reals('Om t al')
        d = k.reals('d0 d1 d2 d3 d4 d5')
        k.require(not_(eq(d[0], ZERO)))
        r, o = k.call('d_store', Om, t, al, d, vec, k.out(42))
        c, s, m = fn('cos', Om * t), fn('sin', Om * t), fn('exp', al)
        w = [(d[i] * c + d[i + 1] * s, d[i + 1] * c - d[i] * s, d[i + 2]) for i in (0, 3)]
        for j in range(6):
            k.ensure_eq('time %d' % j, o[7 * j + 6], t)
            for i in range(6):
                k.ensure_eq('vector %d component %d' % (j, i), o[7 * j + i], m * w[i // 3][i % 3] if j == vec else ZERO)
        k.ensure_eq('largest magnitude', r, fn('log', sum((a * a for a in d), ZERO)) / 2)


for sg in (1, -1):
    for nst in (1, 2, 3):
        @contract('C06', 'run(): %d steps %s end exactly at the requested time' % (nst, 'forward' if sg > 0 else 'backward'), ring_s=60)
        def run(k, sg=sg, nst=nst):
            t0 = k.real('t0')
            h = [k.real('h%d' % i, lo=0) for i in range(nst)]
            T = k.real('T', lo=0)
            for a in h + [T]:
                k.require(lt(ZERO, a))
            k.require(lt(sum(h[:-1], ZERO), T))
            k.require(le(T, sum(h, ZERO)))
            n, (iv, sol) = k.call('d_run', t0, sg * T, nst, [sg * a for a in h], 100, 0, k.out(4 * nst), k.out(8))
            k.ensure_eq('number of steps', n, lift(nst))
            k.ensure_eq('number of steps seen by the second function', sol[7], lift(nst))
            k.ensure_eq('direction given to the solver', sol[6], lift(int(sg > 0)))
            for f in range(2):
                t = t0
                for i in range(nst):
                    k.ensure_eq('begin of interval %d' % i, iv[2 * nst * f + 2 * i], t)
                    t = t + sg * h[i] if i + 1 < nst else t0 + sg * T
                    k.ensure_eq('end of interval %d' % i, iv[2 * nst * f + 2 * i + 1], t)
            for i in range(6):
                k.ensure_eq('final state %d' % i, sol[i], uf('F%d_1' % (20 + i), [t0 + sg * T]))


@contract('C06', 'run() stops early on a failed step, on the step limit, on request; does nothing for zero time', ring_s=60)
def stops(k):
    t0, h, T = k.real('t0'), k.real('h', lo=0), k.real('T', lo=0)
    k.require(lt(ZERO, h))
    k.require(lt(3 * h, T))
    F = lambda t: [uf('F%d_1' % (20 + i), [t]) for i in range(6)]
    for sg in (1, -1):
        for nm, arg, n, tend in (('failed third step', (2, [sg * h, sg * h], 100, 0), 2, 2), ('step limit', (3, [sg * h] * 3, 2, 0), 2, 2),
                                 ('request', (3, [sg * h] * 3, 100, 1), 1, 1), ('first step failed', (0, [ZERO], 100, 0), 0, 0),
                                 ('step in the wrong direction', (2, [sg * h, -sg * h], 100, 0), 1, 1)):
            r, (iv, sol) = k.call('d_run', t0, sg * T, *arg, k.out(20), k.out(8))
            k.ensure_eq('%s: number of steps' % nm, r, lift(n))
            for i, w in enumerate(F(t0 + sg * tend * h)):
                k.ensure_eq('%s: final state %d' % (nm, i), sol[i], w)
    r, (iv, sol) = k.call('d_run', t0, ZERO, 1, [h], 100, 0, k.out(20), k.out(8))
    k.ensure_eq('zero time: number of steps', r, ZERO)
    for i, w in enumerate(F(t0)):
        k.ensure_eq('zero time: state %d' % i, sol[i], w)


# breakpoints of the steps in units of the sampling interval: (integer part, fraction in (0.1,0.9) or none)
PATTERNS = {'one step shorter than the interval': [(0, 1)], 'one step over two samples': [(2, 1)], 'steps within an interval': [(0, 1), (0, 2), (1, 1)],
            'steps ending on samples': [(1, 0), (2, 0), (2, 1)], 'long then short': [(2, 1), (2, 2)]}
for pn, pat in PATTERNS.items():
    for sg in (1, -1):
        @contract('C06', 'trajectory at regular intervals, %s, %s' % (pn, 'forward' if sg > 0 else 'backward'), ring_s=60)
        def traj(k, pat=pat, sg=sg):
            t0, dt = k.real('t0'), k.real('dt', lo=0)
            k.require(lt(ZERO, dt))
            f = [k.real('f%d' % i, lo=0) for i in (1, 2)]
            k.require(lt(dt, 10 * f[0]))
            k.require(lt(f[0], f[1]))
            k.require(lt(10 * f[1], 9 * dt))
            ts = [t0] + [t0 + sg * (n * dt + (f[m - 1] if m else ZERO)) for n, m in pat]
            for s in (1, -1):
                k.require(lt(s * t0, Fraction(10) ** 11 * dt))
            npt = pat[-1][0] + 1
            n, o = k.call('d_traj', dt, len(pat), ts, npt, k.out(7 * npt))
            k.ensure_eq('number of recorded points', n, lift(npt))
            for j in range(npt):
                t = t0 + sg * j * dt
                k.ensure_eq('time of point %d' % j, o[7 * j + 6], t)
                for i in range(6):
                    k.ensure_eq('point %d component %d' % (j, i), o[7 * j + i], uf('F%d_1' % (20 + i), [t]))


for nst in (1, 3):
    @contract('C06', 'trajectory at every step and last point, %d steps' % nst)
    def traj0(k, nst=nst):
        ts = k.reals(' '.join('t%d' % i for i in range(nst + 1)))
        n, o = k.call('d_traj', ZERO, nst, ts, nst + 1, k.out(7 * nst + 7))
        k.ensure_eq('number of recorded points', n, lift(nst + 1))
        for j in range(nst + 1):
            k.ensure_eq('time of point %d' % j, o[7 * j + 6], ts[j])
            for i in range(6):
                k.ensure_eq('point %d component %d' % (j, i), o[7 * j + i], uf('F%d_1' % (20 + i), [ts[j]]))
        n, o = k.call('d_trajinf', nst, ts, k.out(7))
        k.ensure_eq('last point: number of recorded points', n, ONE)
        k.ensure_eq('last point: time', o[6], ts[nst])
        for i in range(6):
            k.ensure_eq('last point: component %d' % i, o[i], uf('F%d_1' % (20 + i), [ts[nst]]))


@contract('C06', 'Hermite integration is refused in a rotating frame and in other coordinate systems')
def hermthrow(k):
    q = state(k, 'Car', {})
    Om, t = k.reals('Om t')
    k.require(not_(eq(Om, ZERO)))
    k.onthrow = lambda k: k.ensure('throws', TRUE)
    k.call('d_herm', Om, t, q, k.out(3), k.out(3))
    k.ensure('throws', FALSE)


@contract('C06', 'the requested kind of solver is used')
def solver(k):
    k.ensure_eq('Hermite', k.call('d_solver', 1), ONE)
    k.ensure_eq('DOP853', k.call('d_solver', 0), TWO)
