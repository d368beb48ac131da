"""C11: distribution functions."""
from agv.engine import contract
from agv.terms import *
from agv import terms as T
import math

TUS = ['df_disk.cpp', 'df_factory.cpp', 'potential_utils.cpp', 'actions_spherical.cpp', 'potential_base.cpp', 'potential_analytic.cpp', 'potential_composite.cpp',
       'coord.cpp', 'math_core.cpp', 'math_specfunc.cpp', 'math_linalg.cpp', 'math_fit.cpp', 'math_spline.cpp', 'math_sample.cpp', 'math_geometry.cpp', 'math_random.cpp',
       'cubature.cpp', 'utils.cpp', 'utils_config.cpp', 'actions_focal_distance_finder.cpp', 'math_ode.cpp', 'orbit.cpp']
DRV = ['drv_df.cpp']
HALF = q(Fraction(1, 2))
pw = lambda a, b: fn('pow', lift(a), lift(b))
DPL = 'norm J0 Jcutoff slopeIn slopeOut steepness cutoffStrength coefJrIn coefJzIn coefJrOut coefJzOut rotFrac Jphi0 Jcore'.split()


def actions3(k, s):
    """positive Jr, Jz and Jphi of the given sign (0: zero)"""
    Jr, Jz = k.real('Jr', 'mod'), k.real('Jz', 'mod')
    Jp = k.real('Jphi', 'mod')
    return [Jr, Jz, Jp if s > 0 else -Jp if s < 0 else ZERO], Jp


def derivs(k, v, d, fs, J, Jp, s, skip=False):
    """v is the product of the factors fs, d contains its derivatives by actions"""
    f = ONE
    for x in fs:
        f = f * x
    k.ensure_eq('value', v, f)
    k.ensure('non-negative', le(ZERO, v))
    if d is None:
        return
    dv = lambda x: v * sum((k.D(y, x) / y for y in fs), ZERO)       # v is already known to be the product
    for i, n in enumerate(('Jr', 'Jz')):
        k.ensure_eq('derivative by ' + n, d[i], dv(J[i]))
    if not skip:
        k.ensure_eq('derivative by Jphi', d[2], dv(Jp) if s > 0 else -dv(Jp))


def dplpar(k, cut=False, rot=False, core=False):
    P = dict(norm=k.real('norm', 'mod'), J0=k.real('J0', 'mod'), slopeIn=k.real('slopeIn', ('range', -1, 2.9)), slopeOut=k.real('slopeOut', ('range', 3.1, 8)),
             steepness=k.real('steepness', ('range', 0.3, 3)), cutoffStrength=k.real('cutoffStrength', ('range', 0.5, 4)),
             Jcutoff=k.real('Jcutoff', 'mod') if cut else ZERO, rotFrac=k.real('rotFrac', ('range', -1, 1)) if rot else ZERO,
             Jphi0=k.real('Jphi0', 'mod') if rot else ZERO, Jcore=k.real('Jcore', 'mod') if core else ZERO)
    for s in ('In', 'Out'):
        a, b = k.real('coefJr' + s, ('range', 0.1, 1.4)), k.real('coefJz' + s, ('range', 0.1, 1.4))
        k.require(lt(ZERO, a))
        k.require(lt(ZERO, b))
        k.require(lt(a + b, q(3)))
        P['coefJr' + s], P['coefJz' + s] = a, b
    k.require(lt(ZERO, P['steepness']))
    k.require(lt(ZERO, P['cutoffStrength']))
    if rot:
        k.require(le(P['rotFrac'], ONE))
        k.require(le(-ONE, P['rotFrac']))
    return P


def dplformula(P, J, absJp, beta, cut, rot, core):
    h = P['coefJrIn'] * J[0] + P['coefJzIn'] * J[1] + (q(3) - P['coefJrIn'] - P['coefJzIn']) * absJp
    g = P['coefJrOut'] * J[0] + P['coefJzOut'] * J[1] + (q(3) - P['coefJrOut'] - P['coefJzOut']) * absJp
    eta, J0 = P['steepness'], P['J0']
    f = [P['norm'] / (q(2) * PI * J0) ** 3 * pw(ONE + pw(J0 / h, eta), P['slopeIn'] / eta), pw(ONE + pw(g / J0, eta), -P['slopeOut'] / eta)]
    if cut:
        f.append(fn('exp', -pw(g / P['Jcutoff'], P['cutoffStrength'])))
    if core:
        c = P['Jcore'] / h
        f.append(pw(ONE + c * (c - beta), -HALF * P['slopeIn']))
    if rot:
        f.append(ONE + P['rotFrac'] * fn('tanh', J[2] / P['Jphi0']))
    return f


for cut, rot, core in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1)]:
    for s in (1, -1, 0):
        for der in (0, 1):
            if der and s == 0:
                continue

            @contract('C11', 'DoublePowerLaw cutoff=%d rotation=%d core=%d, Jphi sign %d%s' % (cut, rot, core, s, ', derivatives' if der else ''), ring_s=60)
            def dpl(k, cut=cut, rot=rot, core=core, s=s, der=der):
                P = dplpar(k, cut, rot, core)
                J, Jp = actions3(k, s)
                beta = ZERO
                if core:
                    beta = k.real('beta', ('range', 0, 1.9))
                    k.require(le(ZERO, beta))
                    k.require(lt(beta, q(2)))
                v, d = k.call('d_dpl', [P[n] for n in DPL], beta, J, der, k.out(1), k.out(3))
                f = dplformula(P, J, Jp if s else ZERO, beta, cut, rot, core)
                derivs(k, v[0], d if der else None, f, J, Jp, s, skip=rot and core)       # the combination is out of reach for the derivative by Jphi


@contract('C11', 'DoublePowerLaw with a core, or with a step in rotation: zero actions')
def dpl0(k):
    for core in (0, 1):
        P = dplpar(k, core=True, rot=True)
        if not core:
            P['Jcore'] = ZERO
            k.require(lt(P['slopeIn'], ZERO))
        for jp in (0, 1):
            Q = dict(P)
            if not jp:
                Q['Jphi0'] = ZERO
            beta = k.real('beta', ('range', 0, 1.9))
            k.require(le(ZERO, beta))
            v, d = k.call('d_dpl', [Q[n] for n in DPL], beta, [ZERO] * 3, 0, k.out(1), k.out(3))
            if core:
                k.ensure_eq('finite limit of the DF of a cored model', v[0], P['norm'] / (q(2) * PI * P['J0']) ** 3 * pw(P['J0'] / P['Jcore'], P['slopeIn']))
    P = dplpar(k, rot=True)
    P['Jphi0'] = ZERO
    J, Jp = actions3(k, 0)
    v, d = k.call('d_dpl', [P[n] for n in DPL], ZERO, J, 0, k.out(1), k.out(3))
    k.ensure_eq('no rotation at Jphi=0', v[0], math_prod(dplformula(P, J, ZERO, ZERO, 0, 0, 0)))
    for s in (1, -1):
        J, Jp = actions3(k, s)
        v, d = k.call('d_dpl', [P[n] for n in DPL], ZERO, J, 0, k.out(1), k.out(3))
        k.ensure_eq('step in rotation, sign %d' % s, v[0], math_prod(dplformula(P, J, Jp, ZERO, 0, 0, 0)) * (ONE + q(s) * P['rotFrac']))


def math_prod(fs):
    f = ONE
    for x in fs:
        f = f * x
    return f


def validity(cname, driver, names, valid, dists, **kw):
    @contract('C11', cname, may_throw=True, **kw)
    def body(k):
        P = {n: k.real(n, dists.get(n, 'real')) for n in names}
        ok = valid(P)
        k.onthrow = lambda k: k.ensure('only invalid parameters are rejected', not_(ok))
        k.call(driver, [P[n] for n in names])
        k.ensure('only valid parameters are accepted', ok)
    return body


pos_ = lambda x: lt(ZERO, x)
nn_ = lambda x: le(ZERO, x)


def dplvalid(P):
    return and_(*([pos_(P[n]) for n in 'norm J0 steepness cutoffStrength coefJrIn coefJzIn coefJrOut coefJzOut'.split()] +
                  [nn_(P['Jcutoff']), or_(lt(q(3), P['slopeOut']), not_(eq(P['Jcutoff'], ZERO))), lt(P['slopeIn'], q(3)),
                   lt(P['coefJrIn'] + P['coefJzIn'], q(3)), lt(P['coefJrOut'] + P['coefJzOut'], q(3)), le(P['rotFrac'], ONE), le(-ONE, P['rotFrac']), nn_(P['Jcore'])]))


@contract('C11', 'DoublePowerLaw: parameters are accepted if and only if they are valid', may_throw=True)
def dplctor(k):
    P = {n: k.real(n) for n in DPL}
    P['Jcore'] = ZERO if k.native else k.real('Jcore', hi=0, strict=False)      # beta is not sought without a core
    ok = dplvalid(P)
    k.onthrow = lambda k: k.ensure('only invalid parameters are rejected', not_(ok))
    k.call('d_dplctor', [P[n] for n in DPL])
    k.ensure('only valid parameters are accepted', ok)


EXP = 'norm Jr0 Jz0 Jphi0 addJden addJvel coefJr coefJz qJr qJz qJphi'.split()
QI = 'Sigma0 Rdisk Hdisk sigmar0 sigmaz0 sigmamin Rsigmar Rsigmaz coefJr coefJz qJr qJz qJphi Jmin'.split()
qok = lambda P: [and_(nn_(P[n]), lt(P[n], ONE)) for n in ('qJr', 'qJz', 'qJphi')]
QS = {n: ('range', -0.1, 1.1) for n in ('qJr', 'qJz', 'qJphi')}
validity('Exponential: parameters are accepted if and only if they are valid', 'd_expctor', EXP,
         lambda P: and_(*([pos_(P[n]) for n in EXP[:4]] + [nn_(P[n]) for n in EXP[4:8]] + qok(P))), QS)
NOFREQ = {'potential::Interpolator::Interpolator(potential::Interpolator const&)': lambda sx, av: None}


def qivalid(P):
    hz, sz = pos_(P['Hdisk']), and_(pos_(P['sigmaz0']), pos_(P['Rsigmaz']))
    return and_(*([pos_(P[n]) for n in ('Sigma0', 'Rdisk', 'sigmar0', 'Rsigmar')] + [nn_(P[n]) for n in ('Hdisk', 'sigmaz0', 'Rsigmaz', 'coefJr', 'coefJz')] +
                  [or_(and_(hz, not_(sz)), and_(not_(hz), sz))] + qok(P)))


validity('QuasiIsothermal: parameters are accepted if and only if they are valid', 'd_qictor', QI, qivalid, QS, maxpaths=3000)


@contract('C11', 'auxiliary function of the root finder for the core of DoublePowerLaw: difference of the mass integrands')
def deltaf(k):
    P = dplpar(k, core=True)
    beta = k.real('beta', ('range', 0, 1.9))
    k.require(lt(beta, q(2)))
    k.require(le(ZERO, beta))
    t = k.real('t', ('range', 0, 1))
    k.require(lt(ZERO, t))
    k.require(lt(t, ONE))
    hJ = P['Jcore'] * t ** 2 * (q(3) - q(2) * t) / ((ONE - t) ** 2 * (ONE + q(2) * t))
    a = [P[n] for n in DPL]
    eta, J0 = P['steepness'], P['J0']
    c = P['Jcore'] / hJ
    f = hJ ** 2 * k.D(hJ, t) * pw(ONE + pw(J0 / hJ, eta), P['slopeIn'] / eta) * pw(ONE + pw(hJ / J0, eta), -P['slopeOut'] / eta) * (pw(ONE + c * (c - beta), -HALF * P['slopeIn']) - ONE)
    k.ensure_eq('integrand over the scaled action', k.call('d_deltaf', a, t, beta), f)


# ---- disk distribution functions ---------------------------------------------------------------------------------------
def qexp(k, x, qq):
    """exp_q(-x, -q): exponential for q=0, otherwise (1+qx)^(-1/q)"""
    return fn('exp', -x) if qq is ZERO else pw(ONE + qq * x, -ONE / qq)


def qpar(k, name, on):
    if not on:
        return ZERO
    qq = k.real(name, ('range', 0.05, 0.95))
    k.require(lt(q(Fraction(1, 10**6)), qq))
    k.require(lt(qq, ONE))
    return qq


@contract('C11', 'q-exponential function: value for q beyond the threshold and for q=0')
def qexp1(k):
    x, qq = k.reals('x q')
    k.require(or_(lt(q(Fraction(1, 10**6)), qq), lt(qq, q(Fraction(-1, 10**6)))))
    k.require(lt(ZERO, ONE + qq * x))
    k.ensure_eq('(1+qx)^(1/q)', k.call('d_qexp', x, qq), pw(ONE + qq * x, ONE / qq))
    k.ensure_eq('exponential', k.call('d_qexp', x, ZERO), fn('exp', x))


@contract('C11', 'q-exponential function: expansion at small q', bounded='transcendental remainder')
def qexp2(k):
    x, qq = k.real('x', ('range', -20, 5)), k.real('q', ('range', -9e-8, 9e-8))
    k.require(not_(eq(qq, ZERO)))
    y = qq * x
    # log(1+y)/q = x (1 - y/2 + y^2/3 - ...)
    e = fn('exp', x * (ONE - y / 2 + y * y / 3 - y ** 3 / 4))
    r = k.call('d_qexp', x, qq)
    k.ensure_close('first order in q', r, e, tol=1e-9, sc=e * q(Fraction(1)))


def exppar(k, mask):
    P = {n: k.real(n, 'mod') for n in EXP[:8]}
    for i, n in enumerate(('qJr', 'qJz', 'qJphi')):
        P[n] = qpar(k, n, mask >> i & 1)
    for n in EXP[4:8]:
        k.require(nn_(P[n]))
    if mask & 8:
        P['addJden'] = P['addJvel'] = ZERO
    return P


def expformula(k, P, J, absJp, s):
    Js = absJp + P['coefJr'] * J[0] + P['coefJz'] * J[1]
    Jd, Jv = sqrt(Js ** 2 + P['addJden'] ** 2), sqrt(Js ** 2 + P['addJvel'] ** 2)
    neg = ZERO if s >= 0 else J[2]
    return [P['norm'] / (q(2) * PI) ** 3, Jd / P['Jphi0'] ** 2, qexp(k, Jd / P['Jphi0'], P['qJphi']),
            Jv / P['Jr0'] ** 2, qexp(k, Jv * (J[0] - neg) / P['Jr0'] ** 2, P['qJr']), Jv / P['Jz0'] ** 2, qexp(k, Jv * J[1] / P['Jz0'] ** 2, P['qJz'])]


for mask in (0, 1, 2, 4, 7, 8, 15):
    for s in (1, -1, 0):
        @contract('C11', 'Exponential DF, q-parameters %d%s, Jphi sign %d' % (mask & 7, ', no added actions' if mask & 8 else '', s), ring_s=60)
        def expo(k, mask=mask, s=s):
            P = exppar(k, mask)
            J, Jp = actions3(k, s)
            v, d = k.call('d_exp', [P[n] for n in EXP], J, 1, k.out(1), k.out(3))
            v1, _ = k.call('d_exp', [P[n] for n in EXP], J, 0, k.out(1), k.out(3))
            derivs(k, v[0], d if s else None, expformula(k, P, J, Jp if s else ZERO, s), J, Jp, s)
            k.ensure_eq('same value without derivatives', v1[0], v[0])


def wr(sx, p, t):
    if p.r is not None:
        sx.store(p, t, 8)


def c_rfromlz(sx, av):
    f, L, pd = av
    wr(sx, pd, uf('Rc', [L], (1,)))
    sx.assume(lt(ZERO, uf('Rc', [L])))
    return uf('Rc', [L])


def c_freqs(sx, av):
    f, R, pk, pn, po, pd = av
    for n, p in (('kappa', pk), ('nu', pn), ('Omega', po)):
        wr(sx, p, uf(n, [R]))
        sx.assume(lt(ZERO, uf(n, [R])))
    if pd.r is not None:
        for i, n in enumerate(('kappa', 'nu', 'Omega')):
            sx.store(Ptr(pd.r, add(pd.o, ic(8 * i))), uf(n, [R], (1,)), 8)
    return None


from agv.symex import Ptr
FREQS = {'potential::Interpolator::R_from_Lz(double, double*) const': c_rfromlz,
         'potential::Interpolator::epicycleFreqs(double, double&, double&, double&, double*) const': c_freqs}
posexp = lambda w: (lambda deriv, a: T.mpf(w) ** sum(deriv) * mpmath.exp(T.mpf(w) * a[0]))
import mpmath
# witnesses of the abstract functions in sampling: positive
FREQUF = {'Rc': lambda d, a: [a[0] ** T.mpf('0.75'), T.mpf('0.75') * a[0] ** T.mpf('-0.25'), T.mpf('-0.1875') * a[0] ** T.mpf('-1.25')][d[0]],
          'kappa': posexp('-0.3'), 'nu': posexp('-0.4'), 'Omega': posexp('-0.2')}


def qipar(k, mask):
    P = {n: k.real(n, 'mod') for n in QI[:10] + QI[13:]}
    for i, n in enumerate(('qJr', 'qJz', 'qJphi')):
        P[n] = qpar(k, n, mask >> i & 1)
    for n in ('sigmamin', 'coefJr', 'coefJz', 'Jmin'):
        k.require(nn_(P[n]))
    if mask & 8:
        P['sigmaz0'] = P['Rsigmaz'] = ZERO
    else:
        P['Hdisk'] = ZERO
    return P


for mask in (0, 1, 2, 4, 7, 8, 15):
    for s in (1, -1, 0):
        @contract('C11', 'QuasiIsothermal DF, q-parameters %d, %s, Jphi sign %d' % (mask & 7, 'scale height' if mask & 8 else 'vertical dispersion', s),
                  callees=FREQS, uf=FREQUF, ring_s=60)
        def qi(k, mask=mask, s=s):
            P = qipar(k, mask)
            J, Jp = actions3(k, s)
            v, d = k.call('d_qi', 1 if k.native else 0, [P[n] for n in QI], J, 1, k.out(1), k.out(3))
            v1, _ = k.call('d_qi', 1 if k.native else 0, [P[n] for n in QI], J, 0, k.out(1), k.out(3))
            Js = (Jp if s else ZERO) + P['coefJr'] * J[0] + P['coefJz'] * J[1]
            Jh = sqrt(Js ** 2 + P['Jmin'] ** 2)
            names = ['Rc', 'kappa', 'nu', 'Omega']
            if k.native:
                o = k.call('d_freqs', Jh, k.out(8))
                val = dict(Rc=o[0], kappa=o[2], nu=o[3], Omega=o[4])
                dR = dict(kappa=o[5], nu=o[6], Omega=o[7])
                dRc = o[1]
            else:
                Rc = uf('Rc', [Jh])
                val = dict(Rc=Rc, **{n: uf(n, [Rc]) for n in names[1:]})
                dR = {n: uf(n, [Rc], (1,)) for n in names[1:]}
                dRc = uf('Rc', [Jh], (1,))
            # the formula, with names for the radius and the frequencies
            X = {n: var('%' + n) for n in names}
            sr2 = (P['sigmar0'] * fn('exp', -X['Rc'] / P['Rsigmar'])) ** 2 + P['sigmamin'] ** 2
            sz2 = (q(2) * (X['nu'] * P['Hdisk']) ** 2 if mask & 8 else (P['sigmaz0'] * fn('exp', -X['Rc'] / P['Rsigmaz'])) ** 2) + P['sigmamin'] ** 2
            neg = q(2) * X['Omega'] * J[2] if s < 0 else ZERO
            fs = [P['Sigma0'] / (q(2) * PI ** 2) * (ONE - P['qJr']) * (ONE - P['qJz']) * (ONE - P['qJphi']), X['Omega'] / X['kappa'],
                  qexp(k, X['Rc'] / P['Rdisk'], P['qJphi']), ONE / sr2, qexp(k, (X['kappa'] * J[0] - neg) / sr2, P['qJr']),
                  X['nu'] / sz2, qexp(k, X['nu'] * J[1] / sz2, P['qJz'])]
            m = {X[n]: val[n] for n in names}
            f = subst(math_prod(fs), m)
            k.ensure_eq('value', v[0], f)
            k.ensure_eq('same value without derivatives', v1[0], v[0])
            if mask & 7 != 7:       # beyond the reach of the solver for the product of three powers; each of them is proved
                k.ensure('non-negative', le(ZERO, v[0]))
            if not s:
                return
            dln = lambda x: sum((k.D(y, x) / y for y in fs), ZERO)
            chain = subst(dln(X['Rc']) + sum((dln(X[n]) * var('%d' + n) for n in names[1:]), ZERO), {**m, **{var('%d' + n): dR[n] for n in names[1:]}}) * dRc
            for i, (x, n) in enumerate(((J[0], 'Jr'), (J[1], 'Jz'), (Jp, 'Jphi'))):
                r = v[0] * (subst(dln(x), m) + chain * k.D(Jh, x))
                k.ensure_eq('derivative by ' + n, d[i], -r if n == 'Jphi' and s < 0 else r)


# ---- composite DF, vectorised evaluation --------------------------------------------------------------------------------
F = lambda i, J, *d: uf('F%d_3' % i, J, d or (0, 0, 0))
E3 = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
for nc, npt in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
    for sep in range(4):
        @contract('C11', 'CompositeDF of %d components at %d points, %s%s' % (nc, npt, 'separate' if sep & 1 else 'summed', ', derivatives' if sep & 2 else ''))
        def comp(k, nc=nc, npt=npt, sep=sep):
            J = [k.reals('Jr%d Jz%d Jphi%d' % (p, p, p)) for p in range(npt)]
            n = nc * npt if sep & 1 else npt
            v, d = k.call('d_comp', nc, npt, sep, sum(J, []), k.out(n), k.out(3 * n))
            for p in range(npt):
                for c in range(nc if sep & 1 else 1):
                    src = [c + 1] if sep & 1 else range(1, nc + 1)
                    i = p * nc + c if sep & 1 else p
                    k.ensure_eq('value %d,%d' % (p, c), v[i], sum((F(a, J[p]) for a in src), ZERO))
                    for j in range(3 if sep & 2 else 0):
                        k.ensure_eq('derivative %d,%d,%d' % (p, c, j), d[3 * i + j], sum((F(a, J[p], *E3[j]) for a in src), ZERO))


for nc in (1, 2, 3):
    for der in (0, 1):
        @contract('C11', 'CompositeDF::evalDeriv with %d components%s' % (nc, ', derivatives' if der else ''))
        def comp1(k, nc=nc, der=der):
            J = k.reals('Jr Jz Jphi')
            v, d = k.call('d_comp1', nc, J, der, k.out(3), k.out(3))
            f = sum((F(a, J) for a in range(1, nc + 1)), ZERO)
            k.ensure_eq('sum of components', v[0], f)
            k.ensure_eq('value()', v[2], f)
            k.ensure_eq('number of components', v[1], q(nc))
            for j in range(3 if der else 0):
                k.ensure_eq('derivative %d' % j, d[j], sum((F(a, J, *E3[j]) for a in range(1, nc + 1)), ZERO))

for npt in (1, 2, 3):
    for der in (0, 1):
        @contract('C11', 'evalmany of a single DF at %d points%s' % (npt, ', derivatives' if der else ''))
        def many(k, npt=npt, der=der):
            J = [k.reals('Jr%d Jz%d Jphi%d' % (p, p, p)) for p in range(npt)]
            v, d = k.call('d_many', npt, der, sum(J, []), k.out(npt), k.out(3 * npt))
            for p in range(npt):
                k.ensure_eq('value %d' % p, v[p], F(1, J[p]))
                for j in range(3 if der else 0):
                    k.ensure_eq('derivative %d,%d' % (p, j), d[3 * p + j], F(1, J[p], *E3[j]))


# ---- scaling of the action space ------------------------------------------------------------------------------------------
def c_cub(sx, av):
    """scale(ScalingCub): assumed to return the solution of u = s^2(3-2s) on [0,1] (contract of C15)"""
    u = nz(sx.coerce(av[1], ir.DOUBLE)) if not isinstance(av[1], Term) else av[1]
    s = uf('cub', [u])
    sx.assume(le(ZERO, s))
    sx.assume(le(s, ONE))
    sx.assume(eq(s * s * (q(3) - q(2) * s), u))
    return s


from agv import ir
from agv.symex import nz


def cubinv(deriv, a):
    if sum(deriv):
        raise ValueError
    lo, hi = T.mpf(0), T.mpf(1)
    for _ in range(200):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if m * m * (3 - 2 * m) < a[0] else (lo, m)
    return (lo + hi) / 2


CUB = {'double math::scale<math::ScalingCub>(math::ScalingCub const&, double)': c_cub}


def det(k, f, x):
    m = [[k.D(a, b) for b in x] for a in f]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def unit(k, lo='0.03', hi='0.97'):
    u = [k.real(n, ('range', float(lo), float(hi))) for n in 'uvw']
    for x in u:
        k.require(lt(ZERO, x))
        k.require(lt(x, ONE))
    return u


@contract('C11', 'TriangLog scaling: actions for given scaled variables, Jacobian', may_throw=True)
def tl1(k):
    u = unit(k)
    k.require(lt(q(Fraction(21, 1000)), u[0]))
    k.require(lt(u[0], q(Fraction(979, 1000))))
    J = k.call('d_toact', 0, u, ONE, ONE, k.out(4))
    k.onthrow = lambda k: k.ensure('variables in the unit cube are accepted', FALSE)
    Js = fn('exp', ONE / (ONE - u[0]) - ONE / u[0])
    a = PI * u[1] ** 2 * (q(3) - q(2) * u[1])
    f = [Js * fn('sin', a) * u[2], Js * fn('sin', a) * (ONE - u[2]), Js * fn('cos', a)]
    for i in range(3):
        k.ensure_eq('action %d' % i, J[i], f[i])
    k.ensure_eq('Jacobian', J[3], det(k, f, u) * q(-1))     # orientation: the determinant is negative


@contract('C11', 'TriangLog scaling: close to the ends of the range', may_throw=True)
def tl2(k):
    for lo, hi, v in ((0, 0.0199, ZERO), (0.9801, 1, T.INF)):
        u = [k.real('u', ('range', lo, hi)), k.real('v', ('range', 0, 1)), k.real('w', ('range', 0, 1))]
        for x, a, b in zip(u, (lo, 0, 0), (hi, 1, 1)):
            x = lift(x)
        k.require(and_(le(q(Fraction(lo)), u[0]), le(u[0], q(Fraction(hi))), nn_(u[1]), nn_(u[2]), le(u[1], ONE), le(u[2], ONE)))
        break
    J = k.call('d_toact', 0, u, ONE, ONE, k.out(4))
    for i in range(4):
        k.ensure_eq('zero %d' % i, J[i], ZERO)


for kind in (0, 1):
    @contract('C11', '%s scaling: scaled variables are those of the given actions' % ('Rect' if kind else 'TriangLog'), callees=CUB, uf={'cub': cubinv}, may_throw=True)
    def sc1(k, kind=kind):
        Jr, Jz, Jp = k.real('Jr', 'mod'), k.real('Jz', 'mod'), k.real('Jphi')
        k.onthrow = lambda k: k.ensure('non-negative actions are accepted', FALSE)
        sm, sp = k.real('scaleJm', 'mod'), k.real('scaleJphi', 'mod')
        u = k.call('d_toscaled', kind, [Jr, Jz, Jp], sm, sp, k.out(3))
        Jm = Jr + Jz
        if kind:
            k.ensure_eq('azimuthal action', sp * (ONE / (ONE - u[0]) - ONE / u[0]), Jp)
            k.ensure_eq('sum of radial and vertical actions', sm * u[1] / (ONE - u[1]), Jm)
        else:
            L = HALF * fn('log', Jm ** 2 + Jp ** 2)
            k.ensure_eq('magnitude', ONE / (ONE - u[0]) - ONE / u[0], L)
            if k.native:
                k.ensure_eq('polar angle', PI * u[1] ** 2 * (q(3) - q(2) * u[1]), fn('atan2', Jm, Jp))
            else:       # u[1] solves u^2(3-2u) = angle/pi (contract of scale(ScalingCub))
                k.ensure_eq('polar angle', u[1], uf('cub', [fn('atan2', Jm, Jp) / PI]))
        k.ensure_eq('radial action', Jm * u[2], Jr)
        k.ensure('in the unit cube', and_(nn_(u[2]), le(u[2], ONE)))
        k.ensure('first variable in the unit interval', and_(lt(ZERO, u[0]), lt(u[0], ONE)))


@contract('C11', 'Rect scaling: actions for given scaled variables, Jacobian', may_throw=True)
def rc1(k):
    u = unit(k)
    sm, sp = k.real('scaleJm', 'mod'), k.real('scaleJphi', 'mod')
    k.onthrow = lambda k: k.ensure('variables in the unit cube are accepted', FALSE)
    J = k.call('d_toact', 1, u, sm, sp, k.out(4))
    Jm = sm * u[1] / (ONE - u[1])
    f = [Jm * u[2], Jm * (ONE - u[2]), sp * (ONE / (ONE - u[0]) - ONE / u[0])]
    for i in range(3):
        k.ensure_eq('action %d' % i, J[i], f[i])
    jac = det(k, f, u)
    big = and_(lt(jac, q(10) ** 99), lt(q(10) ** -99, jac))
    k.require(big)
    k.ensure_eq('Jacobian', J[3], jac)


@contract('C11', 'scaling of actions: arguments outside the range are rejected', may_throw=True)
def scthrow(k):
    u = [k.real(n, ('range', -0.2, 1.2)) for n in 'uvw']
    ok = and_(*[and_(nn_(x), le(x, ONE)) for x in u])
    k.onthrow = lambda k: k.ensure('rejected outside the unit cube only', not_(ok))
    k.call('d_toact', 0, u, ONE, ONE, k.out(4))
    k.ensure('accepted inside the unit cube only', ok)


@contract('C11', 'scaling of actions: negative actions are rejected', may_throw=True, callees=CUB, uf={'cub': cubinv})
def scthrow2(k):
    for kind in (0, 1):
        J = k.reals('Jr Jz Jphi')
        k.require(not_(eq(J[2], ZERO)))
        ok = and_(nn_(J[0]), nn_(J[1]))
        k.onthrow = lambda k: k.ensure('rejected for negative actions only', not_(ok))
        k.call('d_toscaled', kind, J, ONE, ONE, k.out(3))
        k.ensure('accepted for non-negative actions only', ok)


for log in (0, 1):
    @contract('C11', 'integrand of the total %s' % ('entropy' if log else 'mass'), may_throw=True)
    def integrand(k, log=log):
        u = unit(k)
        o = k.call('d_integrand', log, u, k.out(1))
        J = k.call('d_toact', 0, u, ONE, ONE, k.out(4))
        f = F(1, J[:3])
        inside = and_(lt(q(Fraction(2, 100)), u[0]), lt(u[0], q(Fraction(98, 100))))
        if k.native:
            k.require(inside)
            k.require(lt(ZERO, f))
            k.ensure_eq('DF times the Jacobian', o[0], f * (-fn('log', f) if log else ONE) * J[3] * (q(2) * PI) ** 3)
            return
        if k.decide(and_(le(q(Fraction(2, 100)), u[0]), le(u[0], q(Fraction(98, 100))))):
            g = -f * fn('log', f) if log and k.decide(lt(ZERO, f)) else f
            k.ensure_eq('DF times the Jacobian', o[0], g * J[3] * (q(2) * PI) ** 3)
        else:
            k.ensure_eq('cutoff', o[0], ZERO)


# ---- spherical DF ------------------------------------------------------------------------------------------------------------
def c_finderE(sx, av):
    f, pa = av
    Jr, Jz, Jp = [nz(sx.coerce(sx._load(pa.r, add(pa.o, ic(8 * i)), 8, ir.DOUBLE), ir.DOUBLE)) for i in range(3)]
    return uf('E', [Jr, add(Jz, fn('abs', Jp))])


def c_finderJr(sx, av):
    """frequencies for the energy E(Jr,L): derivatives of the energy by actions"""
    f, E, L, pr, pz = av
    if not (isinstance(E, Term) and E.op == 'uf' and E.args[0] == 'E'):
        raise Unsupported('frequencies for an energy that does not come from the action finder')
    a = kids(E)
    if sx.decide(not_(eq(L, a[1]))):
        sx.oblige('angular momentum passed to the action finder is that of the orbit', FALSE)
    wr(sx, pr, uf('E', a, (1, 0)))
    wr(sx, pz, uf('E', a, (0, 1)))
    return a[0]


def c_fnc(name, first):
    def f(sx, av):
        x = av[1]
        for i, p in enumerate(av[2:]):
            wr(sx, p, uf(name, [x], (i,)))
        return None
    return f


from agv.symex import Unsupported
SPH = {'actions::ActionFinderSpherical::ActionFinderSpherical(potential::BasePotential const&)': lambda sx, av: None,
       'actions::ActionFinderSpherical::E(actions::Actions const&) const': c_finderE,
       'actions::ActionFinderSpherical::Jr(double, double, double*, double*) const': c_finderJr,
       'potential::PhaseVolume::evalDeriv(double, double*, double*, double*) const': c_fnc('h', 1),
       'math::LogLogSpline::evalDeriv(double, double*, double*, double*) const': c_fnc('f1', 1)}


def sphargs(k, s):
    J, Jp = actions3(k, s)
    L = J[1] + (Jp if s else ZERO)
    return J, Jp, L


for s in (1, -1, 0):
    for der in (0, 1):
        @contract('C11', 'DF expressed through E, L, Lz as a function of actions%s, Jphi sign %d' % (', derivatives' if der else '', s), callees=SPH)
        def qs(k, s=s, der=der):
            J, Jp, L = sphargs(k, s)
            v, d = k.call('d_qs', 1 if k.native else 0, J, der, k.out(1), k.out(3))
            E, w = var('%E'), var('%w')
            f = uf('F1_3', [E, L, J[2]])
            if k.native:
                e, Or, Oz = k.call('d_finder', 0, J[0], L, k.out(3))
            else:
                e = uf('E', [J[0], L])
                Or, Oz = uf('E', [J[0], L], (1, 0)), uf('E', [J[0], L], (0, 1))
            m = {E: e}
            k.ensure_eq('value', v[0], subst(f, m))
            if not der:
                return
            D_ = lambda x: subst(k.D(f, x), m)
            k.ensure_eq('derivative by Jr', d[0], D_(E) * Or)
            k.ensure_eq('derivative by Jz', d[1], D_(E) * Oz + D_(J[1]))
            if s:
                r = D_(E) * Oz + D_(Jp)
                k.ensure_eq('derivative by Jphi', d[2], r if s > 0 else -r)

        @contract('C11', 'isotropic DF of the phase volume as a function of actions%s, Jphi sign %d' % (', derivatives' if der else '', s), callees=SPH)
        def qsi(k, s=s, der=der):
            J, Jp, L = sphargs(k, s)
            v, d = k.call('d_qsi', 1 if k.native else 0, J, der, k.out(1), k.out(3))
            if k.native:
                e, Or, Oz = k.call('d_finder', 1, J[0], L, k.out(3))
                h, dh = k.call('d_pv', e, k.out(2))
                f, df = k.call('d_fnc1', h, k.out(2))
            else:
                e = uf('E', [J[0], L])
                Or, Oz = uf('E', [J[0], L], (1, 0)), uf('E', [J[0], L], (0, 1))
                h, dh = uf('h', [e]), uf('h', [e], (1,))
                f, df = uf('f1', [h]), uf('f1', [h], (1,))
            k.ensure_eq('value', v[0], f)
            if not der:
                return
            k.ensure_eq('derivative by Jr', d[0], df * dh * Or)
            k.ensure_eq('derivative by Jz', d[1], df * dh * Oz)
            if s:
                k.ensure_eq('derivative by Jphi', d[2], df * dh * Oz * q(s))


for beta in (0, 1):
    for ani in (0, 1):
        for s in (-1, 1):
            @contract('C11', 'Cuddeford-Osipkov-Merritt DF as a function of E, L: beta %s, %s, Q %s' % ('nonzero' if beta else '0', 'anisotropic' if ani else 'infinite anisotropy radius', '<0' if s < 0 else '>=0'), callees=SPH)
            def com(k, beta=beta, ani=ani, s=s):
                b = k.real('beta', ('range', -0.5, 0.99)) if beta else ZERO
                if beta:
                    k.require(not_(eq(b, ZERO)))
                ra = k.real('ra', 'mod') if ani else T.INF
                iPhi0 = k.real('invPhi0', hi=0, strict=False)
                E, L, Lz = k.real('E'), k.real('L', 'mod'), k.real('Lz')
                k.require(le(fn('abs', Lz), L))
                Q = E + HALF * (L / ra) ** 2 if ani else E
                P = iPhi0 - ONE / Q
                k.require(lt(Q, ZERO) if s < 0 else lt(ZERO, Q))
                if s < 0:
                    k.require(lt(ZERO, P))
                v, d = k.call('d_com', 1 if k.native else 0, [iPhi0, b, ra], [E, L, Lz], 1, k.out(1), k.out(3))
                v1, _ = k.call('d_com', 1 if k.native else 0, [iPhi0, b, ra], [E, L, Lz], 0, k.out(1), k.out(3))
                if s > 0:
                    for n, x in (('value', v[0]), ('value without derivatives', v1[0]), ('derivative by E', d[0]), ('derivative by L', d[1]), ('derivative by Lz', d[2])):
                        k.ensure_eq(n, x, ZERO)
                    return
                f, df = k.call('d_fnc1', P, k.out(2)) if k.native else (uf('f1', [P]), uf('f1', [P], (1,)))
                Lb = pw(L, q(-2) * b) if beta else ONE
                k.ensure_eq('value', v[0], f * Lb)
                k.ensure_eq('same value without derivatives', v1[0], v[0])
                k.ensure_eq('derivative by E', d[0], df * k.D(P, E) * Lb)
                k.ensure_eq('derivative by L', d[1], df * k.D(P, L) * Lb + (f * k.D(Lb, L) if beta else ZERO))
                k.ensure_eq('derivative by Lz', d[2], ZERO)


for mode in ('isotropic', 'beta', 'ra', 'both'):
    @contract('C11', 'augmented density and its derivatives by potential: ' + mode)
    def aug(k, mode=mode):
        b = k.real('beta', ('range', -0.5, 0.99)) if mode in ('beta', 'both') else ZERO
        ra = k.real('ra', 'mod') if mode in ('ra', 'both') else T.INF
        if b is not ZERO:
            k.require(not_(eq(b, ZERO)))
        r = k.real('r', 'mod')
        o = k.call('d_aug', 0, b, ra, r, [ZERO] * 6, k.out(6))
        P, rho = uf('F2_1', [r]), uf('F1_1', [r])
        k.require(not_(eq(k.D(P, r), ZERO)))
        if b is not ZERO:
            rho = rho * pw(r, q(2) * b)
        if ra is not T.INF:
            rho = rho * pw(ONE + (r / ra) ** 2, ONE - b)
        k.ensure_eq('potential', o[0], P)
        k.ensure_eq('first derivative of potential', o[1], k.D(P, r))
        k.ensure_eq('second derivative of potential', o[2], k.D(k.D(P, r), r))
        k.ensure_eq('augmented density', o[3], rho)
        g = k.D(rho, r) / k.D(P, r)
        k.ensure_eq('first derivative of the augmented density by potential', o[4], g)
        k.ensure_eq('second derivative of the augmented density by potential', o[5], k.D(g, r) / k.D(P, r))

    @contract('C11', 'augmented density: auxiliary function of log radius for the grid, ' + mode, ring_s=60)
    def auglog(k, mode=mode):
        b = k.real('beta', ('range', -0.5, 0.99)) if mode in ('beta', 'both') else ZERO
        ra = k.real('ra', 'mod') if mode in ('ra', 'both') else T.INF
        lr = k.real('logr', ('range', -1.5, 1.5))
        x = var('%r')
        P, rho = uf('F2_1', [x]), uf('F1_1', [x])
        if b is not ZERO:
            rho = rho * pw(x, q(2) * b)
        if ra is not T.INF:
            rho = rho * pw(ONE + (x / ra) ** 2, ONE - b)
        r = fn('exp', lr)
        at = lambda t: subst(t, {x: r})
        P0 = uf('F2_1', [ZERO])
        f = fn('log', P ** 2 / P0 - P) + fn('log', rho)
        k.require(not_(eq(at(k.D(P, x)), ZERO)))
        k.require(lt(at(P), ZERO))
        k.require(lt(P0, at(P)))
        k.require(lt(P0 * (ONE - q(Fraction(1, 10**9))), at(P)))
        k.require(lt(ZERO, at(uf('F1_1', [x]))))
        g = k.D(f, x) * x
        for mask in (7, 1, 2, 4):
            o = k.call('d_auglog', b, ra, lr, mask, k.out(3))
            if mask & 1:
                k.ensure_eq('value (requested %d)' % mask, o[0], at(f))
            if mask & 2:
                k.ensure_eq('first derivative by log radius (requested %d)' % mask, o[1], at(g))
            if mask & 4:
                k.ensure_eq('second derivative by log radius (requested %d)' % mask, o[2], at(k.D(g, x) * x))


@contract('C11', 'augmented density: series in the difference of potential below the innermost radius')
def augser(k):
    r, rmin, P0 = k.real('r', 'mod'), k.real('rmin', 'mod'), k.real('Phi0')
    c = k.reals('c0 c1 c2 c3')
    k.require(lt(r, rmin))
    o = k.call('d_aug', 1, ZERO, T.INF, r, [rmin] + c + [P0], k.out(6))
    x = var('%P')
    f = c[0] + c[1] * (x - P0) + c[2] * (x - P0) ** 2 + c[3] * (x - P0) ** 3
    P = uf('F2_1', [r])
    at = lambda t: subst(t, {x: P})
    k.ensure_eq('density', o[3], at(f))
    k.ensure_eq('first derivative', o[4], at(k.D(f, x)))
    k.ensure_eq('second derivative', o[5], at(k.D(k.D(f, x), x)))
    k.ensure_eq('potential', o[0], P)


@contract('C11', 'augmented density: finite differences are exact for polynomials of 4th degree')
def augfd(k):
    r = k.real('r', 'mod')
    c = [k.real('c%d' % i, 'mod') for i in range(5)]
    o = k.call('d_augfd', ZERO, T.INF, r, c, k.out(6))
    P = uf('F2_1', [r])
    k.require(not_(eq(k.D(P, r), ZERO)))
    f = c[0] + c[1] * r + c[2] * r ** 2 + c[3] * r ** 3 + c[4] * r ** 4
    k.ensure_eq('density', o[3], f)
    g = k.D(f, r) / k.D(P, r)
    k.ensure_close('first derivative', o[4], g, tol=1e-9)
    k.ensure_close('second derivative', o[5], k.D(g, r) / k.D(P, r), tol=1e-9)


@contract('C11', 'DF constructed by the inversion formula reproduces the analytic one', bounded='numerical quadrature and interpolation', samples=24, fb_samples=24, tol=1e-3, fb_tol=1e-3)
def edd(k):
    for which in (0, 1):
        for nm, b, aniso in (('isotropic', 0, 0), ('beta=1/2', 0.5, 0), ('beta=-1/2', -0.5, 0), ('beta', None, 0), ('Osipkov-Merritt', 0, 1), ('beta and Osipkov-Merritt', None, 1)):
            bt = k.real('beta', ('range', -0.45, 0.9)) if b is None else q(Fraction(b))
            ra = k.real('ra', 'mod') if aniso else T.INF
            n, x, L = k.real('n', ('range', 3, 6)), k.real('x', ('range', 0.05, 0.9)), k.real('L', ('range', 0.01, 0.3))
            E = -x * q(Fraction(1, 1 + which))
            Q = E + (HALF * (L / ra) ** 2 if aniso else ZERO)
            k.require(lt(Q, q(Fraction(-2, 100))))
            v = k.call('d_edd', which, bt, ra, n, [E, L], k.out(1))
            C = pw(q(2), bt - q(Fraction(3, 2))) * fn('gamma', n + ONE) / (pw(PI, q(Fraction(3, 2))) * fn('gamma', ONE - bt) * fn('gamma', n - HALF + bt))
            f = pw(L, q(-2) * bt) * C * pw(-Q, n - q(Fraction(3, 2)) + bt)
            k.ensure_eq('%s, potential %d' % (nm, which), v[0] / f, ONE)
