"""python3-vt -m agv.run <property id> : decide one property of /repo's current tree."""
import os, sys, time, json, importlib, glob, tempfile, shutil, signal, traceback, multiprocessing as mp_, queue
import numpy as np
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from agv import build, engine, symex, terms as T, smt
from agv.terms import *
from agv.engine import Explorer, K, discharge, REGISTRY
from agv.native import Native, NativeError
from agv.callees import CALLEES


def evaluate(ex, t, i, env=None):
    return T.evalf(t, env or engine.mpenv(ex, i), 40, ex.samples.ufm)


def native_args(ex, rec, i, env):
    d, I = [], []
    outs = []
    for a, v in zip(rec['args'], rec['av']):
        if isinstance(a, engine.Out):
            I.append(('arr', [0.0] * a.n))
        elif isinstance(a, (list, tuple)):
            I.append(('arr', [float(evaluate(ex, lift(x), i, env)) for x in a]))
        elif isinstance(a, engine.ArrArg):
            I.append(('arr', list(map(float, ex.samples.arrs[a.name][i]))) if a.sort == 'R' else
                     ('iarr', list(map(int, ex.samples.arrs[a.name][i]))))
        elif v.sort == 'R':
            d.append(float(evaluate(ex, v, i, env)))
        else:
            I.append(int(evaluate(ex, v, i, env)))
    return d, I


def conform(ex, native, path, i, rtol=1e-6):
    """run the real code natively at sample i and compare with the values of the output terms.
    returns (ok, detail)"""
    env = engine.mpenv(ex, i)
    det = []
    ok = True
    for rec in path.k.calls:
        d, I = native_args(ex, rec, i, env)
        st, ret, arrs = native.call(rec['f'], d, I)
        info = {'call': rec['f'], 'doubles': d, 'ints': [a if not isinstance(a, tuple) else list(a[1]) for a in I], 'status': st}
        det.append(info)
        if 'outs' not in rec:
            # this call did not return on the symbolic path (throws)
            info['expected'] = 'throws'
            ok = ok and st == 1
            continue
        if st != 0:
            ok = False
            continue
        k = 0
        ai = -1
        nat, sym = [], []
        for a in rec['args']:
            if isinstance(a, (engine.Out, list, tuple, engine.ArrArg)):
                ai += 1
            if isinstance(a, engine.Out):
                for j, t in enumerate(rec['outs'][k]):
                    if t is None:
                        continue
                    try:
                        sv = float(evaluate(ex, t, i, env))
                    except (EvalError, OverflowError, TypeError):
                        continue
                    sym.append(sv)
                    nat.append(arrs[ai][j])
                k += 1
        if rec['ret'] is not None and rec['ret'].sort == 'R':
            try:
                sym.append(float(evaluate(ex, rec['ret'], i, env)))
                nat.append(ret[0])
            except (EvalError, OverflowError, TypeError):
                pass
        info['native'] = nat
        info['symbolic'] = sym
        sc = max([abs(x) for x in sym if np.isfinite(x)] + [0.0])
        for x, y in zip(nat, sym):
            if x == y or (x != x and y != y):
                continue
            if not np.isfinite(x) and not np.isfinite(y):
                continue
            if not abs(x - y) <= rtol * abs(y) + 1e-12 * min(sc, 1e3):
                ok = False
    return ok, det


def run_contract(con, prog, so, seed, tier, outq=None):
    t0 = time.time()
    budget = con.o('budget', 150) * (3 if tier == 'thorough' else 1)
    res = {'contract': con.name, 'property': con.prop, 'status': 'ok', 'goals': [], 'paths': 0, 'mode': 'deductive', 'note': con.o('note', '')}
    ufm = T.UFModel(seed)
    ufm.fixed.update(con.o('uf', {}))
    native = Native(so, ufm)
    ex = None
    try:
        if con.o('bounded'):
            raise symex.Unsupported('declared bounded: ' + con.o('bounded'))
        if os.environ.get('AGV_FORCE_BOUNDED'):
            raise symex.Unsupported('forced')
        ex = Explorer(prog, con, native, seed, budget * 0.6, dict(CALLEES, **con.o('callees', {})), ufm,
                      N=con.o('samples', 300) * (4 if tier == 'thorough' else 1))
        paths = ex.run()
        res['paths'] = len(paths)
        deadline = t0 + budget
        unwit = 0
        conf_ok = conf_bad = 0
        rngi = np.random.default_rng(seed)
        ngoals = 0
        for p in paths:
            m = np.ones(ex.samples.n, bool)
            for l in p.pc:
                try:
                    m = m & ex.samples.val(l).astype(bool)
                except EvalError:
                    pass
            idx = [int(x) for x in np.nonzero(m)[0]]
            p.witness = len(idx)
            if not idx:
                unwit += 1
            if p.outcome == 'throws' and not con.o('may_throw', True) and p.k.onthrow is None:
                p.goals.append(('does not throw', 'post', FALSE, p.pc))
            tol = con.o('tol', 1e-9)
            # conformance of the logical reading with the machine code
            if con.o('conform', True):
                sel = idx if len(idx) <= 4 else [idx[int(x)] for x in rngi.choice(len(idx), 4, replace=False)]
                for i in sel:
                    try:
                        ok, det = conform(ex, native, p, i)
                    except (NativeError, EvalError, OverflowError):
                        continue
                    if ok:
                        conf_ok += 1
                    else:
                        conf_bad += 1
                        if conf_bad <= 3:
                            res.setdefault('nonconforming', []).append(det)
            rs = discharge(ex, p, p.goals, tol, deadline)
            for r in rs:
                ngoals += 1
                g = {'name': r.name, 'status': r.status, 'backend': r.backend, 'why': r.why[:300], 'time': round(r.time, 3), 'witness': p.witness}
                if r.status == 'refuted':
                    confirm(ex, native, p, r, g, tol)
                if r.status != 'proved':
                    g['pc'] = [show(c, 300) for c in p.pc][:20]
                res['goals'].append(g)
        res['unwitnessed_paths'] = unwit
        res['conform_ok'] = conf_ok
        res['conform_bad'] = conf_bad
        open_ = [g for g in res['goals'] if g['status'] == 'refuted' and not g.get('confirmed')]
        if open_ and not con.o('bounded'):
            # look for a failing input among native runs of the contract; the machine code run on the inputs of the refutation
            # says nothing if it does not do the same computation (callees replaced by their contracts, objects filled by hand)
            tmp = {'goals': []}
            fallback(con, prog, native, seed, tier, ufm, tmp)
            bad = {g['name']: g for g in tmp['goals'] if g.get('confirmed')}
            for g in open_:
                f = bad.get(g['name'])
                if f:
                    g.update(confirmed=True, why=f['why'], replay=f['replay'])
                elif conf_ok <= 0.2 * conf_bad or conf_ok + conf_bad == 0:
                    g['incomparable'] = True
        res['throw_paths'] = sum(p.outcome == 'throws' for p in paths)
        res['samples'] = ex.samples.n
        if ngoals == 0:
            res['status'] = 'vacuous'
    except symex.Unsupported as e:
        res['mode'] = 'bounded'
        res['unsupported'] = str(e)[:400]
        fallback(con, prog, native, seed, tier, ufm, res)
    except Exception as e:
        if os.environ.get('AGV_DEBUG'):
            traceback.print_exc()
        res['mode'] = 'bounded'
        res['unsupported'] = 'internal: %s: %s' % (type(e).__name__, str(e)[:300])
        res['trace'] = traceback.format_exc()[-800:]
        fallback(con, prog, native, seed, tier, ufm, res)
    if ex is not None:
        res['t_smt'] = round(ex.t_smt, 2)
        res['t_ring'] = round(ex.t_ring, 2)
        res['n_smt'] = ex.n_smt
        res['functions'] = sorted(prog.demname(f) for f in ex.funcs)
        res['assumed'] = sorted(ex.assumed)
    native.stop()
    res['wall'] = round(time.time() - t0, 2)
    return res


def confirm(ex, native, p, r, g, tol):
    """replay a refuted obligation against the machine code"""
    kind, goal = r.goal
    cands = [r.sample]
    m = np.ones(ex.samples.n, bool)
    pc = p.pc
    for l in pc:
        try:
            m = m & ex.samples.val(l).astype(bool)
        except EvalError:
            pass
    cands += [int(x) for x in np.nonzero(m)[0][:40] if int(x) != r.sample]
    best = None
    for i in cands:
        try:
            if i != r.sample:
                b = engine.refute(ex, kind, goal, p.pc, max(tol, 1e-7), only=i)
                if b is None or b[1] != 'refuted':
                    continue
                why = b[2]
            else:
                why = r.why
            ok, det = conform(ex, native, p, i)
        except (NativeError, EvalError, OverflowError, ValueError):
            continue
        rec = {'sample': {v.args[0]: (float(a[i])) for v, a in ex.samples.env.items()},
               'arrays': {k: [float(x) for x in a[i]] for k, a in ex.samples.arrs.items()},
               'native_runs': det, 'why': why, 'agrees_with_machine_code': ok}
        if best is None:
            best = rec
        if ok:
            best = rec
            g['confirmed'] = True
            break
    g['replay'] = best
    g.setdefault('confirmed', False)


def natderivs(t):
    best = 0
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'uf' and u.args[0].startswith('nat'):
            best = max(best, sum(u.args[1]))
        st.extend(T.kids(u))
    return best


def fallback(con, prog, native, seed, tier, ufm, res):
    """bounded stand-in: evaluate the same contract on native runs at sampled inputs
    (derivatives by finite differences)"""
    try:
        ex = Explorer(prog, con, native, seed, 100, {}, ufm, N=con.o('fb_samples', 160) * (5 if tier == 'thorough' else 1))
        ex.natcalls = {}
        ex.natret = {}
        ex.natint = set()
        for m in prog.mods:
            for f in m.funcs:
                if not f.startswith('@_'):
                    ex.natret[f[1:]] = prog.find(m, f).ret[0] != 'void'
                    if prog.find(m, f).ret[0] == 'i':
                        ex.natint.add(f[1:])
        ex.nat_requires = []
        ex.nat_active = None
        k = K(ex, None)
        con.body(k)
        m = np.ones(ex.samples.n, bool)
        ex.nat_active = m
        for c in ex.nat_requires:
            try:
                m = m & ex.samples.val(c).astype(bool)
            except T.EvalError:       # about auxiliary variables of the specification
                continue
        ex.nat_active = m
        ex.samples.memo = {}
        for c in ex.natcalls.values():
            c.cache = {}
        res['fallback_points'] = int(m.sum())
        threw = np.zeros(ex.samples.n, bool)
        for c in ex.natcalls.values():
            ex.samples.val(c.term)
            threw |= c.threw
        allmed = 0      # typical magnitude of all quantities compared in this contract: scale of the noise of finite differences
        for name, kind, goal, scale in k.goals:
            if kind in ('eq', 'close') and not isclosed(goal[0]) and not isclosed(goal[1]):
                with np.errstate(all='ignore'):
                    sc = np.abs(ex.samples.val(goal[0])) + np.abs(ex.samples.val(goal[1]))
                    if m.any() and np.isfinite(sc[m]).any():
                        allmed = max(allmed, float(np.nanmedian(sc[m & np.isfinite(sc)])))
        for name, kind, goal, scale in k.goals:
            g = {'name': name, 'status': 'bounded', 'backend': 'native sampling', 'why': '', 'time': 0}
            if kind in ('eq', 'close'):
                a, b = ex.samples.val(goal[0]), ex.samples.val(goal[1])
                od = max(natderivs(goal[0]), natderivs(goal[1]))
                tol = {0: 1e-6, 1: 1e-4, 2: 1e-2}.get(od, 1e9)
                tol = max(tol, con.o('fb_tol', 0))
                with np.errstate(all='ignore'):
                    sc = np.abs(a) + np.abs(b)
                    med = np.nanmedian(np.where(m, sc, np.nan)) if (m & ~np.isnan(sc)).any() else 0
                    if od:
                        med = max(med if np.isfinite(med) else 0, allmed)
                    noise = {0: 1e-11, 1: 1e-6, 2: 1e-4}.get(od, 1) * (ex.samples.mag(goal[0]) + ex.samples.mag(goal[1]))
                    bad = m & np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) > tol * (sc + 1e-2 * (med if np.isfinite(med) else 0) + 1e-8) + np.where(np.isfinite(noise), noise, np.inf) + 1e-12 * allmed)
                    # exclude the wide-range tail where finite differences are unreliable
                    lo, hi = (0.02, 50) if od else con.o('fb_range', (1e-3, 1e3))
                    for v, arr_ in ex.samples.env.items():
                        if v.sort == 'R':
                            bad &= (np.abs(arr_) < hi) & (np.abs(arr_) > lo)
                n = int(bad.sum())
                # roundoff may spoil isolated points
                if n >= max(2, con.o('fb_frac', 0.05) * int(m.sum())):
                    i = int(np.nonzero(bad)[0][0])
                    g['status'] = 'refuted'
                    g['confirmed'] = True
                    g['why'] = 'native sampling: lhs=%r rhs=%r at %d of %d points' % (float(a[i]), float(b[i]), n, int(m.sum()))
                    g['replay'] = {'sample': {v.args[0]: float(x[i]) for v, x in ex.samples.env.items()}, 'why': g['why']}
            else:
                v = ex.samples.val(goal).astype(bool)
                bad = m & ~v
                bad &= ~threw
                if natderivs(goal) == 0 and int(bad.sum()) >= 2:
                    i = int(np.nonzero(bad)[0][0])
                    g['status'] = 'refuted'
                    g['confirmed'] = True
                    g['why'] = 'native sampling: condition false at %d of %d points' % (int(bad.sum()), int(m.sum()))
                    g['replay'] = {'sample': {vv.args[0]: float(x[i]) for vv, x in ex.samples.env.items()}, 'why': g['why']}
            res['goals'].append(g)
    except Exception as e:
        if os.environ.get('AGV_DEBUG'):
            traceback.print_exc()
        res['fallback_error'] = '%s: %s' % (type(e).__name__, str(e)[:300])


def worker(con, prog, so, seed, tier, conn):
    try:
        r = run_contract(con, prog, so, seed, tier)
    except BaseException as e:
        r = {'contract': con.name, 'property': con.prop, 'status': 'error', 'goals': [], 'error': '%s: %s' % (type(e).__name__, e),
             'trace': traceback.format_exc()[-1500:], 'mode': 'error', 'paths': 0, 'wall': 0}
    try:
        conn.send(r)
        conn.close()
    except Exception:
        pass
    os._exit(0)


def run_all(cons, prog, so, seed, tier, nproc=8, limit=700):
    t0 = time.time()
    pend = sorted(cons, key=lambda c: -c.o('weight', 1))
    act = {}
    out = []
    from multiprocessing.connection import wait
    while pend or act:
        while pend and len(act) < nproc:
            c = pend.pop(0)
            a, b = mp_.Pipe(False)
            pid = os.fork()
            if pid == 0:
                a.close()
                worker(c, prog, so, seed, tier, b)
            b.close()
            act[a] = (c, pid, time.time())
        for a in wait(list(act), 1.0):
            c, pid, ts = act.pop(a)
            try:
                out.append(a.recv())
            except EOFError:
                out.append({'contract': c.name, 'property': c.prop, 'status': 'error', 'goals': [], 'error': 'worker died', 'mode': 'error', 'paths': 0, 'wall': 0})
            a.close()
            os.waitpid(pid, 0)
            if os.environ.get('AGV_V'):
                r = out[-1]
                print('   %-50s %-9s paths %-3d goals %-3d proved %-3d  %.1fs %s' % (r['contract'], r['mode'], r['paths'], len(r['goals']),
                      sum(g['status'] == 'proved' for g in r['goals']), r['wall'], r.get('unsupported', r.get('error', ''))[:150]), flush=True)
        for a in list(act):
            c, pid, ts = act[a]
            lim = c.o('budget', 150) * (3 if tier == 'thorough' else 1) * 1.3 + 60
            if time.time() - ts > lim or (tier == 'quick' and time.time() - t0 > limit):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                a.close()
                del act[a]
                out.append({'contract': c.name, 'property': c.prop, 'status': 'timeout', 'goals': [], 'mode': 'timeout', 'paths': 0, 'wall': time.time() - ts})
        if tier == 'quick' and time.time() - t0 > limit:
            for c in pend:
                out.append({'contract': c.name, 'property': c.prop, 'status': 'timeout', 'goals': [], 'mode': 'timeout', 'paths': 0, 'wall': 0})
            pend = []
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mods = sorted(glob.glob(HERE + '/contracts/%s*.py' % prop.lower()))
    meta = {}
    for m in mods:
        mod = importlib.import_module('contracts.' + os.path.basename(m)[:-3])
        meta.setdefault('tus', [])
        meta['tus'] += mod.TUS
        meta.setdefault('drv', [])
        meta['drv'] += mod.DRV
        meta.setdefault('assumptions', [])
        meta['assumptions'] += getattr(mod, 'ASSUMPTIONS', [])
        meta.setdefault('extra', [])
        if hasattr(mod, 'EXTRA'):
            meta['extra'].append(mod.EXTRA)
    cons = [c for c in REGISTRY if c.prop == prop and (only is None or only in c.name)]
    if not cons:
        print('no contracts for ' + prop)
        sys.exit(2)
    out = tempfile.mkdtemp(prefix='agv_')
    try:
        srcs = [build.REPO + '/src/' + t for t in sorted(set(meta['tus'] + ['utils.cpp']))] + [HERE + '/harness/' + d for d in sorted(set(meta['drv']))]
        try:
            lls, so = build.compile_all(srcs, out)
        except build.BuildError as e:
            print('BUILD ERROR', e)
            sys.exit(2)
        tb = time.time() - t0
        prog = symex.Program(lls)
        results = run_all(cons, prog, so, seed, tier)
        for e in meta['extra']:
            results += e(prog, out, tier, seed)
        rc = report(prop, results, cons, meta, tier, seed, t0, tb, only)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    sys.exit(rc)


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'known']


def report(prop, results, cons, meta, tier, seed, t0, tb, only):
    viol, tot, proved, bounded, undec = [], 0, 0, [], []
    backends = {}
    errors = []
    funcs = set()
    assumed = set()
    known = known_findings(prop)
    kf = []
    for r in sorted(results, key=lambda r: r['contract']):
        funcs |= set(r.get('functions', ()))
        assumed |= set(r.get('assumed', ()))
        if r['mode'] in ('error', 'timeout') or r.get('fallback_error') or r['status'] == 'vacuous':
            errors.append((r['contract'], r.get('error') or r.get('fallback_error') or r['status']))
        for g in r['goals']:
            oid = '%s: %s' % (r['contract'], g['name'])
            if r['mode'] == 'bounded' and g['status'] != 'refuted':
                bounded.append(oid)
                continue
            if r['mode'] != 'bounded':
                tot += 1
            if g['status'] == 'proved':
                proved += 1
                backends[g['backend']] = backends.get(g['backend'], 0) + 1
            elif g['status'] == 'refuted' and g.get('confirmed'):
                viol.append((oid, g, r, True))
            elif g['status'] == 'refuted' and g.get('incomparable'):
                viol.append((oid, g, r, False))
            elif g['status'] == 'refuted':
                undec.append((oid, 'refuted over the reals but not reproduced by the machine code: ' + g['why']))
            elif g.get('witness', 1) == 0:
                viol.append((oid, g, r, False))
            else:
                undec.append((oid, g['why']))
    # known findings
    rest = []
    for v in viol:
        for k in known:
            if k['obligation'] in v[0]:
                kf.append((k, v))
                break
        else:
            rest.append(v)
    viol = rest
    rdir = os.path.join(HERE, 'replays')
    lines = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
        seenk = set()
        n = 0
        for oid, g, r, conf in sorted(viol, key=lambda v: not v[3]):
            key = (r['contract'], g['name'])
            if key in seenk:
                continue
            seenk.add(key)
            n += 1
            if n > 5:
                break
            path = os.path.join(rdir, '%s_%d.json' % (prop, n))
            json.dump({'property': prop, 'failed_obligation': oid, 'verifier': g, 'contract_note': r.get('note'),
                       'how_to_replay': 'python3-vt -m agv.run %s "%s"  (run in /verif); the native_runs section lists the driver '
                       'call (harness/%s), its arguments and what the machine code returned' % (prop, r['contract'], ','.join(meta['drv']))},
                      open(path, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conf else ' no-failing-input-found'))
            print('  failed obligation: %s  %s' % (oid, g['why'][:200]))
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': tot, 'discharged': proved,
            'checker_cmd': 'python3-vt -m agv.run ' + prop,
            'trusted_base': TRUSTED,
            'backends': backends,
            'contracts': [{'name': r['contract'], 'mode': r['mode'], 'paths': r['paths'], 'obligations': len(r['goals']),
                           'discharged': sum(g['status'] == 'proved' for g in r['goals']), 'wall_s': r['wall'],
                           'solver_s': round(r.get('t_smt', 0) + r.get('t_ring', 0), 2), 'unwitnessed_paths': r.get('unwitnessed_paths'),
                           'native_conformance': [r.get('conform_ok'), r.get('conform_bad')], 'unsupported': r.get('unsupported'),
                           'throw_paths': r.get('throw_paths')} for r in results],
            'functions_under_contract': sorted(funcs),
            'assumed_contracts': sorted(assumed),
            'drivers_not_compiled': build.DROPPED, 'bounded_stand_ins': bounded, 'undecided': undec[:50],
            'solver_s': round(sum(r.get('t_smt', 0) + r.get('t_ring', 0) for r in results), 1),
            'build_s': round(tb, 1),
        },
        'assumptions': STD_ASSUMPTIONS + meta['assumptions'],
        'wall_s': round(wall, 1), 'violations': len(viol),
    }
    if only is None:
        os.makedirs(HERE + '/evidence', exist_ok=True)
        json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1, default=str)
    print('%s: %d contracts, %d obligations, %d discharged, %d bounded, %d undecided, %d functions, %.0f s (build %.0f s)' %
          (prop, len(results), tot, proved, len(bounded), len(undec), len(funcs), wall, tb))
    if build.DROPPED:
        print('  drivers that do not compile against the current sources: ' + ', '.join(build.DROPPED))
    for c, e in errors:
        print('  ERROR in contract %s: %s' % (c, e))
    for o, w in undec[:12]:
        print('  undecided: %s  (%s)' % (o, w[:160]))
    for k, v in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        for l in lines:
            print(l)
        return 1
    if errors and (tot == 0 and not bounded):
        return 2
    return 0


TRUSTED = ['clang-18 -O1 front end and IR optimiser', 'agv symbolic executor (agv/symex.py)', 'agv ring normaliser (agv/ring.py)',
           'z3', 'numpy/mpmath evaluation (refutation only)']
STD_ASSUMPTIONS = [
    'double arithmetic is read as real arithmetic (no rounding, overflow or NaN inputs); numeric literals within 3 ulp of p/q*pi^k are read as that real, literals below 1e-90 as zero',
    'machine integers are read as mathematical integers (no wrap-around)',
    'equalities are claimed where every denominator is non-zero and every even root has a non-negative argument',
    'operator new succeeds; distinct allocations do not alias',
    'libm functions (sin, exp, log, pow, ...) are the exact real functions',
]

if __name__ == '__main__':
    main()
