"""Contracts, path exploration and discharge of obligations."""
import os, sys, time, math, random, re, json, traceback, signal
import numpy as np
from fractions import Fraction
from .terms import *
from . import terms as T
from . import symex, ring, smt, ir, numpoly
from .symex import SymEx, Unsupported, Thrown, PathEnd, Restart, Ptr, UNDEF
from .samples import Samples

REGISTRY = []


import os as _os, sys
DEBUGF = _os.environ.get('AGV_FORKS')


class Contract(object):
    def __init__(self, prop, name, body, opts):
        self.prop = prop
        self.name = name
        self.body = body
        self.opts = opts

    def o(self, k, d=None):
        return self.opts.get(k, d)


def contract(prop, name=None, **opts):
    """decorator: registers body(k) as a contract of property `prop`"""
    def dec(f):
        REGISTRY.append(Contract(prop, name or f.__name__, f, opts))
        return f
    return dec


class Vacuous(Exception):
    pass


class Discard(Exception):
    """the current path is outside the contract"""


# ---- sampling distributions ---------------------------------------------------------------
def draw(rng, dist, n):
    kind = dist[0]
    if kind == 'real':
        s = np.exp(rng.uniform(math.log(0.05), math.log(20), n)) * rng.choice([-1, 1], n)
        w = np.exp(rng.uniform(math.log(1e-7), math.log(1e7), n)) * rng.choice([-1, 1], n)
        sp = rng.choice([0., 0., 1., -1., 2., 0.5, -3.], n)
        u = rng.random(n)
        return np.where(u < 0.80, s, np.where(u < 0.90, w, sp))
    if kind == 'pos':
        s = np.exp(rng.uniform(math.log(0.05), math.log(20), n))
        w = np.exp(rng.uniform(math.log(1e-7), math.log(1e7), n))
        sp = rng.choice([1., 2., 0.5, 3.], n)
        u = rng.random(n)
        return np.where(u < 0.80, s, np.where(u < 0.90, w, sp))
    if kind == 'mod':      # moderate positive
        return np.exp(rng.uniform(math.log(0.2), math.log(5), n))
    if kind == 'modreal':
        return np.exp(rng.uniform(math.log(0.2), math.log(5), n)) * rng.choice([-1, 1], n)
    if kind == 'range':
        lo, hi = dist[1], dist[2]
        return lo + (hi - lo) * rng.random(n)
    if kind == 'angle':
        u = rng.random(n)
        return np.where(u < 0.9, rng.uniform(-math.pi, math.pi, n), rng.choice([0., math.pi / 2, -math.pi / 2, 1.], n))
    if kind == 'int':
        return rng.integers(dist[1], dist[2] + 1, n)
    raise ValueError(kind)


class Path(object):
    pass


class Explorer(object):
    """explores all paths of one contract body"""

    def __init__(self, prog, con, native, seed=1, budget=120, contracts=None, ufm=None, N=None):
        self.prog = prog
        self.con = con
        self.native = native
        self.seed = seed
        self.N = N or con.o('samples', 300)
        self.samples = Samples(self.N, ufm)
        self.rng_seed = seed
        self.requires = []
        self.nonneg = set()
        self.maxvisits = con.o('maxvisits', 64)
        self.maxsteps = con.o('maxsteps', 400000)
        self.maxpaths = con.o('maxpaths', 400)
        self.forkselect_int = con.o('forkselect_int', False)
        self.contracts = contracts or {}
        self.ccache = {}
        self.deadline = time.time() + budget
        self.feas = {}
        self.t_smt = 0.0
        self.t_ring = 0.0
        self.n_smt = 0
        self.funcs = set()
        self.decls = {}
        self.loops = con.o('loops', {})
        self.lstate = {}
        self.arraxioms = {}
        self.catchcache = {}
        self.boolterms = set()
        self.assumed = set()
        self.prefix = []
        self.work = []

    # ---- hooks called by SymEx ---------------------------------------------------------
    def contract(self, prog, name):
        r = self.ccache.get(name, 0)
        if r == 0:
            d = prog.demname(name)
            r = None
            for pat, h in self.contracts.items():
                if d == pat or name[1:] == pat or (d.startswith(pat) and (pat.endswith('('))):
                    r = h
                    if h is not None:
                        self.assumed.add(pat)
                    break
            self.ccache[name] = r
        return r

    def loopspec(self, f):
        self.funcs.add(f.name)
        if not self.loops:
            return None
        d = self.prog.demname(f.name)
        for pat, s in self.loops.items():
            if d.startswith(pat):
                return s
        return None

    def loophead(self, sx, spec, f, b, prev, loc, phis, args):
        spec.head(self, sx, f, b, prev, loc, phis, args)

    def onwrite(self, sx, r, o, size):
        w = getattr(sx, 'written', None)
        if w is not None:
            w.append((r, o, size))

    def onindex(self, sx, r, idx):
        """array bounds obligation for abstract arrays"""
        n = r.data[3]
        if n is None or not self.con.o('bounds', True) or getattr(self, 'nobounds', False):
            return
        g = and_(le(ic(0), idx), lt(idx, n))
        if g is TRUE or sx.known(g):
            return
        sx.obligs.append(('index of %s within bounds' % r.name, list(sx.pc), g))

    def hascatch(self, f):
        r = self.catchcache.get(f.name)
        if r is None:
            r = any(re.match(r'\s+catch ptr (?!null)', l) or 'catch ptr null' in l for l in f.lines)
            self.catchcache[f.name] = r
        return r

    def mask(self, sx):
        n = len(sx.pc)
        c = getattr(sx, '_mask', None)
        if c is not None and c[1] == self.samples.n:
            m, k = c[0], c[2]
        else:
            m, k = np.ones(self.samples.n, bool), 0
        for i in range(k, n):
            m = m & self.samples.val(sx.pc[i]).astype(bool)
        sx._mask = (m, self.samples.n, n)
        return m

    def choose(self, sx, c):
        if sx.pos < len(self.prefix):
            d = self.prefix[sx.pos]
            sx.pos += 1
            sx.trace.append(d)
            return d
        if time.time() > self.deadline:
            raise Unsupported('time budget exhausted during exploration')
        ft = self.feasible(sx, c)
        ff = self.feasible(sx, not_(c)) if ft else True
        if ft and ff:
            if DEBUGF:
                sys.stderr.write('FORK %s in %s\n' % (show(c)[:200], ' < '.join(sx.prog.demname(g.name)[:60] for g in sx.stack[-1:-5:-1])))
            self.work.append(sx.trace + [False])
            d = True
        else:
            d = bool(ft)
        sx.pos += 1
        sx.trace.append(d)
        return d

    def feasible(self, sx, c):
        try:
            m = self.mask(sx)
            if (m & self.samples.val(c).astype(bool)).any():
                return True
        except EvalError:
            pass
        key = (frozenset(sx.pc), c)
        r = self.feas.get(key)
        if r is not None:
            return r
        t0 = time.time()
        lits = relevant(sx.pc, c) + [c]
        st, model = smt.check(lits, self.con.o('feas_ms', 1000), self.arraxioms, want_model=True)
        self.t_smt += time.time() - t0
        self.n_smt += 1
        if st == 'unsat':
            r = False
        else:
            r = True
            if st == 'sat' and model:
                self.addmodel(model, sx.pc + [c])
        self.feas[key] = r
        return r

    def addmodel(self, model, lits):
        """turn an SMT model into another sample point when it really satisfies the conditions"""
        vals, arrs = model
        base = np.random.default_rng(len(self.feas) + self.seed)
        for attempt in range(3):
            env = {}
            for v in self.samples.env:
                x = vals.get(v)
                if x is None:
                    j = int(base.integers(self.samples.n))
                    x = self.samples.env[v][j]
                env[v] = x
            rows = {}
            for nm, a in self.samples.arrs.items():
                row = np.array(a[int(base.integers(self.samples.n))])
                for i, x in arrs.get(nm, {}).items():
                    if 0 <= i < len(row):
                        row[i] = x
                rows[nm] = row
            try:
                ok = all(T.evalf(l, dict([(k, mpf(x) if k.sort == 'R' else x) for k, x in env.items()] +
                                        [(('arr', nm), list(map(float, row))) for nm, row in rows.items()]), 25) for l in lits)
            except Exception:
                ok = False
            if ok:
                self.samples.append(env, rows)
                return True
        return False

    # ---- running -----------------------------------------------------------------------
    def run(self):
        """returns list of Path objects"""
        paths = []
        self.work = [[]]
        restarts = 0
        while self.work:
            if len(paths) >= self.maxpaths:
                raise Unsupported('more than %d paths' % self.maxpaths)
            self.prefix = self.work.pop()
            sx = SymEx(self.prog, self)
            k = K(self, sx)
            p = Path()
            p.outcome = 'ok'
            try:
                self.con.body(k)
            except Thrown as e:
                p.outcome = 'throws'
                p.why = str(e)
            except PathEnd as e:
                p.outcome = 'cut'
                p.why = e.why
            except Discard:
                continue
            except SpecialValue as e:
                raise Unsupported('special value: ' + str(e))
            except Restart:
                restarts += 1
                if restarts > 200:
                    raise Unsupported('loop invariant inference does not converge')
                paths = []
                self.work = [[]]
                continue
            if p.outcome == 'throws' and k.onthrow is not None:
                k.onthrow(k)
            p.pc = list(sx.pc)
            p.sx = sx
            p.k = k
            p.goals = k.goals + [(n, 'side', g, pc) for n, pc, g in sx.obligs]
            paths.append(p)
        return paths


def relevant(pc, c):
    """cone of influence of c in pc"""
    vs = set(variables(c))
    lits = list(pc)
    out = []
    ch = True
    while ch:
        ch = False
        rest = []
        for l in lits:
            lv = variables(l)
            if not lv or lv & vs:
                out.append(l)
                if not lv <= vs:
                    vs |= lv
                    ch = True
            else:
                rest.append(l)
        lits = rest
    return out


class Out(object):
    """output array argument of a driver call"""
    def __init__(self, n):
        self.n = n


class K(object):
    """what a contract body sees"""
    def __init__(self, ex, sx):
        self.ex = ex
        self.sx = sx
        self.goals = []
        self.calls = []
        self.onthrow = None
        self.native_mode = sx is None
        self.tags = []

    # inputs
    def real(self, name, dist='real', lo=None, hi=None, strict=True):
        v = var(name)
        ex = self.ex
        if v not in ex.decls:
            d = dist if isinstance(dist, tuple) else (dist,)
            if lo is not None and hi is not None and dist == 'real':
                d = ('range', tofloat(lo), tofloat(hi))
            elif lo is not None and dist == 'real' and tofloat(lo) == 0:
                d = ('pos',)
            rng = np.random.default_rng([ex.seed, abs(hash_(name))])
            a = draw(rng, d, ex.samples.n)
            # the last sixth of the samples sits on corners: many inputs exactly zero or at the end of their range
            nc = ex.samples.n // 6
            if nc and d[0] != 'int':
                cz = np.zeros(nc) if d[0] != 'range' else rng.choice([d[1], d[2], (d[1] + d[2]) / 2], nc)
                a[-nc:] = np.where(rng.random(nc) < 0.5, cz, a[-nc:])
            ex.samples.setvar(v, a)
            ex.decls[v] = d
        if dist in ('pos', 'mod'):
            self.require(lt(ZERO, v))
        if lo is not None:
            self.require(lt(lift(lo), v) if strict else le(lift(lo), v))
        if hi is not None:
            self.require(lt(v, lift(hi)) if strict else le(v, lift(hi)))
        return v

    def reals(self, names, dist='real', **kw):
        return [self.real(n, dist, **kw) for n in names.split()]

    def int(self, name, lo, hi=None, maxsample=6):
        v = var(name, 'I')
        ex = self.ex
        if v not in ex.decls:
            rng = np.random.default_rng([ex.seed, abs(hash_(name))])
            ex.samples.setvar(v, draw(rng, ('int', lo, hi if hi is not None else max(lo, maxsample)), ex.samples.n))
            ex.decls[v] = 'int'
            if lo >= 0:
                ex.nonneg.add(v)
        self.require(le(ic(lo), v))
        if hi is not None:
            self.require(le(v, ic(hi)))
        return v

    def require(self, c):
        if self.native_mode:
            self.ex.nat_requires.append(c)
            return
        self.sx.assume(c)
        if c is FALSE:
            raise Discard()

    def out(self, n):
        return Out(n)

    # calls
    def call(self, fname, *args, ret='double'):
        """call a driver function; list arguments are input arrays of doubles, Out(n) are output arrays.
        Returns (ret, [outputs]) or the single list of outputs"""
        if self.native_mode:
            return self.ncall(fname, args, ret)
        sx = self.sx
        f = sx.prog.find(None, '@' + fname)
        if f is None:
            raise Unsupported('driver %s not found' % fname)
        av = []
        outs = []
        for a in args:
            if isinstance(a, Out):
                p = sx.newptr('out', 8 * a.n)
                outs.append((p, a.n))
                av.append(p)
            elif isinstance(a, (list, tuple)):
                p = sx.newptr('in', 8 * len(a))
                for i, x in enumerate(a):
                    sx.store(Ptr(p.r, ic(8 * i)), lift(x), 8)
                outs.append(None)
                av.append(p)
            elif isinstance(a, ArrArg):
                p = Ptr(a.region(sx), ic(0))
                av.append(p)
            elif isinstance(a, bool) or (isinstance(a, int) and not isinstance(a, Term)):
                av.append(ic(a))
            else:
                av.append(lift(a))
        # python ints are integers, floats/Fractions are reals: match to declared parameter types
        for i, (t, nm, bv) in enumerate(f.params):
            if t[0] == 'double' and isinstance(av[i], Term) and av[i].sort == 'I':
                av[i] = toreal(av[i])
        rec = {'f': fname, 'args': args, 'av': av}
        self.calls.append(rec)
        r = sx.call(f, av)
        res = []
        for o in outs:
            if o is None:
                continue
            p, n = o
            vals = []
            for i in range(n):
                v = sx._load(p.r, ic(8 * i), 8, ir.DOUBLE)
                vals.append(None if v is UNDEF else symex.nz(sx.coerce(v, ir.DOUBLE)))
            res.append(vals)
        rec['ret'] = r if isinstance(r, Term) else None
        rec['outs'] = res
        if f.ret[0] == 'void':
            return res[0] if len(res) == 1 else res
        return r if not res else (r, res[0] if len(res) == 1 else res)

    # obligations
    def ensure(self, name, goal):
        if self.native_mode:
            self.goals.append((name, 'post', goal, None))
            return
        goal = self.casesplit(goal)
        if goal is TRUE:
            self.goals.append((name, 'post', TRUE, list(self.sx.pc)))
            return
        self.goals.append((name, 'post', goal, list(self.sx.pc)))

    def ensure_eq(self, name, a, b, scale=None):
        """a == b as reals; `scale`: magnitude used for the numeric (refutation) comparison"""
        if a is None or b is None:
            raise Unsupported('output %s is not assigned' % name)
        a, b = lift(a), lift(b)
        if self.native_mode:
            self.goals.append((name, 'eq', (a, b), scale))
            return
        a, b = self.casesplit(a), self.casesplit(b)
        self.goals.append((name, 'eq', (a, b), list(self.sx.pc)))

    def concrete(self, t):
        """number returned by a call whose arguments are all numbers"""
        if t.op in ('q', 'i'):
            return t.args[0]
        if t.op == 'uf' and t.args[0].startswith('nat'):
            key, which = t.args[0].split('#')
            cols = [np.full(1, float(x.args[0])) for x in T.kids(t)]
            c = self.ex.natcalls[key]
            n, act, self.ex.samples.n, self.ex.nat_active = self.ex.samples.n, self.ex.nat_active, 1, [True]
            try:
                v = float(c.pick(c.values(cols), which)[0])
            finally:
                self.ex.samples.n, self.ex.nat_active = n, act
            return Fraction(v)
        raise Unsupported('not a number: ' + T.show(t))

    @property
    def native(self):
        """bounded stand-in: the calls are evaluated by the machine code at sampled points"""
        return getattr(self.ex, 'natcalls', None) is not None

    def ensure_close(self, name, a, b, tol=1e-12, sc=None):
        """a == b up to tol (relative to the largest coefficients, as polynomials in the inputs)"""
        if a is None or b is None:
            raise Unsupported('output %s is not assigned' % name)
        a, b = lift(a), lift(b)
        if sc is not None:
            a, b = a + sc, b + sc
        if self.native_mode:
            self.goals.append((name, 'close', (a, b, tol), None))
            return
        a, b = self.casesplit(a), self.casesplit(b)
        self.goals.append((name, 'close', (a, b, tol), list(self.sx.pc)))

    def casesplit(self, t):
        """remove conditionals from a term by forking the path"""
        if self.native_mode:
            return t
        for _ in range(200):
            c = first_ite(t)
            if c is None:
                return t
            d = self.sx.decide(c)
            t = resolve_ite(t, c, d)
        raise Unsupported('too many conditionals')

    def decide(self, c):
        if self.native_mode:
            raise Unsupported('decide in native mode')
        return self.sx.decide(c)

    def D(self, t, x):
        return D(t, x)

    def degenerate(self, vs):
        """True when the path condition pins one of the real inputs by an equality (measure-zero path)"""
        if self.native_mode:
            return False
        for c in self.sx.pc:
            if c.op == '==' and c.args[0].sort == 'R' and (variables(c) & set(vs)):
                return True
        return False

    # native mode
    def ncall(self, fname, args, ret):
        ex = self.ex
        flat = []
        spec = []
        outs = []
        for a in args:
            if isinstance(a, Out):
                spec.append(('out', a.n))
                outs.append(a.n)
            elif isinstance(a, (list, tuple)):
                spec.append(('in', len(a)))
                flat += [lift(x) for x in a]
            elif isinstance(a, ArrArg):
                spec.append(('arr', a))
            elif isinstance(a, bool) or (isinstance(a, int) and not isinstance(a, Term)):
                spec.append(('k', a))
            else:
                t = lift(a)
                spec.append(('d' if t.sort == 'R' else 'i',))
                flat.append(t)
        key = 'nat%d' % len(ex.natcalls)
        ex.natcalls[key] = NatCall(ex, fname, spec)
        ex.samples.nuf[key] = ex.natcalls[key]
        res = []
        tot = 0
        rv = uf(key + '#ret', flat)
        ex.natcalls[key].term = rv
        for n in outs:
            res.append([uf('%s#%d' % (key, tot + i), flat) for i in range(n)])
            tot += n
        if ret == 'void' or (ret == 'double' and outs and not ex.natret.get(fname, False)):
            return res[0] if len(res) == 1 else res
        return rv if not res else (rv, res[0] if len(res) == 1 else res)


class ArrArg(object):
    """abstract input array of symbolic length"""
    def __init__(self, k, name, n, maxlen=12, gen=None, axioms=None, sort='R'):
        self.name = name
        self.n = n
        self.sort = sort
        ex = k.ex
        if name not in ex.samples.arrs:
            rng = np.random.default_rng([ex.seed, abs(hash_(name))])
            nn = ex.samples.env[n] if isinstance(n, Term) and n.op == 'v' else None
            a = gen(rng, ex.samples.n, maxlen, nn)
            ex.samples.arrs[name] = a
        if axioms:
            ex.arraxioms[name] = axioms

    def region(self, sx):
        k = ('arr', self.name)
        r = sx.globals.get(k)
        if r is None:
            r = sx.region(self.name, None, 'arr')
            r.data = (self.name, 8, self.sort, self.n)
            sx.globals[k] = r
        return r

    def __getitem__(self, i):
        return arr(self.name, lift(i, 'I'), self.sort)


def tofloat(x):
    return float(T.evalf(lift(x), {})) if isinstance(x, Term) else float(x)


def hash_(s):
    import zlib
    return zlib.crc32(s.encode())


def first_ite(t):
    seen = set()
    st = [t]
    found = None
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'ite':
            found = u
        st.extend(T.kids(u))
    if found is None:
        return None
    # innermost condition first
    c = found.args[0]
    while True:
        d = first_ite_in(c)
        if d is None:
            return c
        c = d


def first_ite_in(c):
    for u in T.kids(c):
        r = first_ite(u)
        if r is not None:
            return r
    return None


def resolve_ite(t, c, val):
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            if u.op == 'ite' and (u.args[0] is c):
                r = go(u.args[1] if val else u.args[2])
            elif u.op == 'ite' and u.args[0] is not_(c):
                r = go(u.args[2] if val else u.args[1])
            else:
                ks = T.kids(u)
                nk = [go(x) for x in ks]
                r = u if all(a is b for a, b in zip(nk, ks)) else T.rebuild(u, nk)
            memo[u] = r
        return r
    return go(t)


class NatCall(object):
    """native evaluation (and finite-difference derivatives) of a driver call over all samples"""
    def __init__(self, ex, fname, spec):
        self.ex = ex
        self.fname = fname
        self.spec = spec
        self.cache = {}
        self.threw = np.zeros(ex.samples.n, bool)

    def values(self, cols):
        key = tuple(c.tobytes() for c in cols)
        r = self.cache.get(key)
        if r is not None:
            return r
        n = self.ex.samples.n
        calls = []
        act = self.ex.nat_active
        for s in range(n):
            if not act[s]:
                continue
            d, I = [], []
            j = 0
            for sp in self.spec:
                if sp[0] == 'out':
                    I.append(('arr', [0.0] * sp[1]))
                elif sp[0] == 'in':
                    I.append(('arr', [float(cols[j + i][s]) for i in range(sp[1])]))
                    j += sp[1]
                elif sp[0] == 'arr':
                    I.append(('arr', [float(x) for x in self.ex.samples.arrs[sp[1].name][s]]))
                elif sp[0] == 'k':
                    I.append(sp[1])
                elif sp[0] == 'i':
                    I.append(int(cols[j][s]))
                    j += 1
                else:
                    d.append(float(cols[j][s]))
                    j += 1
            calls.append((d, I))
        res = self.ex.native.batch(self.fname, calls)
        full = []
        it = iter(res)
        for s in range(n):
            full.append(next(it) if act[s] else None)
        self.cache[key] = full
        return full

    def pick(self, full, which):
        n = self.ex.samples.n
        out = np.full(n, np.nan)
        for s in range(n):
            if full[s] is None:
                continue
            st, ret, arrs = full[s]
            if st == 1:
                self.threw[s] = True
            if st != 0:
                continue
            if which == 'ret':
                out[s] = ret[1] if self.fname in self.ex.natint else ret[0]
            else:
                k = 0
                vals = []
                ai = 0
                for sp in self.spec:
                    if sp[0] in ('out', 'in', 'arr'):
                        if sp[0] == 'out':
                            vals += arrs[ai][:sp[1]]
                        ai += 1
                out[s] = vals[int(which)]
        return out

    def __call__(self, name, deriv, cols):
        which = name.split('#')[1]
        cols = [np.asarray(c, float) for c in cols]
        tot = sum(deriv)
        if tot == 0:
            return self.pick(self.values(cols), which)
        return self.fd(which, list(deriv), cols)

    def fd(self, which, deriv, cols):
        # nested 4th-order central differences
        i = next(k for k, d in enumerate(deriv) if d)
        d2 = list(deriv)
        d2[i] -= 1
        h = (2e-3 if sum(deriv) > 1 else 5e-4) * np.maximum(np.abs(cols[i]), 1e-3)
        r = 0
        for m, w in ((-2, 1.), (-1, -8.), (1, 8.), (2, -1.)):
            c2 = list(cols)
            c2[i] = cols[i] + m * h
            v = self.fd(which, d2, c2) if any(d2) else self.pick(self.values(c2), which)
            r = r + w * v
        return r / (12 * h)


# ---- discharge ----------------------------------------------------------------------------
class PathOracle(object):
    def __init__(self, ex, pc):
        self.ex = ex
        self.pc = pc
        self.vs = {}
        for l in pc:
            # v >= c >= 0
            if l.op in ('<', '<=') and l.args[1].op in ('v', 'arr', 'toreal') and T._nonneg(l.args[0]):
                self.vs[l.args[1]] = 1
            if l.op in ('<', '<=') and l.args[0].op == 'i' and l.args[0].args[0] >= 0 and l.args[1].sort == 'I':
                self.vs[toreal(l.args[1])] = 1
        self.cache = {}

    def positive(self, t):
        return self.varsign(t) == 1 or any(l.op in ('<', '<=') and l.args[1] is t and T._nonneg(l.args[0]) for l in self.pc)

    def varsign(self, t):
        if t.op == 'toreal' and t.args[0] in self.ex.nonneg:
            return 1
        return self.vs.get(t)

    def mask(self):
        m = np.ones(self.ex.samples.n, bool)
        for l in self.pc:
            try:
                m = m & self.ex.samples.val(l).astype(bool)
            except EvalError:
                pass
        return m

    def sign(self, rg, p):
        t = poly2term(rg, p)
        r = self.cache.get(t, 7)
        if r != 7:
            return r
        r = None
        try:
            m = self.mask()
            v = self.ex.samples.val(t)[m]
            v = v[np.isfinite(v)]
            mixed = len(v) and (v > 0).any() and (v < 0).any()
            if mixed:
                # rounding noise? only clear-cut cases decide
                sc = np.median(np.abs(v)) + 1e-300
                if (v > 1e-9 * sc).any() and (v < -1e-9 * sc).any():
                    self.cache[t] = None
                    return None
            guess = 1 if (not len(v) or (v >= 0).mean() >= 0.5) else -1
        except EvalError:
            guess, v = 1, ()
        t0 = time.time()
        for g in (guess, -guess):
            if g != guess and len(v) > 0:
                break
            neg_ = lt(t, ZERO) if g == 1 else lt(ZERO, t)
            if neg_ is FALSE:
                r = g
                break
            st, _ = smt.check(relevant(self.pc, neg_) + [neg_], 1500, self.ex.arraxioms)
            self.ex.n_smt += 1
            if st == 'unsat':
                r = g
                break
        self.ex.t_smt += time.time() - t0
        self.cache[t] = r
        return r

    def inrange(self, rg, arg):
        try:
            t = rf2term(rg, arg)
        except ring.Undecided:
            return False
        goal = and_(lt(neg(PI), t), le(t, PI))
        if goal is TRUE:
            return True
        st, _ = smt.check(relevant(self.pc, goal) + [not_(goal)], 1500, self.ex.arraxioms)
        return st == 'unsat'


def atom2term(rg, a):
    if a.kind == 'v':
        return a.data
    if a.kind == 'pi':
        return PI
    if a.kind == 'root':
        b = poly2term(rg, rg.polys[a.u])
        return sqrt(b) if a.q == 2 else fn('pow', b, q(Fraction(1, a.q)))
    if a.kind == 'abs':
        return absv(poly2term(rg, rg.polys[a.data]))
    if a.kind in ('sin', 'cos'):
        m, qq = a.data
        return fn(a.kind, div(rf2term(rg, m), q(qq)))
    if isinstance(a.kind, tuple):
        return uf(a.kind[1], [rf2term(rg, x) for x in a.data], a.kind[2])
    return fn(a.kind, *[rf2term(rg, x) for x in a.data])


def poly2term(rg, p):
    out = ZERO
    for m, c in sorted(p.items()):
        t = q(c)
        x = m
        while x:
            i = (x.bit_length() - 1) // ring.BITS
            e = (m >> (i * ring.BITS)) & ring.MASKE
            t = mul(t, powi(atom2term(rg, rg.atoms[i]), e))
            x &= ~(ring.MASKE << (i * ring.BITS))
        out = add(out, t)
    return out


def rf2term(rg, r):
    t = q(r.c)
    for k, e in r.f.items():
        t = mul(t, powi(poly2term(rg, rg.polys[k]), e))
    if r.n != ring.ONEP:
        t = mul(t, poly2term(rg, r.n)) if r.n else ZERO
    return t


def _linreal(t, c, d):
    """add c*t to the linear form d"""
    if t.op == '+':
        _linreal(t.args[0], c, d)
        _linreal(t.args[1], c, d)
    elif t.op == 'neg':
        _linreal(t.args[0], -c, d)
    elif t.op == 'q':
        d[None] = d.get(None, 0) + c * Fraction(t.args[0])
    elif t.op == '*' and t.args[0].op == 'q':
        _linreal(t.args[1], c * Fraction(t.args[0].args[0]), d)
    else:
        d[t] = d.get(t, 0) + c


def eqsubst(pc):
    """variable := expression from the equalities of the path condition"""
    m = {}
    extra = []
    for l in pc:
        if l.op == '==' and (l.args[0] is ZERO or l.args[1] is ZERO):
            x = l.args[1] if l.args[0] is ZERO else l.args[0]
            if x.op == 'fn' and x.args[0] in ('sin', 'cos') and x.args[1].op == 'fn' and x.args[1].args[0] == 'atan2':
                # sin(atan2(y, x)) = 0 implies y = 0, cos(atan2(y, x)) = 0 implies x = 0
                extra.append(eq(x.args[1].args[1 if x.args[0] == 'sin' else 2], ZERO))
    pc = extra + list(pc)
    for l in pc:
        if l.op == '==' and l.args[0] is ZERO or l.op == '==' and l.args[1] is ZERO:
            x = l.args[1] if l.args[0] is ZERO else l.args[0]
            if x.op == 'fn' and x.args[0] in ('sin', 'cos'):
                y = fn('cos' if x.args[0] == 'sin' else 'sin', x.args[1])
                m[x] = ZERO
                if lt(ZERO, y) in pc or le(ZERO, y) in pc:
                    m[y] = ONE
                elif lt(y, ZERO) in pc or le(y, ZERO) in pc:
                    m[y] = neg(ONE)
                a = x.args[1]
                if y in m and a.op == '+':
                    # the angle is c * v + rest with c = +-1: express sin v, cos v through the rest
                    d = T._lin(a)
                    for v, c in d.items():
                        if getattr(v, 'op', None) == 'v' and c in (1, -1) and fn('cos', v) not in m:
                            rest = ZERO
                            for u, k in d.items():
                                if u is not v:
                                    rest = add(rest, mul(lift(int(k)), u if u is not None else ONE))
                            if v in variables(rest):
                                continue
                            s, cc = lift(int(c)), m[y]
                            if x.args[0] == 'cos':      # cos w = 0, sin w = cc
                                m[fn('cos', v)] = mul(cc, fn('sin', rest))
                                m[fn('sin', v)] = mul(s, mul(cc, fn('cos', rest)))
                            else:
                                m[fn('cos', v)] = mul(cc, fn('cos', rest))
                                m[fn('sin', v)] = neg(mul(s, mul(cc, fn('sin', rest))))
                            break
                continue
    for l in pc:
        # x^2 = c^2 with x of known sign
        if l.op == '==' and l.args[0].sort == 'R':
            for x, y in (l.args, l.args[::-1]):
                if x.op == 'q' and y.op == '*' and len(set(y.args)) == 1 and len(y.args) == 2 and y.args[0].op == 'v' and y.args[0] not in m:
                    c = Fraction(x.args[0])
                    n, d = math.isqrt(max(c.numerator, 0)), math.isqrt(c.denominator)
                    v = y.args[0]
                    if c > 0 and Fraction(n, d) ** 2 == c:
                        if lt(ZERO, v) in pc or le(ZERO, v) in pc:
                            m[v] = q(Fraction(n, d))
                        elif lt(v, ZERO) in pc or le(v, ZERO) in pc:
                            m[v] = q(-Fraction(n, d))
    for l in pc:
        if l.op == '==' and l.args[0].sort in 'RI':
            a, b = l.args
            for x, y in ((a, b), (b, a)):
                if x.op in ('v', 'arr') and x not in m:
                    y2 = subst(y, m)
                    if x.op == 'v' and x not in variables(y2):
                        m = {k: subst(v, {x: y2}) for k, v in m.items()}
                        m[x] = y2
                        break
                    if x.op == 'arr' and y2.op in ('q', 'v'):
                        m[x] = y2
                        break
    # linear equations between integers
    les = set(pc)
    for l in pc:
        a = b = None
        if l.op == '==' and l.args[0].sort == 'I':
            a, b = l.args
        elif l.op == '<=' and l.args[0].sort == 'I' and le(l.args[1], l.args[0]) in les:
            a, b = l.args
        if a is not None:
            if m:
                a, b = subst(a, m), subst(b, m)
            d = T._lin(T.sub(a, b)) if a is not b else {}
            for v, c in d.items():
                if getattr(v, 'op', None) == 'v' and c in (1, -1) and v not in m and not any(u is not None and u is not v and v in variables(u) for u in d):
                    y = ic(0)
                    for u, e in d.items():
                        if u is not v:
                            y = y + (ic(-c * e) * u if u is not None else ic(-c * e))
                    try:
                        m = {k: subst(w, {v: y}) for k, w in m.items()}
                    except SpecialValue:
                        break
                    m[v] = y
                    break
    # linear equations: solve for a variable
    for l in pc:
        if l.op == '==' and l.args[0].sort == 'R':
            try:
                a, b = (subst(x, m) for x in l.args) if m else l.args
                d = {}
                _linreal(sub(a, b), Fraction(1), d)
            except SpecialValue:
                continue
            if a is b or len(d) < 2:
                continue
            d = {v: c for v, c in d.items() if c}
            for v, c in d.items():
                if getattr(v, 'op', None) != 'v' or v in m or any(u is not None and u is not v and v in variables(u) for u in d):
                    continue
                y = ZERO
                for u, e in d.items():
                    if u is not v:
                        y = add(y, mul(lift(-Fraction(e) / Fraction(c)), u if u is not None else ONE))
                try:
                    m = {k: subst(w, {v: y}) for k, w in m.items()}
                except SpecialValue:
                    break
                m[v] = y
                break
    return m


class Result(object):
    __slots__ = ('name', 'status', 'backend', 'why', 'path', 'sample', 'goal', 'time', 'lhs', 'rhs')


def discharge(ex, path, goals, tol, deadline):
    """prove every goal of a path; returns list of Result"""
    out = []
    rings = {}
    for (name, kind, g, pc) in goals:
        r = Result()
        r.name = name
        r.path = path
        r.sample = None
        r.why = ''
        r.lhs = r.rhs = None
        t0 = time.time()
        try:
            r.status, r.backend, r.why, r.sample = prove1(ex, kind, g, pc, rings, tol, deadline)
        except (RecursionError, MemoryError) as e:
            r.status, r.backend, r.why = 'unknown', '-', type(e).__name__
        r.goal = (kind, g)
        r.time = time.time() - t0
        out.append(r)
    return out


def prove1(ex, kind, g, pc, rings, tol, deadline):
    # sin t = 0 (cos t = 0): settle the sign of the other one by cases
    for l in pc:
        if l.op == '==' and (l.args[0] is ZERO or l.args[1] is ZERO):
            x = l.args[1] if l.args[0] is ZERO else l.args[0]
            if x.op == 'fn' and x.args[0] in ('sin', 'cos'):
                y = fn('cos' if x.args[0] == 'sin' else 'sin', x.args[1])
                if not any(c in pc for c in (lt(ZERO, y), lt(y, ZERO), le(ZERO, y), le(y, ZERO))):
                    for c in (lt(ZERO, y), lt(y, ZERO)):
                        if smt.check(relevant(pc, c) + [c], 2000, ex.arraxioms)[0] == 'unsat':
                            continue
                        r1 = prove1(ex, kind, g, pc + [c], rings, tol, deadline)
                        if r1[0] != 'proved':
                            return r1
                    return 'proved', 'cases', '', None
    if kind != 'eq' and g is TRUE:
        return 'proved', 'simplifier', '', None
    if kind in ('eq', 'close') and g[0] is g[1]:
        return 'proved', 'simplifier', '', None
    if kind == 'close':
        bad = refute(ex, 'eq', g, pc, max(1e-7, 1e3 * g[2]))
        if bad is not None and bad[1] == 'refuted':
            return 'refuted', 'evaluation', bad[2], bad[0]
        m = eqsubst(pc)
        a, b = g[:2]
        try:
            if m:
                a, b = subst(a, m), subst(b, m)
            ok, w = numpoly.near(a, b, g[2], PathOracle(ex, pc).positive)
            if ok:
                return 'proved', 'numeric polynomial', '', None
            return 'unknown', '-', 'coefficients differ by %.3g' % w, None
        except (numpoly.TooBig, SpecialValue, EvalError, ValueError, OverflowError) as e:
            return 'unknown', '-', 'numeric polynomial: %s %s' % (type(e).__name__, e), None
    # 1. numeric refutation at the sample points of this path
    bad = refute(ex, kind, g, pc, tol)
    if bad is not None:
        if bad[1] == 'refuted':
            return 'refuted', 'evaluation', bad[2], bad[0]
        why0 = bad[2]
    else:
        why0 = ''
    # 2. equational proof
    if kind == 'eq':
        key = tuple(pc)
        m = eqsubst(pc)
        a, b = g
        try:
            if m:
                a, b = subst(a, m), subst(b, m)
            if a is b:
                return 'proved', 'simplifier', '', None
            rg = rings.get(key)
            if rg is None:
                pc2 = pc
                rg = ring.Ring(PathOracle(ex, pc2), deadline=None)
                rings[key] = rg
            t0 = time.time()
            rg.deadline = min(deadline, t0 + ex.con.o('ring_s', 40))
            z = rg.iszero(sub(a, b))
            ex.t_ring += time.time() - t0
            if z:
                return 'proved', 'ring', '', None
            if os.environ.get("AGV_Z"): print("NZ", T.show(a)[:1500], "|||", T.show(b)[:300], [T.show(c)[:200] for c in pc])
            why = "normal form is not zero"
        except (ring.TooBig, ring.Undecided, NotImplementedError, SpecialValue, ZeroDivisionError) as e:
            why = 'ring: %s %s' % (type(e).__name__, e)
        goal = eq(a, b)
    else:
        goal = g
        why = ''
        m = eqsubst(pc)
        if m:
            try:
                goal = subst(goal, m)
            except SpecialValue:
                pass
        if goal is TRUE:
            return 'proved', 'simplifier', '', None
    # 3. SMT
    if deadline - time.time() > 1 and not (kind == 'eq' and big(goal)):
        t0 = time.time()
        if m:
            pcs = []
            for l in pc:
                try:
                    pcs.append(subst(l, m))
                except SpecialValue:
                    pcs.append(l)
        else:
            pcs = pc
        ng = not_(goal)
        st, model = smt.check(relevant(pcs, ng) + [ng], int(1000 * min(ex.con.o('smt_s', 8), deadline - time.time())), ex.arraxioms,
                              want_model=True)
        ex.n_smt += 1
        if st != 'unsat' and st != 'sat' and ex.con.o('cvc5', False):
            st2 = smt.check_cvc5(relevant(pcs, ng) + [ng], 10, ex.arraxioms)
            if st2 == 'unsat':
                ex.t_smt += time.time() - t0
                return 'proved', 'cvc5', '', None
        ex.t_smt += time.time() - t0
        if st == 'unsat':
            return 'proved', 'z3', '', None
        if st == 'sat' and model and ex.addmodel(model, list(pc)):
            bad = refute(ex, kind, g, pc, tol, only=ex.samples.n - 1)
            if bad is not None and bad[1] == 'refuted':
                return 'refuted', 'z3 model', bad[2], bad[0]
        why += ' smt: ' + st
    return 'unknown', '-', (why0 + ' ' + why).strip(), None


def big(t, lim=4000):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if len(seen) > lim:
            return True
        st.extend(T.kids(u))
    return False


def hasnan(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = t is NAN or any(hasnan(u) for u in T.kids(t))
        memo[t] = r
    return r


def mpenv(ex, i):
    env = {v: (mpf(float(a[i])) if v.sort == 'R' else (int(a[i]) if v.sort == 'I' else bool(a[i]))) for v, a in ex.samples.env.items()}
    for nm, a in ex.samples.arrs.items():
        env[('arr', nm)] = [x for x in (map(float, a[i]) if a.dtype.kind == 'f' else map(int, a[i]))]
    return env


def refute(ex, kind, g, pc, tol, only=None, maxmp=10):
    """None: agrees on all samples; (i,'refuted',why) or (i,'approx',why)"""
    S = ex.samples
    try:
        m = np.ones(S.n, bool)
        for l in pc:
            m = m & S.val(l).astype(bool)
        if only is not None:
            mm = np.zeros(S.n, bool)
            mm[only] = True
            m = m & mm
        idx = np.nonzero(m)[0]
        if not len(idx):
            return None
        if kind in ('eq', 'close'):
            a, b = S.val(g[0])[idx], S.val(g[1])[idx]
            with np.errstate(all='ignore'):
                d = np.abs(a - b) / (np.abs(a) + np.abs(b) + 1e-300)
            nn = hasnan(g[0]) or hasnan(g[1])
            d = np.where(np.isfinite(d), d, np.where(np.isnan(a) != np.isnan(b), 1., 0.) if nn else 0)
            order = idx[np.argsort(-d)]
            # suspicious points first, then a few others, all in high precision
            cand = [int(x) for x in order[:maxmp]]
        else:
            v = S.val(g)[idx]
            cand = [int(x) for x in idx[~v.astype(bool)]][:maxmp]
    except EvalError as e:
        return None
    approx = None
    for i in cand:
        env = mpenv(ex, i)
        try:
            memo = {}
            if not all(T.evalf(l, env, 40, S.ufm, memo) for l in pc):
                continue
            if kind in ('eq', 'close'):
                x = T.evalf(g[0], env, 40, S.ufm, memo)
                y = T.evalf(g[1], env, 40, S.ufm, memo)
                if mpmath.isnan(x) or mpmath.isnan(y):
                    # a literal NaN (uninitialised storage) on one side only
                    if mpmath.isnan(x) != mpmath.isnan(y) and (hasnan(g[0]) or hasnan(g[1])):
                        return i, 'refuted', 'lhs=%s rhs=%s' % (mpmath.nstr(x, 17), mpmath.nstr(y, 17))
                    continue
                if mpmath.isinf(x) or mpmath.isinf(y):
                    if x != y:
                        continue
                    continue
                e = abs(x - y)
                s = abs(x) + abs(y)
                if e > mpf(10) ** -18 * s and e > mpf(10) ** -25:
                    memo = {}              # a difference that vanishes in a higher precision is a roundoff error
                    with mpmath.workdps(110):
                        x2 = T.evalf(g[0], env, 100, S.ufm, memo)
                        y2 = T.evalf(g[1], env, 100, S.ufm, memo)
                        if abs(x2 - y2) < e * mpf(10) ** -20:
                            continue
                    if e > tol * s:
                        return i, 'refuted', 'lhs=%s rhs=%s' % (mpmath.nstr(x, 17), mpmath.nstr(y, 17))
                    approx = (i, 'approx', 'differs by %s relative' % mpmath.nstr(e / s, 3))
            else:
                if not T.evalf(g, env, 40, S.ufm, memo):
                    return i, 'refuted', 'condition is false'
        except (EvalError, ValueError, ZeroDivisionError, OverflowError, TypeError, NotImplementedError):
            continue
    return approx
