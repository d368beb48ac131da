"""SMT back end (z3 API, cvc5 as second solver): translation of terms with axioms for the atoms."""
import z3
from .terms import *
from . import terms as T

RL = 4000000


def frac(f):
    return z3.RealVal(str(f.numerator) + ('/' + str(f.denominator) if f.denominator != 1 else ''))


class Tr(object):
    def __init__(self, arraxioms=None):
        self.memo = {}
        self.ax = []
        self.n = 0
        self.arr = {}      # (name) -> {idx term: z3 const}
        self.trig = {}
        self.ufs = {}
        self.fnapps = {}
        self.vars = {}
        self.arraxioms = arraxioms or {}

    def fresh(self, base, sort='R'):
        self.n += 1
        return z3.Real('%s!%d' % (base, self.n)) if sort == 'R' else z3.Int('%s!%d' % (base, self.n))

    def tr(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        stack = [t]
        while stack:
            u = stack[-1]
            if u in self.memo:
                stack.pop()
                continue
            todo = [k for k in T.kids(u) if k not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[u] = self.tr1(u)
            stack.pop()
        return self.memo[t]

    def tr1(self, t):
        op = t.op
        if op == 'q':
            return frac(t.args[0])
        if op == 'i':
            return z3.IntVal(t.args[0])
        if op == 'pi':
            p = z3.Real('pi')
            self.ax += [p > frac(Fraction(314159265358979, 10**14)), p < frac(Fraction(314159265358980, 10**14))]
            return p
        if op == 'T':
            return z3.BoolVal(True)
        if op == 'F':
            return z3.BoolVal(False)
        if op == 'sp':
            return self.fresh('special')
        if op == 'v':
            r = {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[t.sort](t.args[0])
            self.vars[t] = r
            return r
        k = [self.memo[x] for x in T.kids(t)]
        if op == '+':
            return k[0] + k[1]
        if op == '*':
            return k[0] * k[1]
        if op == 'neg':
            return -k[0]
        if op == '/':
            if t.args[1].op == 'q':
                return k[0] / k[1]
            r = self.fresh('quot')
            self.ax.append(z3.Implies(k[1] != 0, r * k[1] == k[0]))
            return r
        if op == '<':
            return k[0] < k[1]
        if op == '<=':
            return k[0] <= k[1]
        if op == '==':
            return k[0] == k[1]
        if op == 'not':
            return z3.Not(k[0])
        if op == 'and':
            return z3.And(*k)
        if op == 'or':
            return z3.Or(*k)
        if op == 'ite':
            return z3.If(k[0], k[1], k[2])
        if op == 'toreal':
            return z3.ToReal(k[0])
        if op == 'truncr':
            r = self.fresh('trunc', 'I')
            a = k[0]
            self.ax.append(z3.If(a >= 0, z3.And(z3.ToReal(r) <= a, a < z3.ToReal(r) + 1),
                                 z3.And(z3.ToReal(r) >= a, a > z3.ToReal(r) - 1)))
            return r
        if op in ('divf', 'modf', 'divt'):
            a, b = k
            qv = self.fresh('q', 'I')
            rv = self.fresh('r', 'I')
            if op == 'divt':
                self.ax.append(z3.Implies(b != 0, z3.And(a == b * qv + rv,
                               z3.If(a >= 0, z3.And(rv >= 0, rv < z3.If(b > 0, b, -b)),
                                     z3.And(rv <= 0, rv > -z3.If(b > 0, b, -b))))))
                return qv
            self.ax.append(z3.Implies(b > 0, z3.And(a == b * qv + rv, rv >= 0, rv < b)))
            return qv if op == 'divf' else rv
        if op == 'uf':
            name = 'uf_%s_%s' % (t.args[0], '_'.join(map(str, t.args[1])))
            f = self.ufs.get((name, len(k)))
            if f is None:
                f = z3.Function(name, *([x.sort() for x in k] + [z3.RealSort()]))
                self.ufs[(name, len(k))] = f
            return f(*k)
        if op == 'arr':
            d = self.arr.setdefault(t.args[0], {})
            v = self.fresh('arr_' + t.args[0], t.sort)
            for idx, (w, zi) in d.items():
                self.ax.append(z3.Implies(zi == k[0], v == w))
            for f in self.arraxioms.get(t.args[0], ()):
                for idx, (w, zi) in list(d.items()):
                    self.ax.append(f(zi, w, k[0], v))
                    self.ax.append(f(k[0], v, zi, w))
                g = f(k[0], v, None, None)
                if g is not None:
                    self.ax.append(g)
            d[t.args[1]] = (v, k[0])
            return v
        if op == 'fn':
            return self.fn(t, k)
        raise NotImplementedError(op)

    def fn(self, t, k):
        n = t.args[0]
        a = k[0]
        if n == 'sqrt':
            s = self.fresh('sqrt')
            self.ax += [s >= 0, z3.Implies(a >= 0, s * s == a), z3.Implies(a > 0, s > 0)]
            return s
        if n == 'abs':
            return z3.If(a >= 0, a, -a)
        if n in ('sin', 'cos'):
            p = self.trig.get(t.args[1])
            if p is None:
                p = (self.fresh('sin'), self.fresh('cos'))
                self.trig[t.args[1]] = p
                self.ax += [p[0] * p[0] + p[1] * p[1] == 1]
                arg = t.args[1]
                pi = self.tr(PI)
                self.ax += [z3.Implies(z3.And(a > 0, a < pi), p[0] > 0), z3.Implies(z3.And(a >= 0, a <= pi), p[0] >= 0),
                            z3.Implies(z3.And(a > -pi, a < 0), p[0] < 0),
                            z3.Implies(z3.And(a > -pi / 2, a < pi / 2), p[1] > 0), z3.Implies(a == 0, z3.And(p[0] == 0, p[1] == 1)),
                            z3.Implies(z3.And(a > pi / 2, a <= pi), p[1] < 0)]
            return p[0] if n == 'sin' else p[1]
        if n == 'floor':
            i = z3.ToInt(a)
            return z3.ToReal(i)
        if n == 'ceil':
            return -z3.ToReal(z3.ToInt(-a))
        r = self.fresh(n)
        ap = self.fnapps.setdefault(n, [])
        if n == 'exp':
            self.ax += [r > 0, z3.Implies(a > 0, r > 1), z3.Implies(a < 0, r < 1), z3.Implies(a == 0, r == 1), r >= 1 + a]
        elif n == 'log':
            self.ax += [z3.Implies(a > 1, r > 0), z3.Implies(z3.And(a > 0, a < 1), r < 0), z3.Implies(a == 1, r == 0),
                        z3.Implies(a > 0, r <= a - 1)]
        elif n == 'log1p':
            self.ax += [z3.Implies(a > 0, r > 0), z3.Implies(z3.And(a > -1, a < 0), r < 0), z3.Implies(a > -1, r <= a),
                        z3.Implies(a == 0, r == 0)]
        elif n == 'pow':
            e = k[1]
            self.ax += [z3.Implies(a > 0, r > 0), z3.Implies(z3.And(a > 1, e > 0), r > 1), z3.Implies(z3.And(a > 1, e < 0), r < 1),
                        z3.Implies(z3.And(a > 0, a < 1, e > 0), r < 1), z3.Implies(z3.And(a > 0, a < 1, e < 0), r > 1),
                        z3.Implies(z3.And(a == 0, e > 0), r == 0), z3.Implies(e == 0, r == 1), z3.Implies(a == 1, r == 1)]
        elif n == 'atan2':
            pi = self.tr(PI)
            y, x = k
            self.ax += [r <= pi, r > -pi, z3.Implies(y > 0, z3.And(r > 0, r < pi)), z3.Implies(z3.And(y == 0, x > 0), r == 0),
                        z3.Implies(z3.And(y == 0, x < 0), r == pi), z3.Implies(z3.And(x > 0), z3.And(r > -pi / 2, r < pi / 2)),
                        z3.Implies(y < 0, z3.And(r < 0, r > -pi)), z3.Implies(y >= 0, r >= 0), z3.Implies(z3.And(y == 0, x == 0), r == 0), z3.Implies(z3.And(x < 0, y > 0), r > pi / 2)]
        elif n in ('acos',):
            pi = self.tr(PI)
            self.ax += [r >= 0, r <= pi]
        elif n in ('asin', 'atan'):
            pi = self.tr(PI)
            self.ax += [r >= -pi / 2, r <= pi / 2, z3.Implies(a > 0, r > 0), z3.Implies(a < 0, r < 0)]
        elif n in ('sinh', 'asinh', 'tanh', 'cbrt', 'erf'):
            self.ax += [z3.Implies(a > 0, r > 0), z3.Implies(a < 0, r < 0), z3.Implies(a == 0, r == 0)]
            if n in ('tanh', 'erf'):
                self.ax += [r < 1, r > -1]
        elif n == 'cosh':
            self.ax += [r >= 1]
        elif n in ('acosh',):
            self.ax += [r >= 0]
        if n in ('exp', 'log', 'sinh', 'asinh', 'tanh', 'atan', 'erf', 'cbrt', 'log1p'):
            for b, s in ap:
                dom = z3.And(a > 0, b > 0) if n == 'log' else z3.BoolVal(True)
                self.ax += [z3.Implies(z3.And(dom, a < b), r < s), z3.Implies(z3.And(dom, b < a), s < r), z3.Implies(a == b, r == s)]
        ap.append((a, r))
        return r


def check(lits, timeout=2000, arraxioms=None, want_model=False, extra=None):
    """sat/unsat/unknown of the conjunction of terms; returns (status, model dict)"""
    tr = Tr(arraxioms)
    es = [tr.tr(l) for l in lits]
    s = z3.Solver()
    s.set('timeout', timeout)
    s.set('rlimit', RL * max(1, timeout // 2000))
    for e in es:
        s.add(e)
    for a in tr.ax:
        if a is not None:
            s.add(a)
    for a in (extra or ()):
        s.add(a)
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        if not want_model:
            return 'sat', None
        m = s.model()
        out = {}
        for v, zv in tr.vars.items():
            x = m.eval(zv, model_completion=True)
            out[v] = num(x)
        arrs = {}
        for nm, d in tr.arr.items():
            for idx, (w, zi) in d.items():
                i = num(m.eval(zi, model_completion=True))
                arrs.setdefault(nm, {})[int(i)] = num(m.eval(w, model_completion=True))
        return 'sat', (out, arrs)
    return 'unknown', None


def num(x):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return float(x.as_fraction())
    if z3.is_algebraic_value(x):
        return float(x.approx(20).as_fraction())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return 0.0


def check_cvc5(lits, timeout=5, arraxioms=None):
    """second opinion through the SMT-LIB text interface"""
    import subprocess
    tr = Tr(arraxioms)
    es = [tr.tr(l) for l in lits]
    s = z3.Solver()
    for e in es + [a for a in tr.ax if a is not None]:
        s.add(e)
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), '--lang=smt2', '-'], input=txt, capture_output=True,
                           text=True, timeout=timeout + 5)
        o = r.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
