"""Approximate identities: terms as polynomials over atoms with high-precision numeric coefficients.
near(a, b, tol): every coefficient of a-b is within tol of the largest coefficients of a and b
(so |a-b| <= tol * sum |coefficient| |monomial| at every point)."""
from fractions import Fraction
import mpmath
from mpmath import mpf
from .terms import *
from . import terms as T


class TooBig(Exception):
    pass


class NP(object):
    def __init__(self, positive=lambda t: False, maxterms=20000, dps=40):
        self.memo = {}
        self.positive = positive
        self.maxterms = maxterms
        self.dps = dps
        self.dens = {}      # canonical form of a multi-term denominator -> its representative
        self.fns = {}       # canonical form of a function value -> its representative
        self.denpoly = {}   # representative -> polynomial

    def denom(self, p, t):
        """representative of a multi-term denominator and the factor by which it has to be multiplied"""
        lead = p[min(p, key=lambda m: [(k.id, e) for k, e in m])]
        if lead == 0:
            raise TooBig()
        p = {m: c / lead for m, c in p.items()}
        key = frozenset((m, mpmath.nstr(c, 28)) for m, c in p.items())
        r = self.dens.get(key)
        if r is None:
            r = self.dens[key] = t
            self.denpoly[t] = p
        return r, lead

    def clear(self, ps):
        """multiply the polynomials by the denominators that occur in them"""
        for d in list(self.denpoly):
            e = max([0] + [-x for p in ps for m in p for k, x in m if k is d])
            if not e and not any(k is d for p in ps for m in p for k, x in m):
                continue
            if any(k in self.denpoly and k is not d for m in self.denpoly[d] for k, x in m):
                return ps           # nested denominators
            out = []
            for p in ps:
                by = {}
                for m, c in p.items():
                    x = e + sum(x for k, x in m if k is d)
                    m = tuple((k, y) for k, y in m if k is not d)
                    by.setdefault(x, {})[m] = by.setdefault(x, {}).get(m, 0) + c
                tot = {}
                if by:
                    for x in range(max(by), -1, -1):    # Horner
                        if tot:
                            tot = self.mulp(tot, self.denpoly[d])
                        for m, c in by.get(x, {}).items():
                            tot[m] = tot.get(m, 0) + c
                out.append(tot)
            ps = out
        return ps

    def pythagoras(self, p):
        """cos^2 -> 1 - sin^2"""
        while True:
            for m in p:
                f = [(k, e) for k, e in m if e > 1 and k.op == 'fn' and k.args[0] == 'cos']
                if f:
                    break
            else:
                return p
            k, e = f[0]
            s = fn('sin', k.args[1])
            if s.op != 'fn':
                return p
            out = {}
            for m, c in p.items():
                e = dict(m).get(k, 0)
                if e < 2:
                    out[m] = out.get(m, 0) + c
                    continue
                m2 = self.mm(m, ((k, -2),))
                out[m2] = out.get(m2, 0) + c
                m2 = self.mm(m2, ((s, 2),))
                out[m2] = out.get(m2, 0) - c
            p = out

    def const(self, p):
        if not p:
            return mpf(0)
        if len(p) == 1 and () in p:
            return p[()]
        return None

    def atom(self, t):
        return {((t, 1),): mpf(1)}

    def mulp(self, p, r):
        if len(p) * len(r) > 400000:
            raise TooBig()
        out = {}
        for m1, c1 in p.items():
            for m2, c2 in r.items():
                m = self.mm(m1, m2)
                out[m] = out.get(m, 0) + c1 * c2
        if len(out) > self.maxterms:
            raise TooBig()
        return out

    def mm(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + e
        return tuple(sorted(((k, e) for k, e in d.items() if e), key=lambda x: x[0].id))

    def inv(self, p, t):
        c = self.const(p)
        if c is not None:
            if c == 0:
                raise TooBig()
            return {(): 1 / c}
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((k, -e) for k, e in m): 1 / c}
        if not p:
            raise TooBig()
        # the common denominator goes to the numerator
        f = {}
        for m in p:
            for k, e in m:
                if e < 0 and any(k is x for x in self.denpoly):
                    f[k] = min(f.get(k, 0), e)
        if f:
            up = tuple(sorted(((k, -e) for k, e in f.items()), key=lambda x: x[0].id))
            p = self.clear1({self.mm(m, up): c for m, c in p.items()})
            if len(p) == 1:
                return self.mulp(self.inv(p, t), {up: mpf(1)})
            d, c = self.denom(p, t)
            return {self.mm(((d, -1),), up): 1 / c}
        d, c = self.denom(p, t)
        return {((d, -1),): 1 / c}

    def clear1(self, p):
        """expand the positive powers of denominators"""
        for d in list(self.denpoly):
            if any(k is d and e > 0 for m in p for k, e in m):
                out = {}
                for m, c in p.items():
                    e = sum(x for k, x in m if k is d)
                    if e > 0:
                        r = {tuple((k, y) for k, y in m if k is not d): c}
                        for _ in range(e):
                            r = self.mulp(r, self.denpoly[d])
                    else:
                        r = {m: c}
                    for m2, c2 in r.items():
                        out[m2] = out.get(m2, 0) + c2
                p = out
        big = max([abs(c) for c in p.values()] + [mpf(0)])
        return {m: c for m, c in p.items() if abs(c) > big * mpf(10) ** -30}

    def nf(self, t):
        st = [t]
        while st:
            u = st[-1]
            if u in self.memo:
                st.pop()
                continue
            todo = [x for x in kids(u) if x not in self.memo]
            if todo:
                st.extend(todo)
                continue
            self.memo[u] = self.one(u)
            st.pop()
        return self.memo[t]

    def one(self, t):
        M = self.memo
        op = t.op
        if op == 'q' or op == 'i':
            x = Fraction(t.args[0])
            return {(): mpf(x.numerator) / x.denominator} if x else {}
        if op == 'pi':
            return {(): +mpmath.pi}
        if op == 'sp':
            raise TooBig()
        if op == '+':
            out = {}
            for k in kids(t):
                for m, c in M[k].items():
                    out[m] = out.get(m, 0) + c
            # numeric cancellation
            return {m: c for m, c in out.items() if c != 0}
        if op == '*':
            p = {(): mpf(1)}
            for k in kids(t):
                p = self.mulp(p, M[k])
            return {m: c for m, c in p.items() if c != 0}
        if op == 'neg':
            return {m: -c for m, c in M[t.args[0]].items()}
        if op == '/':
            r = self.inv(M[t.args[1]], t.args[1])
            return self.mulp(M[t.args[0]], r)
        if op == 'pow' or op == '^':
            n = t.args[1]
            n = n if isinstance(n, int) else n.args[0]
            if n < 0:
                r = self.inv(M[t.args[0]], t.args[0])
            else:
                r = M[t.args[0]]
            p = {(): mpf(1)}
            for _ in range(abs(n)):
                p = self.mulp(p, r)
            return p
        if op == 'toreal':
            return self.atom(t) if self.const(M[t.args[0]]) is None else M[t.args[0]]
        if op == 'fn':
            cs = [self.const(M[k]) for k in kids(t)]
            if all(c is not None for c in cs):
                v = T.evalf(fn(t.args[0], *[q(Fraction(int(mpmath.nint(c * mpf(10) ** 45)), 10 ** 45)) for c in cs]), {}, 40)
                return {(): v}
            if t.args[0] == 'sqrt':
                p = M[t.args[1]]
                if len(p) == 1:
                    (m, c), = p.items()
                    if c > 0 and all(e % 2 == 0 and self.positive(k) for k, e in m):
                        return {tuple((k, e // 2) for k, e in m): mpmath.sqrt(c)}
            try:
                key = (t.args[0],) + tuple(frozenset((m, mpmath.nstr(c, 14)) for m, c in M[k].items()) for k in kids(t))
            except TooBig:
                return self.atom(t)
            return self.atom(self.fns.setdefault(key, t))
        return self.atom(t)


def near(a, b, tol, positive=lambda t: False):
    """(holds, worst relative coefficient difference)"""
    old = T.mp.dps
    T.mp.dps = 40
    try:
        n = NP(positive)
        p, r = n.nf(a), n.nf(b)
        p, r = n.clear([p, r])
        p, r = n.pythagoras(p), n.pythagoras(r)
        sc = max([abs(c) for c in list(p.values()) + list(r.values())] + [mpf(0)])
        if sc == 0:
            return True, 0
        w = max(abs(p.get(m, 0) - r.get(m, 0)) for m in set(p) | set(r)) / sc
        return bool(w <= tol), float(w)
    finally:
        T.mp.dps = old
