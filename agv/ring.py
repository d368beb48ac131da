"""Exact algebra prover: normal forms of real terms as

      coef * prod_i  f_i^{e_i} * N

over atoms (variables, roots, trig pairs, exp/log/pow/atan2 and uninterpreted atoms), with
the algebraic relations of the atoms (s^2=u, c^2=1-s^2, ...) built in.  `iszero` is exact in one
direction: a True answer is a proof (modulo the sign facts obtained from the oracle, each of
which is itself proved by SMT / structural reasoning from the path condition)."""
from fractions import Fraction
from math import gcd, isqrt
from .terms import *
from . import terms as T

BITS = 12
MASKE = (1 << BITS) - 1


class TooBig(Exception):
    pass


class Undecided(Exception):
    pass


class Atom(object):
    __slots__ = ('idx', 'kind', 'data', 'shift', 'q', 'u', 'nonneg')

    def __repr__(self):
        return '%s%d' % (self.kind, self.idx)


class RF(object):
    """coef * prod polys[f]^e * N ; N: dict mono->int with content 1 and no monomial content"""
    __slots__ = ('c', 'f', 'n')

    def __init__(self, c, f, n):
        self.c = c
        self.f = f
        self.n = n


ONEP = {0: 1}


class Ring(object):
    def __init__(self, oracle=None, limit=60000, deadline=None):
        self.atoms = []
        self.polys = []          # polyid -> dict
        self.polyidx = {}
        self.memo = {}
        self.atomidx = {}
        self.byfn = {}           # fn name -> list of (args RF list, atom)
        self.oracle = oracle     # object with sign(ring, poly) -> 1/-1/0/None
        self.limit = limit
        self.redmask = 0
        self.signcache = {}
        self.faccache = {}
        self.trig = {}           # key -> (sinatom, cosatom, RFarg)
        self.deadline = deadline
        self.ops = 0

    # ---- atoms -------------------------------------------------------------------------
    def newatom(self, kind, data, q=0, u=None, nonneg=False):
        a = Atom()
        a.idx = len(self.atoms)
        a.kind = kind
        a.data = data
        a.shift = a.idx * BITS
        a.q = q
        a.u = u                  # polyid for q-th power, if q>0
        a.nonneg = nonneg
        self.atoms.append(a)
        if q:
            # exponents >= q must be reduced
            if q == 2:
                self.redmask |= (MASKE ^ 1) << a.shift
            else:
                self.redmask |= (MASKE ^ 1) << a.shift   # conservative: re-checked
        return a

    def atompoly(self, a):
        return self.polyid({1 << a.shift: 1})

    # ---- polynomials -------------------------------------------------------------------
    def polyid(self, p):
        k = frozenset(p.items())
        i = self.polyidx.get(k)
        if i is None:
            i = len(self.polys)
            self.polys.append(p)
            self.polyidx[k] = i
        return i

    def check(self, n=1):
        self.ops += n
        if self.deadline and self.ops > 2000:
            self.ops = 0
            import time
            if time.time() > self.deadline:
                raise TooBig('time limit')

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a) == 1:
            (m, c), = a.items()
            if m == 0:
                r = b if c == 1 else {k: v * c for k, v in b.items()}
                return r
            r = {k + m: v * c for k, v in b.items()}
            self.check(len(r))
        else:
            r = {}
            for m, c in a.items():
                self.check(len(b))
                for k, v in b.items():
                    s = m + k
                    n = r.get(s)
                    r[s] = v * c if n is None else n + v * c
                if len(r) > self.limit:
                    raise TooBig('polynomial with more than %d terms' % self.limit)
        return self.reduce(r)

    def reduce(self, p):
        M = self.redmask
        while True:
            bad = None
            good = {}
            for m, c in p.items():
                if not c:
                    continue
                if m & M:
                    at = self._redatom(m)
                    if at is not None:
                        if bad is None:
                            bad = {}
                        bad.setdefault((at[0], at[1]), {})[m - ((at[1] * at[0].q) << at[0].shift)] = c
                        continue
                good[m] = c
            if bad is None:
                return good
            for (a, k), q in bad.items():
                u = self.ppow(self.polys[a.u], k)
                r = {}
                self.check(len(u) * len(q))
                for m, c in q.items():
                    for mm, cc in u.items():
                        s = m + mm
                        n = r.get(s)
                        r[s] = c * cc if n is None else n + c * cc
                for m, c in r.items():
                    n = good.get(m)
                    good[m] = c if n is None else n + c
                if len(good) > self.limit:
                    raise TooBig('polynomial too large in reduction')
            p = good

    def _redatom(self, m):
        # highest reducible atom first
        i = 0
        x = m & self.redmask
        while x:
            hb = x.bit_length() - 1
            a = self.atoms[hb // BITS]
            e = (m >> a.shift) & MASKE
            if a.q and e >= a.q:
                return (a, e // a.q)
            x &= ~(MASKE << a.shift)
        return None

    def ppow(self, p, n):
        r = ONEP
        while n:
            if n & 1:
                r = self.pmul(r, p)
            n >>= 1
            if n:
                p = self.pmul(p, p)
        return r

    def padd(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            n = r.get(m, 0) + s * c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return r

    # ---- RF ----------------------------------------------------------------------------
    def const(self, c):
        return RF(Fraction(c), {}, ONEP)

    def fromatom(self, a):
        return RF(Fraction(1), {self.atompoly(a): 1}, ONEP)

    def isz(self, r):
        return r.c == 0 or not r.n

    def norm(self, c, f, n):
        """extract content & monomial content of n; normalise root exponents in f"""
        if not n or c == 0:
            return RF(Fraction(0), {}, {})
        g = 0
        for v in n.values():
            g = gcd(g, v)
            if g == 1:
                break
        lead = n[max(n)]
        if lead < 0:
            g = -g
        if g != 1:
            n = {m: v // g for m, v in n.items()}
            c = c * g
        f = dict(f)
        if len(n) == 1:
            (m, v), = n.items()
            if m:
                self._addmono(f, m)
            n = ONEP
        elif 0 not in n:
            # monomial content
            it = iter(n)
            ex = {}
            m0 = next(it)
            x = m0
            while x:
                hb = x.bit_length() - 1
                i = hb // BITS
                ex[i] = (m0 >> (i * BITS)) & MASKE
                x &= ~(MASKE << (i * BITS))
            for m in it:
                for i in list(ex):
                    e = (m >> (i * BITS)) & MASKE
                    if e < ex[i]:
                        if e:
                            ex[i] = e
                        else:
                            del ex[i]
                if not ex:
                    break
            if ex:
                mc = sum(e << (i * BITS) for i, e in ex.items())
                n = {m - mc: v for m, v in n.items()}
                self._addmono(f, mc)
        return self._rootnorm(c, f, n)

    def _addmono(self, f, m):
        x = m
        while x:
            hb = x.bit_length() - 1
            i = hb // BITS
            e = (m >> (i * BITS)) & MASKE
            pid = self.atompoly(self.atoms[i])
            f[pid] = f.get(pid, 0) + e
            x &= ~(MASKE << (i * BITS))

    def _rootnorm(self, c, f, n):
        again = True
        while again:
            again = False
            for pid in list(f):
                e = f[pid]
                if e == 0:
                    del f[pid]
                    continue
                p = self.polys[pid]
                if len(p) == 1:
                    (m, v), = p.items()
                    if m == 0:
                        c = c * Fraction(v) ** e
                        del f[pid]
                        again = True
                        continue
                    a = self.atoms[(m.bit_length() - 1) // BITS]
                    if a.q and not (0 <= e < a.q):
                        k = e // a.q
                        r = e - k * a.q
                        if r:
                            f[pid] = r
                        else:
                            del f[pid]
                        uf_ = self.facs(a.u)
                        c = c * uf_[0] ** k
                        for pj, ej in uf_[1].items():
                            f[pj] = f.get(pj, 0) + ej * k
                        again = True
        return RF(c, f, n)

    def facs(self, pid):
        """(coef, {pid: exp}) factorisation of a registered polynomial (possibly trivial)"""
        r = self.faccache.get(pid)
        if r is None:
            r = self._facs(pid)
            self.faccache[pid] = r
        return r

    def _facs(self, pid):
        p = self.polys[pid]
        one = (Fraction(1), {pid: 1})
        if len(p) == 1:
            (m, v), = p.items()
            f = {}
            if m:
                self._addmono(f, m)
            return (Fraction(v), f)
        n = self.norm(Fraction(1), {}, p)
        c, f, q = n.c, dict(n.f), n.n
        if q == ONEP:
            return (c, f)
        if 2 <= len(q) <= 40:
            try:
                c2, fl = self._sympyfactor(q)
                c *= c2
                for g, e in fl:
                    j = self.polyid(g)
                    f[j] = f.get(j, 0) + e
                return (c, f)
            except TooBig:
                raise
            except Exception:
                pass
        j = self.polyid(q)
        f[j] = f.get(j, 0) + 1
        return (c, f)

    def _sympyfactor(self, p):
        from sympy.polys.rings import ring as spring
        from sympy import ZZ
        idx = set()
        for m in p:
            x = m
            while x:
                i = (x.bit_length() - 1) // BITS
                idx.add(i)
                x &= ~(MASKE << (i * BITS))
        idx = sorted(idx)
        deg = max(sum((m >> (i * BITS)) & MASKE for i in idx) for m in p)
        if deg > 12 or len(idx) > 9:
            raise ValueError
        R = spring(['a%d' % i for i in idx], ZZ)[0]
        P_ = R.from_dict({tuple((m >> (i * BITS)) & MASKE for i in idx): ZZ(v) for m, v in p.items()})
        c, fl = P_.factor_list()
        out = []
        for g, e in fl:
            d = {sum(int(ee) << (i * BITS) for ee, i in zip(mon, idx)): int(v) for mon, v in g.items()}
            lead = d[max(d)]
            if lead < 0:
                d = {m: -v for m, v in d.items()}
                if e % 2:
                    c = -c
            out.append((d, e))
        return Fraction(int(c)), out

    def mul(self, a, b):
        if self.isz(a) or self.isz(b):
            return self.const(0)
        f = dict(a.f)
        for k, e in b.f.items():
            f[k] = f.get(k, 0) + e
        if a.n == ONEP:
            n = b.n
        elif b.n == ONEP:
            n = a.n
        elif len(a.n) * len(b.n) > 36 or a.n == b.n:
            # keep both as factors
            i = self.polyid(a.n)
            f[i] = f.get(i, 0) + 1
            n = b.n
            i = self.polyid(n)
            f[i] = f.get(i, 0) + 1
            n = ONEP
        else:
            n = self.pmul(a.n, b.n)
            return self.norm(a.c * b.c, f, n)
        return self._rootnorm(a.c * b.c, f, n)

    def inv(self, a):
        if self.isz(a):
            raise Undecided('division by zero')
        f = {k: -e for k, e in a.f.items()}
        if a.n != ONEP:
            c, fl = self.facs(self.polyid(a.n))
            for k, e in fl.items():
                f[k] = f.get(k, 0) - e
            return self._rootnorm(1 / (a.c * c), f, ONEP)
        return self._rootnorm(1 / a.c, f, ONEP)

    def powi(self, a, n):
        if n == 0:
            return self.const(1)
        if n < 0:
            return self.powi(self.inv(a), -n)
        f = {k: e * n for k, e in a.f.items()}
        if a.n != ONEP:
            i = self.polyid(a.n)
            f[i] = f.get(i, 0) + n
        return self._rootnorm(a.c ** n, f, ONEP)

    def neg(self, a):
        return RF(-a.c, a.f, a.n)

    def addmany(self, xs):
        """sum of RFs over their common factors"""
        xs = [x for x in xs if not self.isz(x)]
        if not xs:
            return self.const(0)
        if len(xs) == 1:
            return xs[0]
        # merge identical (f,n)
        acc = {}
        for x in xs:
            k = (frozenset(x.f.items()), frozenset(x.n.items()))
            if k in acc:
                acc[k] = RF(acc[k].c + x.c, x.f, x.n)
            else:
                acc[k] = x
        xs = [x for x in acc.values() if x.c != 0]
        if not xs:
            return self.const(0)
        if len(xs) == 1:
            return xs[0]
        keys = set()
        for x in xs:
            keys.update(x.f)
        common = {}
        for k in keys:
            e = min(x.f.get(k, 0) for x in xs)
            if e:
                common[k] = e
        d = 1
        for x in xs:
            d = d * x.c.denominator // gcd(d, x.c.denominator)
        tot = {}
        for x in xs:
            c = int(x.c * d)
            p = {0: c}
            ms = 0
            rest = []
            for k in keys:
                e = x.f.get(k, 0) - common.get(k, 0)
                if e:
                    q = self.polys[k]
                    if len(q) == 1:
                        (m, v), = q.items()
                        ms += m * e
                        if v != 1:
                            p = {mm: cc * v ** e for mm, cc in p.items()}
                    else:
                        rest.append((len(q), k, e))
            p = {m + ms: cc for m, cc in p.items()}
            p = self.reduce(p)
            for _, k, e in sorted(rest):
                p = self.pmul(p, self.ppow(self.polys[k], e))
            if x.n != ONEP:
                p = self.pmul(p, x.n)
            for m, v in p.items():
                n = tot.get(m, 0) + v
                if n:
                    tot[m] = n
                else:
                    tot.pop(m, None)
            if len(tot) > self.limit:
                raise TooBig('sum too large')
        return self.norm(Fraction(1, d), common, tot)

    def add(self, a, b):
        return self.addmany([a, b])

    # ---- signs -------------------------------------------------------------------------
    def sign(self, pid):
        r = self.signcache.get(pid, 7)
        if r == 7:
            r = self._sign(pid)
            self.signcache[pid] = r
        return r

    def _sign(self, pid):
        p = self.polys[pid]
        # structural: all coefficients of one sign & all atoms nonneg or even powers
        pos = all(self._mononn(m) for m in p)
        if pos:
            if all(v > 0 for v in p.values()):
                # strictly positive unless it vanishes identically at a point: assume generic (see oracle)
                return 1
            if all(v < 0 for v in p.values()):
                return -1
        if self.oracle:
            return self.oracle.sign(self, p)
        return None

    def _mononn(self, m):
        x = m
        while x:
            i = (x.bit_length() - 1) // BITS
            e = (m >> (i * BITS)) & MASKE
            if e % 2:
                a = self.atoms[i]
                if not a.nonneg:
                    if a.kind == 'v' and self.oracle and self.oracle.varsign(a.data) == 1:
                        a.nonneg = True
                    else:
                        return False
            x &= ~(MASKE << (i * BITS))
        return True

    def signrf(self, r):
        if self.isz(r):
            return 0
        s = 1 if r.c > 0 else -1
        for k, e in r.f.items():
            if e % 2:
                t = self.sign(k)
                if t is None:
                    return self._signwhole(r)
                s *= t
        if r.n != ONEP:
            t = self.sign(self.polyid(r.n))
            if t is None:
                return self._signwhole(r)
            s *= t
        return s

    def _signwhole(self, r):
        """sign via the product of the odd factors, expanded"""
        try:
            p = r.n
            for k, e in r.f.items():
                if e % 2:
                    p = self.pmul(p, self.polys[k])
        except TooBig:
            return None
        n = self.norm(Fraction(1), {}, p)
        if self.isz(n):
            return 0
        s = self.sign(self.polyid(p))
        if s is None:
            return None
        return s if r.c > 0 else -s

    # ---- functions ---------------------------------------------------------------------
    def rootof(self, pid, q):
        """atom for the q-th root of a (positive) polynomial"""
        key = ('root', q, pid)
        a = self.atomidx.get(key)
        if a is None:
            a = self.newatom('root', (q, pid), q, pid, True)
            self.atomidx[key] = a
        return a

    def rootint(self, n, q):
        """RF for the q-th root of a positive integer"""
        out = Fraction(1)
        rest = self.const(1)
        d = 2
        m = n
        fs = {}
        while d * d <= m and d < 2000:
            while m % d == 0:
                fs[d] = fs.get(d, 0) + 1
                m //= d
            d += 1
        if m > 1:
            s = isqrt(m)
            if s * s == m:
                fs[s] = fs.get(s, 0) + 2
            else:
                fs[m] = fs.get(m, 0) + 1
        for pr, e in fs.items():
            out *= Fraction(pr) ** (e // q)
            if e % q:
                a = self.rootof(self.polyid({0: pr}), q)
                rest = self.mul(rest, self.powi(self.fromatom(a), e % q))
        return RF(rest.c * out, rest.f, rest.n)

    def ratpow(self, r, e):
        """r**e for rational e (r assumed >= 0 where this is evaluated)"""
        e = Fraction(e)
        if e.denominator == 1:
            return self.powi(r, int(e))
        q, p = e.denominator, e.numerator
        if self.isz(r):
            return self.const(0)
        c, f = r.c, dict(r.f)
        if r.n != ONEP:
            cc, fl = self.facs(self.polyid(r.n))
            c = c * cc
            for k, x in fl.items():
                f[k] = f.get(k, 0) + x
        out = self.const(1)
        s = 1 if c > 0 else -1
        c = abs(c)
        unk = []
        for k, x in f.items():
            if x == 0:
                continue
            sub = self.facs(k)
            # refine composite factors
            if not (len(sub[1]) == 1 and sub[0] == 1 and k in sub[1]):
                f2 = dict(f)
                del f2[k]
                for kk, xx in sub[1].items():
                    f2[kk] = f2.get(kk, 0) + xx * x
                return self.ratpow(self._rootnorm(c * s * sub[0] ** x, f2, ONEP), e)
        for k, x in f.items():
            if q % 2 == 0:
                # pull out the part that is a perfect q-th power in absolute value
                w = x // q if x % q == 0 else None
                if w is not None:
                    out = self.mul(out, self.powi(self.absrf(k), w * p))
                    continue
                sg = self.sign(k)
                if sg is None:
                    unk.append((k, x))
                    continue
                if sg == 1:
                    a = self.rootpoly(k, q)
                    out = self.mul(out, self.powi(a, x * p))
                else:
                    # (-f) is positive
                    neg = self.polyid({m: -v for m, v in self.polys[k].items()})
                    self.signcache[neg] = 1
                    a = self.rootpoly(neg, q)
                    out = self.mul(out, self.powi(a, x * p))
                    if x % 2:
                        s = -s
            else:
                a = self.rootpoly(k, q)
                out = self.mul(out, self.powi(a, x * p))
        if unk:
            # the product of the unknown-sign factors (with sign s) must be positive
            prod = self.const(s)
            for k, x in unk:
                prod = self.mul(prod, self.powi(self.frompoly(k), x))
            s = 1
            if len(unk) == 1 and unk[0][1] in (1, -1):
                k, x = unk[0]
                if prod.c < 0:
                    k = self.polyid({m: -v for m, v in self.polys[k].items()})
                self.signcache.setdefault(k, 1)
                out = self.mul(out, self.powi(self.rootpoly(k, q), x * p))
            else:
                num = self.const(prod.c)
                for k, x in unk:
                    num = self.mul(num, self.powi(self.frompoly(k), x % 2))
                    out = self.mul(out, self.powi(self.absrf(k), (x - x % 2) // 2 * p)) if q == 2 else self._und()
                pp = self.expand(num)
                k = self.polyid({m: v for m, v in pp.items()})
                out = self.mul(out, self.powi(self.rootpoly(k, q), p))
        if s < 0:
            raise Undecided('even root of a negative quantity')
        rc = self.mul(self.rootint(c.numerator, q), self.inv(self.rootint(c.denominator, q)))
        return self.mul(out, self.powi(rc, p))

    def _und(self):
        raise Undecided('root')

    def rootpoly(self, k, q):
        p = self.polys[k]
        if len(p) == 1:
            (m, v), = p.items()
            if m:
                a = self.atoms[(m.bit_length() - 1) // BITS]
                if a.kind == 'root' and v == 1 and m == 1 << a.shift and a.data[0] * q <= 12:
                    # nested root: (u^(1/q'))^(1/q)
                    return self.fromatom(self.rootof(a.u, a.data[0] * q)) if False else self.fromatom(self.rootof(k, q))
        return self.fromatom(self.rootof(k, q))

    def frompoly(self, k):
        return RF(Fraction(1), {k: 1}, ONEP)

    def expand(self, r):
        """polynomial of an RF with non-negative exponents (integer coefficient)"""
        p = {0: r.c.numerator}
        if r.c.denominator != 1:
            raise Undecided('expand')
        for k, e in r.f.items():
            if e < 0:
                raise Undecided('expand')
            p = self.pmul(p, self.ppow(self.polys[k], e))
        return self.pmul(p, r.n)

    def absrf(self, k):
        s = self.sign(k)
        if s == 1:
            return self.frompoly(k)
        if s == -1:
            return self.neg(self.frompoly(k))
        key = ('abs', k)
        a = self.atomidx.get(key)
        if a is None:
            p = self.polys[k]
            a = self.newatom('abs', k, 2, self.polyid(self.pmul(p, p)), True)
            self.atomidx[key] = a
        return self.fromatom(a)

    def allfac(self, r):
        """(coef, {pid:exp}) with n factored as well"""
        c, f = r.c, {}
        items = list(r.f.items())
        if r.n != ONEP:
            items.append((self.polyid(r.n), 1))
        for k, e in items:
            cc, fl = self.facs(k)
            c *= cc ** e
            for kk, ee in fl.items():
                f[kk] = f.get(kk, 0) + ee * e
        return c, {k: e for k, e in f.items() if e}

    def abs(self, r):
        if self.isz(r):
            return r
        c, f = self.allfac(r)
        out = self.const(abs(c))
        for k, e in f.items():
            if e % 2 == 0:
                out = self.mul(out, self.powi(self.frompoly(k), e))
            else:
                out = self.mul(out, self.powi(self.absrf(k), e))
        return out

    def fnatom(self, name, args, nonneg=False):
        lst = self.byfn.setdefault((name, len(args)), [])
        for xs, a in lst:
            if all(self.same(x, y) for x, y in zip(xs, args)):
                return a
        a = self.newatom(name, args, 0, None, nonneg)
        lst.append((args, a))
        return a

    def same(self, x, y):
        if x is y or (x.c == y.c and x.f == y.f and x.n == y.n):
            return True
        return self.isz(self.add(x, self.neg(y)))

    def split_sum(self, r):
        """r as list of (rational, RF-monomial with unit coef) when the denominator is trivial or
        factorable as common multiplier; returns list of (c, monomial key RF)"""
        if r.n == ONEP:
            return [(r.c, RF(Fraction(1), r.f, ONEP))]
        out = []
        for m, v in sorted(r.n.items()):
            x = self.norm(Fraction(1), r.f, {m: 1})
            out.append((r.c * v * x.c, RF(Fraction(1), x.f, x.n)))
        return out

    def sincos(self, r):
        """(sin r, cos r)"""
        if self.isz(r):
            return self.const(0), self.const(1)
        s, c = self.const(0), self.const(1)
        for k, m in self.split_sum(r):
            s1, c1 = self._sc1(k, m)
            s, c = (self.add(self.mul(s, c1), self.mul(c, s1)),
                    self.add(self.mul(c, c1), self.neg(self.mul(s, s1))))
        return s, c

    def _sc1(self, k, m):
        # multiples of pi
        if m.n == ONEP and len(m.f) == 1:
            (pid, e), = m.f.items()
            if e == 1 and pid == self.polyidx.get(frozenset({1 << self._pi().shift: 1}.items())):
                k2 = k * 2
                if k2.denominator == 1:
                    j = int(k2) % 4
                    return self.const([0, 1, 0, -1][j]), self.const([1, 0, -1, 0][j])
                if (k * 4).denominator == 1:
                    j = int(k * 4) % 8
                    h = self.mul(self.const(Fraction(1, 2)), self.rootint(2, 2))
                    sg = {1: (1, 1), 3: (1, -1), 5: (-1, -1), 7: (-1, 1)}[j]
                    return (h if sg[0] > 0 else self.neg(h)), (h if sg[1] > 0 else self.neg(h))
        if m.n == ONEP and k.denominator == 1 and k.numerator % 2 == 0 and len(m.f) > 1 and self._intmult_pi(m):
            return self.const(0), self.const(1)
        s, c = self._scbase(m, k.denominator)
        n = abs(k.numerator)
        S, C = self.const(0), self.const(1)
        bs, bc = s, c
        while n:
            if n & 1:
                S, C = (self.add(self.mul(S, bc), self.mul(C, bs)), self.add(self.mul(C, bc), self.neg(self.mul(S, bs))))
            n >>= 1
            if n:
                bs, bc = (self.mul(self.const(2), self.mul(bs, bc)),
                          self.add(self.const(1), self.neg(self.mul(self.const(2), self.mul(bs, bs)))))
        if k < 0:
            S = self.neg(S)
        return S, C

    def _intmult_pi(self, m):
        """is the unit monomial m equal to pi times integer-valued atoms?"""
        npi = 0
        for pid, e in m.f.items():
            p = self.polys[pid]
            if len(p) != 1 or list(p.values()) != [1] or Fraction(e).denominator != 1 or e < 1:
                return False
            (mono,) = p
            at = self.atoms[(mono.bit_length() - 1) // BITS]
            if mono != 1 << at.shift:
                return False
            if at.kind == 'pi':
                npi += e
            elif not (at.kind in ('floor', 'ceil') or at.kind == 'v' and at.data.op == 'toreal'):
                return False
        return npi == 1

    def _pi(self):
        a = self.atomidx.get('pi')
        if a is None:
            a = self.newatom('pi', None, 0, None, True)
            self.atomidx['pi'] = a
        return a

    def _scbase(self, m, q):
        """(sin, cos) of m/q for a unit monomial m"""
        for xs, qq, s, c in self.byfn.setdefault('trig', []):
            if qq == q and self.same(xs, m):
                return s, c
        res = None
        if q == 1 and m.n == ONEP and len(m.f) == 1:
            (pid, e), = m.f.items()
            p = self.polys[pid]
            if e == 1 and len(p) == 1:
                a = self.atoms[(max(p).bit_length() - 1) // BITS]
                if a.kind == 'atan2':
                    y, x = a.data
                    h = self.ratpow(self.add(self.mul(y, y), self.mul(x, x)), Fraction(-1, 2))
                    res = self.mul(y, h), self.mul(x, h)
                elif a.kind == 'atan':
                    y, = a.data
                    h = self.ratpow(self.add(self.mul(y, y), self.const(1)), Fraction(-1, 2))
                    res = self.mul(y, h), h
                elif a.kind == 'acos':
                    y, = a.data
                    res = self.ratpow(self.add(self.const(1), self.neg(self.mul(y, y))), Fraction(1, 2)), y
                elif a.kind == 'asin':
                    y, = a.data
                    res = y, self.ratpow(self.add(self.const(1), self.neg(self.mul(y, y))), Fraction(1, 2))
        if res is None:
            sa = self.newatom('sin', (m, q))
            s = self.fromatom(sa)
            # cos^2 -> 1 - sin^2
            ca = self.newatom('cos', (m, q), 2, self.polyid({0: 1, 2 << sa.shift: -1}))
            c = self.fromatom(ca)
            res = s, c
        self.byfn['trig'].append((m, q, res[0], res[1]))
        return res

    def log(self, r):
        if self.isz(r):
            raise Undecided('log 0')
        c, f = self.allfac(r)
        s = 1 if c > 0 else -1
        out = []
        unk = []
        for k, e in f.items():
            sg = self.sign(k)
            if sg is None:
                unk.append((k, e))
                continue
            p = self.polys[k]
            if sg < 0:
                k = self.polyid({m: -v for m, v in p.items()})
                if e % 2:
                    s = -s
            out.append(self.mul(self.const(e), self._logpos(k)))
        if unk:
            if len(unk) == 1 and unk[0][1] % 2:
                k, e = unk[0]
                if s < 0:
                    k = self.polyid({m: -v for m, v in self.polys[k].items()})
                    s = 1
                out.append(self.mul(self.const(e), self._logpos(k)))
            else:
                return self.fromatom(self.fnatom('log', [r]))
        elif s < 0:
            raise Undecided('log of a negative quantity')
        c = abs(c)
        for z, sg in ((c.numerator, 1), (c.denominator, -1)):
            d = 2
            m = z
            fs = {}
            while d * d <= m and d < 2000:
                while m % d == 0:
                    fs[d] = fs.get(d, 0) + 1
                    m //= d
                d += 1
            if m > 1:
                fs[m] = fs.get(m, 0) + 1
            for pr, e in fs.items():
                out.append(self.mul(self.const(sg * e), self.fromatom(self.fnatom('log', [self.const(pr)]))))
        return self.addmany(out)

    def _logpos(self, k):
        p = self.polys[k]
        if len(p) == 1:
            (m, v), = p.items()
            if v == 1 and m:
                a = self.atoms[(m.bit_length() - 1) // BITS]
                if m == 1 << a.shift:
                    if a.kind == 'exp':
                        return a.data[0]
                    if a.kind == 'root':
                        return self.mul(self.const(Fraction(1, a.q)), self.log(self.frompoly(a.u)))
        return self.fromatom(self.fnatom('log', [self.frompoly(k)]))

    def exp(self, r):
        if self.isz(r):
            return self.const(1)
        out = self.const(1)
        for k, m in self.split_sum(r):
            # exp(k * e * log(f)) = f^(k e) when m is a log atom; products e*log(f) stay atoms
            if m.n == ONEP and len(m.f) == 1:
                (pid, e), = m.f.items()
                p = self.polys[pid]
                if e == 1 and len(p) == 1:
                    a = self.atoms[(max(p).bit_length() - 1) // BITS]
                    if a.kind == 'log':
                        out = self.mul(out, self.ratpow(a.data[0], k))
                        continue
            a = self.fnatom('exp', [m], True)
            out = self.mul(out, self.ratpow(self.fromatom(a), k))
        return out

    def atan2(self, y, x):
        if self.isz(y):
            s = self.signrf(x)
            if s == 1:
                return self.const(0)
            if s == -1:
                return self.fromatom(self._pi())
        # trig pairs
        for m, q, s, c in self.byfn.get('trig', ()):
            try:
                if self.isz(self.add(self.mul(y, c), self.neg(self.mul(x, s)))):
                    d = self.add(self.mul(x, c), self.mul(y, s))
                    if self.signrf(d) == 1 and self.oracle:
                        arg = self.mul(self.const(Fraction(1, q)), m)
                        if self.oracle.inrange(self, arg):
                            return arg
            except TooBig:
                pass
        # remove common positive factors
        cy, fy = self.allfac(y)
        cx, fx = self.allfac(x)
        if self.isz(x) or self.isz(y):
            return self.fromatom(self.fnatom('atan2', [y, x]))
        g = Fraction(1)
        a = abs(cy)
        cy, cx = cy / a, cx / a
        for k in set(fy) | set(fx):
            e = min(fy.get(k, 0), fx.get(k, 0)) if k in fy and k in fx else min(fy.get(k, 0), fx.get(k, 0), 0)
            if e == 0:
                continue
            if e % 2 and self.sign(k) != 1:
                if self.sign(k) == -1:
                    cy, cx = -cy, -cx
                else:
                    e = e - (e % 2) if e > 0 else e - 1 if (e % 2) else e
                    if e < 0:
                        pass
            fy[k] = fy.get(k, 0) - e
            fx[k] = fx.get(k, 0) - e
        y2 = self._rootnorm(cy, {k: e for k, e in fy.items() if e}, ONEP)
        x2 = self._rootnorm(cx, {k: e for k, e in fx.items() if e}, ONEP)
        return self.fromatom(self.fnatom('atan2', [y2, x2]))

    def nf(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        stack = [t]
        memo = self.memo
        while stack:
            u = stack[-1]
            if u in memo:
                stack.pop()
                continue
            if u.op == '+':
                # flatten sums
                parts = []
                st = [u]
                while st:
                    w = st.pop()
                    if w.op == '+' and w.sort == 'R' and w not in memo:
                        st.extend(w.args)
                    else:
                        parts.append(w)
                todo = [w for w in parts if w not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                memo[u] = self.addmany([memo[w] for w in parts])
                stack.pop()
                continue
            if u.op in ('arr', 'toreal'):
                memo[u] = self._nf1(u)
                stack.pop()
                continue
            todo = [k for k in T.kids(u) if k not in memo and k.sort == 'R']
            if todo:
                stack.extend(todo)
                continue
            memo[u] = self._nf1(u)
            stack.pop()
        return memo[t]

    def _nf1(self, t):
        op = t.op
        M = self.memo
        if op == 'q':
            return RF(t.args[0], {}, ONEP)
        if op == 'pi':
            return self.fromatom(self._pi())
        if op in ('v', 'arr', 'toreal'):
            a = self.atomidx.get(t)
            if a is None:
                a = self.newatom('v', t)
                self.atomidx[t] = a
                if self.oracle and self.oracle.varsign(t) == 1:
                    a.nonneg = True
            return self.fromatom(a)
        if op == '*':
            return self.mul(M[t.args[0]], M[t.args[1]])
        if op == 'neg':
            return self.neg(M[t.args[0]])
        if op == '/':
            return self.mul(M[t.args[0]], self.inv(M[t.args[1]]))
        if op == 'uf':
            args = [M[x] for x in t.args[2:]]
            return self.fromatom(self.fnatom(('uf', t.args[0], t.args[1]), args))
        if op == 'fn':
            n = t.args[0]
            a = M[t.args[1]]
            if n == 'sqrt':
                return self.ratpow(a, Fraction(1, 2))
            if n == 'cbrt':
                return self.ratpow(a, Fraction(1, 3))
            if n == 'abs':
                return self.abs(a)
            if n == 'sin':
                return self.sincos(a)[0]
            if n == 'cos':
                return self.sincos(a)[1]
            if n == 'tan':
                s, c = self.sincos(a)
                return self.mul(s, self.inv(c))
            if n == 'exp':
                return self.exp(a)
            if n == 'log':
                return self.log(a)
            if n == 'log1p':
                return self.log(self.add(self.const(1), a))
            if n == 'expm1':
                return self.add(self.exp(a), self.const(-1))
            if n in ('sinh', 'cosh', 'tanh'):
                e = self.exp(a)
                ei = self.inv(e)
                sh = self.mul(self.const(Fraction(1, 2)), self.add(e, self.neg(ei)))
                ch = self.mul(self.const(Fraction(1, 2)), self.add(e, ei))
                return sh if n == 'sinh' else ch if n == 'cosh' else self.mul(sh, self.inv(ch))
            if n == 'asinh':
                return self.log(self.add(a, self.ratpow(self.add(self.mul(a, a), self.const(1)), Fraction(1, 2))))
            if n == 'acosh':
                return self.log(self.add(a, self.ratpow(self.add(self.mul(a, a), self.const(-1)), Fraction(1, 2))))
            if n == 'pow':
                e = M[t.args[2]]
                if e.n == ONEP and not e.f:
                    return self.ratpow(a, e.c)
                if self.isz(e):
                    return self.const(1)
                return self.exp(self.mul(e, self.log(a)))
            if n == 'atan2':
                return self.atan2(a, M[t.args[2]])
            return self.fromatom(self.fnatom(n, [M[x] for x in t.args[1:]]))
        if op == 'ite':
            raise Undecided('ite')
        raise Undecided(op)

    def iszero(self, t):
        return self.isz(self.nf(t))


def prove_zero(t, oracle=None, limit=60000, deadline=None):
    return Ring(oracle, limit, deadline).iszero(t)
