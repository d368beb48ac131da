"""Hash-consed terms over mathematical reals / integers / booleans.

The value language of the verifier: every LLVM value of a function under contract is
translated into one of these terms; contracts are written with the same constructors.
Sorts: 'R' real, 'I' integer, 'B' bool.
"""
from fractions import Fraction
import math, struct
import mpmath
from mpmath import mp, mpf

_table = {}
_count = [0]


class Term(object):
    __slots__ = ('op', 'args', 'sort', 'id', '_vars', '__weakref__')

    def __repr__(self):
        return show(self)

    # operator sugar (real/int arithmetic)
    def __add__(s, o): return add(s, lift(o, s.sort))
    def __radd__(s, o): return add(lift(o, s.sort), s)
    def __sub__(s, o): return sub(s, lift(o, s.sort))
    def __rsub__(s, o): return sub(lift(o, s.sort), s)
    def __mul__(s, o): return mul(s, lift(o, s.sort))
    def __rmul__(s, o): return mul(lift(o, s.sort), s)
    def __truediv__(s, o): return div(s, lift(o, s.sort))
    def __rtruediv__(s, o): return div(lift(o, s.sort), s)
    def __neg__(s): return neg(s)
    def __pow__(s, n):
        if isinstance(n, int):
            return powi(s, n)
        return fn('pow', s, lift(n, 'R'))
    def __lt__(s, o): return lt(s, lift(o, s.sort))
    def __le__(s, o): return le(s, lift(o, s.sort))
    def __gt__(s, o): return lt(lift(o, s.sort), s)
    def __ge__(s, o): return le(lift(o, s.sort), s)
    # NB: == stays identity (hash-consed); use eq(a,b)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.sort = sort
        _count[0] += 1
        t.id = _count[0]
        t._vars = None
        _table[key] = t
    return t


def lift(x, sort='R'):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if sort == 'I':
        return ic(int(x))
    if isinstance(x, float):
        return fl(x)
    return q(x)


def q(v):
    return mk('q', (Fraction(v),), 'R')


def ic(v):
    return mk('i', (int(v),), 'I')


ZERO = q(0)
NZERO = mk('q', (q(0).args[0], '-'), 'R')     # the constant -0.0 (only its sign bit differs from ZERO)
ONE = q(1)
TWO = q(2)
PI = mk('pi', (), 'R')
INF = mk('sp', ('inf',), 'R')
NINF = mk('sp', ('-inf',), 'R')
NAN = mk('sp', ('nan',), 'R')
TRUE = mk('T', (), 'B')
FALSE = mk('F', (), 'B')


def is_sp(t):
    return t.op == 'sp'


def var(name, sort='R'):
    return mk('v', (name,), sort)


# ---- machine literals: recognised as the exact real they round -------------------------
_lit_cache = {}
_PI50 = None


def _ulps(a, b):
    ia = struct.unpack('<q', struct.pack('<d', a))[0]
    ib = struct.unpack('<q', struct.pack('<d', b))[0]
    return abs(ia - ib)


def _short(x):
    """exactly representable with few mantissa bits"""
    m, e = math.frexp(abs(x))
    mi = int(m * (1 << 53))
    tz = 0
    while mi and mi % 2 == 0:
        mi //= 2
        tz += 1
    return mi == 0 or mi.bit_length() <= 30


def fl(x):
    """Term for a double literal.  Literals within 2 ulp of p/q*pi^k (small p,q) are read as
    that real number (rounding of literals is one of the stated assumptions)."""
    t = _lit_cache.get(x)
    if t is not None:
        return t
    if x != x:
        return NAN
    if x == float('inf'):
        return INF
    if x == float('-inf'):
        return NINF
    t = None
    if abs(x) < 1e-90:
        t = ZERO            # guards against division by zero such as 1/(r+1e-100)
    elif x == 0 or _short(x):
        t = q(Fraction(x))
    else:
        for k in (0, 1, -1, 2, -2, 3, -3):
            base = math.pi ** k
            y = x / base
            fr = Fraction(y).limit_denominator(5000)
            if fr == 0 or abs(fr.numerator) > 5000:
                continue
            v = float(fr) * base
            if _ulps(v, x) <= 3:
                t = q(fr)
                if k:
                    t = mul(t, powi(PI, k))
                break
        if t is None:
            # M_SQRT2, M_SQRTPI, their product, and simple multiples
            for base, sym in ((math.sqrt(2), sqrt(q(2))), (math.sqrt(math.pi), sqrt(PI)), (math.sqrt(2 * math.pi), mul(sqrt(q(2)), sqrt(PI)))):
                fr = Fraction(x / base).limit_denominator(8)
                if fr != 0 and abs(fr.numerator) <= 8 and _ulps(float(fr) * base, x) <= 1:
                    t = mul(q(fr), sym)
                    break
        if t is None:
            t = q(Fraction(x))
    _lit_cache[x] = t
    return t


# ---- arithmetic constructors -----------------------------------------------------------
def _spnum(t):
    if t.op == 'sp':
        return float(t.args[0])
    if t.op == 'q':
        return float(t.args[0])
    if t.op == 'pi':
        return math.pi
    return None


def _sp_arith(op, a, b):
    x, y = _spnum(a), _spnum(b)
    if x is None or y is None:
        # symbolic finite operand combined with an infinity / nan
        s, o = (a, b) if a.op == 'sp' else (b, a)
        if s is NAN:
            return NAN
        if op == '+':
            return s
        if op == '-':
            return s if s is a else neg(s)
        if op == '/' and s is b:
            return ZERO
        raise SpecialValue('%s of infinity and a symbolic value' % op)
    try:
        if op == '+':
            r = x + y
        elif op == '-':
            r = x - y
        elif op == '*':
            r = x * y
        else:
            r = x / y
    except ZeroDivisionError:
        r = float('nan') if (x == 0 or x != x) else math.copysign(float('inf'), x)
    return fl(r)


# integer terms are kept in a linear normal form  c + sum k_i * atom_i  (atoms sorted by id)
_lincache = {}


def _lin(t):
    r = _lincache.get(t)
    if r is None:
        if t.op == 'i':
            r = {None: t.args[0]}
        elif t.op == '+':
            r = _lin_add(_lin(t.args[0]), _lin(t.args[1]), 1)
        elif t.op == 'neg':
            r = {k: -v for k, v in _lin(t.args[0]).items()}
        elif t.op == '*' and t.args[0].op == 'i':
            c = t.args[0].args[0]
            r = {k: c * v for k, v in _lin(t.args[1]).items()}
        else:
            r = {t: 1}
        _lincache[t] = r
    return r


def _lin_add(a, b, s):
    r = dict(a)
    for k, v in b.items():
        n = r.get(k, 0) + s * v
        if n:
            r[k] = n
        else:
            r.pop(k, None)
    return r


def _from_lin(d):
    c = d.get(None, 0)
    t = None
    for k in sorted((k for k in d if k is not None), key=lambda k: k.id):
        v = d[k]
        if not v:
            continue
        m = k if v == 1 else mk('*', (ic(v), k), 'I')
        t = m if t is None else mk('+', (t, m), 'I')
    if t is None:
        return ic(c)
    return t if c == 0 else mk('+', (t, ic(c)), 'I')


class SpecialValue(Exception):
    pass


def add(a, b):
    if a.op == 'q' and b.op == 'q':
        return q(a.args[0] + b.args[0])
    if a.op == 'i' and b.op == 'i':
        return ic(a.args[0] + b.args[0])
    if a.op == 'sp' or b.op == 'sp':
        return _sp_arith('+', a, b)
    if a.op in 'qi' and a.args[0] == 0:
        return b
    if b.op in 'qi' and b.args[0] == 0:
        return a
    if b.op == 'neg' and b.args[0] is a:
        return ZERO if a.sort == 'R' else ic(0)
    if a.op == 'neg' and a.args[0] is b:
        return ZERO if a.sort == 'R' else ic(0)
    if a.sort == 'I':
        return _from_lin(_lin_add(_lin(a), _lin(b), 1))
    return mk('+', (a, b), a.sort)


def sub(a, b):
    return add(a, neg(b)) if not (a.op == 'sp' or b.op == 'sp') else _sp_arith('-', a, b)


def neg(a):
    if a.op == 'q':
        return q(-a.args[0])
    if a.op == 'i':
        return ic(-a.args[0])
    if a.op == 'sp':
        return {'inf': NINF, '-inf': INF, 'nan': NAN}[a.args[0]]
    if a.op == 'neg':
        return a.args[0]
    if a.sort == 'I':
        return _from_lin({k: -v for k, v in _lin(a).items()})
    return mk('neg', (a,), a.sort)


def mul(a, b):
    if a.op == 'q' and b.op == 'q':
        return q(a.args[0] * b.args[0])
    if a.op == 'i' and b.op == 'i':
        return ic(a.args[0] * b.args[0])
    if a.op == 'sp' or b.op == 'sp':
        return _sp_arith('*', a, b)
    for x, y in ((a, b), (b, a)):
        if x.op in 'qi':
            if x.args[0] == 0:
                return x
            if x.args[0] == 1:
                return y
            if x.args[0] == -1:
                return neg(y)
    if a.op == 'neg':
        return neg(mul(a.args[0], b))
    if b.op == 'neg':
        return neg(mul(a, b.args[0]))
    if b.op in 'qi':
        a, b = b, a
    if a.sort == 'I':
        if a.op == 'i':
            c = a.args[0]
            return _from_lin({k: v * c for k, v in _lin(b).items()})
        if a.op == '+':
            return add(mul(a.args[0], b), mul(a.args[1], b))
        if b.op == '+':
            return add(mul(a, b.args[0]), mul(a, b.args[1]))
        if a.op == '*' and a.args[0].op == 'i':
            return mul(a.args[0], mul(a.args[1], b))
        if b.op == '*' and b.args[0].op == 'i':
            return mul(b.args[0], mul(a, b.args[1]))
        if a.id > b.id:
            a, b = b, a
    return mk('*', (a, b), a.sort)


def div(a, b):
    if a.op == 'sp' or b.op == 'sp':
        return _sp_arith('/', a, b)
    if b.op == 'q':
        if b.args[0] == 0:
            if a.op == 'q':
                return _sp_arith('/', a, b)
            raise SpecialValue('division of a symbolic value by literal zero')
        if a.op == 'q':
            return q(a.args[0] / b.args[0])
        return mul(q(1 / b.args[0]), a)
    if a.op == 'q' and a.args[0] == 0:
        return a
    if a is b:
        return ONE
    return mk('/', (a, b), 'R')


def powi(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, powi(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


_EXACT = {('sin', 0): ZERO, ('cos', 0): ONE, ('exp', 0): ONE, ('log', 1): ZERO, ('sqrt', 0): ZERO,
          ('sqrt', 1): ONE, ('atan', 0): ZERO, ('asin', 0): ZERO, ('tan', 0): ZERO, ('asinh', 0): ZERO, ('sinh', 0): ZERO, ('cosh', 0): ONE}


def fn(name, *args):
    args = tuple(lift(a) for a in args)
    a = args[0]
    if len(args) == 1 and a.op == 'q':
        r = _EXACT.get((name, a.args[0]))
        if r is not None:
            return r
        if name == 'sqrt' and a.args[0] > 0:
            n, d = a.args[0].numerator, a.args[0].denominator
            sn, sd = math.isqrt(n), math.isqrt(d)
            if sn * sn == n and sd * sd == d:
                return q(Fraction(sn, sd))
        if name == 'abs':
            return q(abs(a.args[0]))
        if name == 'floor':
            return q(math.floor(a.args[0]))
        if name == 'ceil':
            return q(math.ceil(a.args[0]))
    if any(x.op == 'sp' for x in args):
        x = [_spnum(t) for t in args]
        if all(v is not None for v in x):
            return fl(_float_fn(name, x))
        if name == 'atan2':
            if args[0].op != 'sp' and args[1] is INF:
                return ZERO
        if NAN in args:
            return NAN
        raise SpecialValue('%s of infinity' % name)
    if name == 'abs':
        if a.op == 'neg':
            return fn('abs', a.args[0])
        if a.op == 'fn' and a.args[0] in ('abs', 'sqrt', 'exp'):
            return a
    if name == 'sqrt' and a.op == '*' and a.args[0] is a.args[1]:
        return fn('abs', a.args[0])
    if name == 'pow' and args[1].op == 'q':
        e = args[1].args[0]
        if e.denominator == 1 and abs(e) <= 16:
            return powi(a, int(e))
        if e.denominator == 2 and abs(e) <= 16:
            n = int(e - Fraction(1, 2))
            return mul(powi(a, n), fn('sqrt', a)) if n >= 0 else div(fn('sqrt', a), powi(a, -n))
    if name == 'sin' and a.op == 'neg':
        return neg(fn('sin', a.args[0]))
    if name == 'cos' and a.op == 'neg':
        return fn('cos', a.args[0])
    return mk('fn', (name,) + args, 'R')


def _float_fn(name, x):
    inf = float('inf')
    try:
        if name == 'sqrt':
            return math.sqrt(x[0]) if x[0] >= 0 else float('nan')
        if name == 'abs':
            return abs(x[0])
        if name == 'exp':
            return 0.0 if x[0] == -inf else (inf if x[0] == inf else math.exp(x[0]))
        if name == 'log':
            return inf if x[0] == inf else (-inf if x[0] == 0 else math.log(x[0]))
        if name == 'atan2':
            return math.atan2(*x)
        if name == 'pow':
            return math.pow(*x)
        if name in ('floor', 'ceil'):
            return x[0]
        return getattr(math, name)(*x)
    except (ValueError, OverflowError, ZeroDivisionError):
        return float('nan')


def sqrt(a): return fn('sqrt', a)
def sin(a): return fn('sin', a)
def cos(a): return fn('cos', a)
def exp(a): return fn('exp', a)
def log(a): return fn('log', a)
def atan2(a, b): return fn('atan2', a, b)
def absv(a): return fn('abs', a)


def uf(name, args, deriv=None, sort='R'):
    """value (or mixed partial derivative `deriv`) of an uninterpreted smooth function"""
    args = tuple(args)
    deriv = tuple(deriv) if deriv else (0,) * len(args)
    return mk('uf', (name, deriv) + args, sort)


def arr(name, idx, sort='R'):
    """element of an abstract input array"""
    return mk('arr', (name, lift(idx, 'I')), sort)


# ---- comparison / booleans --------------------------------------------------------------
def _cmpconst(a, b):
    if a.op in ('q', 'i', 'sp') and b.op in ('q', 'i', 'sp'):
        x = float(a.args[0]) if a.op == 'sp' else a.args[0]
        y = float(b.args[0]) if b.op == 'sp' else b.args[0]
        return x, y
    return None


def lt(a, b):
    c = _cmpconst(a, b)
    if c:
        return TRUE if c[0] < c[1] else FALSE
    if a is b:
        return FALSE
    if a.op == 'sp' or b.op == 'sp':
        if a is NAN or b is NAN:
            return FALSE
        return TRUE if (a is NINF or b is INF) else FALSE
    if a.sort == 'I':
        # a < b  ==  a + 1 <= b
        return le(add(a, ic(1)), b)
    if a.sort == 'R':
        if b.op == 'q' and b.args[0] <= 0 and _nonneg(a):
            return FALSE
        r = _spi(a, b)
        if r is not None:
            return TRUE if r < 0 else FALSE
    return mk('<', (a, b), 'B')


def _spi(a, b):
    """compare closed constants built from q and pi"""
    if isclosed(a) and isclosed(b):
        d = evalf(a, {}, 40) - evalf(b, {}, 40)
        if abs(d) > mpf(10) ** -25:
            return -1 if d < 0 else 1
    return None


_closed = {}


def isclosed(t):
    r = _closed.get(t)
    if r is None:
        if t.op in ('q', 'pi'):
            r = True
        elif t.op in ('+', '*', '/', 'neg'):
            r = all(isclosed(x) for x in t.args)
        elif t.op == 'fn':
            r = all(isclosed(x) for x in t.args[1:])
        else:
            r = False
        _closed[t] = r
    return r


def _nonneg(t):
    if t.op == 'fn' and t.args[0] in ('sqrt', 'abs', 'exp', 'cosh'):
        return True
    if t.op == 'q':
        return t.args[0] >= 0
    if t.op == 'pi':
        return True
    if t.op == '*':
        return t.args[0] is t.args[1] or (_nonneg(t.args[0]) and _nonneg(t.args[1]))
    if t.op in ('+', '/'):
        return _nonneg(t.args[0]) and _nonneg(t.args[1])
    return False


def le(a, b):
    c = _cmpconst(a, b)
    if c:
        return TRUE if c[0] <= c[1] else FALSE
    if a is b:
        return TRUE
    if a.op == 'sp' or b.op == 'sp':
        if a is NAN or b is NAN:
            return FALSE
        return TRUE if (a is NINF or b is INF) else FALSE
    if a.sort == 'I':
        d = _lin_add(_lin(b), _lin(a), -1)      # 0 <= b - a
        ks = [k for k in d if k is not None]
        if not ks:
            return TRUE if d.get(None, 0) >= 0 else FALSE
        g = 0
        for k in ks:
            g = math.gcd(g, abs(d[k]))
        c = d.get(None, 0) // g                 # floor is exact for 0 <= g*x + c
        pos = _from_lin({k: v // g for k, v in d.items() if k is not None and v > 0})
        ng = _from_lin({k: -v // g for k, v in d.items() if k is not None and v < 0})
        if pos.op == 'i':
            return mk('<=', (ng, ic(c)), 'B')
        return mk('<=', (add(ng, ic(-c)), pos), 'B')
    if a.sort == 'R':
        if a.op == 'q' and a.args[0] <= 0 and _nonneg(b):
            return TRUE
        r = _spi(a, b)
        if r is not None:
            return TRUE if r < 0 else FALSE
    return mk('<=', (a, b), 'B')


def eq(a, b):
    if a is b:
        return FALSE if a is NAN else TRUE
    if a.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return mk('==', (a, b) if a.id < b.id else (b, a), 'B')
    c = _cmpconst(a, b)
    if c:
        return TRUE if c[0] == c[1] else FALSE
    if a.op == 'sp' or b.op == 'sp':
        return FALSE
    if a.sort == 'I':
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and y.op == 'i' and x.args[1].op == 'i' and x.args[2].op == 'i':
                return or_(and_(x.args[0], eq(x.args[1], y)), and_(not_(x.args[0]), eq(x.args[2], y)))
        d = _lin_add(_lin(a), _lin(b), -1)
        ks = [k for k in d if k is not None]
        if not ks:
            return TRUE if d.get(None, 0) == 0 else FALSE
        c = d.get(None, 0)
        g = 0
        for k in ks:
            g = math.gcd(g, abs(d[k]))
        if c % g:
            return FALSE
        c //= g
        d = {k: v // g for k, v in d.items()}
        if len(ks) == 1 and abs(d[ks[0]]) == 1:
            return mk('==', (ks[0], ic(-c * d[ks[0]])), 'B')
        pos = _from_lin({k: v for k, v in d.items() if k is not None and v > 0})
        ng = _from_lin({k: -v for k, v in d.items() if k is not None and v < 0})
        if pos.id > ng.id:
            pos, ng, c = ng, pos, -c
        return mk('==', (add(pos, ic(c)), ng), 'B')
    elif _spi(a, b) is not None:
        return FALSE
    elif a is ZERO or b is ZERO:
        t = b if a is ZERO else a
        if t.op == 'neg':
            return eq(ZERO, t.args[0])
        if t.op == 'fn' and t.args[0] in ('sqrt', 'abs'):
            return eq(ZERO, t.args[1])
        if t.op == 'fn' and t.args[0] in ('exp', 'cosh'):
            return FALSE
        if t.op == '*':
            return or_(eq(ZERO, t.args[0]), eq(ZERO, t.args[1]))
        if t.op == '/':
            return eq(ZERO, t.args[0])
        if t.op == '+' and _nonneg(t.args[0]) and _nonneg(t.args[1]):
            return and_(eq(ZERO, t.args[0]), eq(ZERO, t.args[1]))
    if a.id > b.id and not (a.sort == 'I' and b.op == 'i'):
        a, b = b, a
    return mk('==', (a, b), 'B')


def ne(a, b): return not_(eq(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op in ('<', '<=') and a.args[0].sort == 'I':
        return lt(a.args[1], a.args[0]) if a.op == '<=' else le(a.args[1], a.args[0])
    if a.op == '<' :
        return le(a.args[1], a.args[0])
    if a.op == '<=':
        return lt(a.args[1], a.args[0])
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    for x in xs:
        x = lift(x, 'B')
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        if x.op == 'and':
            out.extend(y for y in x.args if y not in out)
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def or_(*xs):
    out = []
    for x in xs:
        x = lift(x, 'B')
        if x is TRUE:
            return TRUE
        if x is FALSE or x in out:
            continue
        if x.op == 'or':
            out.extend(y for y in x.args if y not in out)
        else:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), 'B')


def implies(a, b): return or_(not_(a), b)


def ite(c, a, b):
    a, b = lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == '==' and c.args[0].sort == 'R':
        # select(t==k, A, B): if B with t:=k is A then the select is B
        for t, k in (c.args, c.args[::-1]):
            if k.op == 'q':
                try:
                    if subst(b, {t: k}) is a:
                        return b
                except (SpecialValue, ZeroDivisionError):
                    pass
    return mk('ite', (c, a, b), a.sort)


# ---- integers --------------------------------------------------------------------------
def toreal(i):
    if i.op == 'i':
        return q(i.args[0])
    if i.op == 'ite':
        return ite(i.args[0], toreal(i.args[1]), toreal(i.args[2]))
    return mk('toreal', (i,), 'R')


def truncr(r):
    """fptosi: truncation toward zero"""
    if r.op == 'q':
        return ic(int(r.args[0]))
    if r.op == 'fn' and r.args[0] == 'sqrt' and r.args[1].op == 'q' and r.args[1].args[0] >= 0:
        v = r.args[1].args[0]
        return ic(math.isqrt(v.numerator // v.denominator))
    if r.op == 'toreal':
        return r.args[0]
    return mk('truncr', (r,), 'I')


def idivt(a, b):
    """C truncated division"""
    if b.op == 'i' and b.args[0] == 1:
        return a
    if a.op == 'i' and b.op == 'i' and b.args[0] != 0:
        x, y = a.args[0], b.args[0]
        return ic(abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1))
    return mk('divt', (a, b), 'I')


def idivf(a, b):
    if b.op == 'i' and b.args[0] == 1:
        return a
    if a.op == 'i' and b.op == 'i' and b.args[0] != 0:
        return ic(a.args[0] // b.args[0])
    return mk('divf', (a, b), 'I')


def imodf(a, b):
    if a.op == 'i' and b.op == 'i' and b.args[0] != 0:
        return ic(a.args[0] % b.args[0])
    return mk('modf', (a, b), 'I')


# ---- traversal -------------------------------------------------------------------------
_NONTERM = (str, int, Fraction, tuple)


def kids(t):
    return [x for x in t.args if isinstance(x, Term)]


def variables(t):
    if t._vars is None:
        # iterative post-order
        stack = [t]
        while stack:
            u = stack[-1]
            if u._vars is not None:
                stack.pop()
                continue
            ks = kids(u)
            todo = [k for k in ks if k._vars is None]
            if todo:
                stack.extend(todo)
                continue
            if u.op == 'v':
                u._vars = frozenset((u,))
            elif not ks:
                u._vars = frozenset()
            elif len(ks) == 1:
                u._vars = ks[0]._vars
            else:
                u._vars = frozenset().union(*[k._vars for k in ks])
            stack.pop()
    return t._vars


def rebuild(t, ks):
    """rebuild t with new children via the smart constructors"""
    op = t.op
    if op == '+': return add(*ks)
    if op == '*': return mul(*ks)
    if op == '/': return div(*ks)
    if op == 'neg': return neg(*ks)
    if op == 'fn': return fn(t.args[0], *ks)
    if op == 'uf': return uf(t.args[0], ks, t.args[1], t.sort)
    if op == 'arr': return arr(t.args[0], ks[0], t.sort)
    if op == 'ite': return ite(*ks)
    if op == '<': return lt(*ks)
    if op == '<=': return le(*ks)
    if op == '==': return eq(*ks)
    if op == 'not': return not_(*ks)
    if op == 'and': return and_(*ks)
    if op == 'or': return or_(*ks)
    if op == 'toreal': return toreal(*ks)
    if op == 'truncr': return truncr(*ks)
    if op == 'divt': return idivt(*ks)
    if op == 'divf': return idivf(*ks)
    if op == 'modf': return imodf(*ks)
    raise NotImplementedError(op)


def subst(t, m, memo=None):
    """simultaneous substitution of subterms (keys are terms)"""
    if memo is None:
        memo = {}
    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if u in m:
            r = m[u]
        else:
            ks = kids(u)
            if not ks:
                r = u
            else:
                nk = [go(k) for k in ks]
                r = u if all(x is y for x, y in zip(nk, ks)) else rebuild(u, nk)
        memo[u] = r
        return r
    return go(t)


_dmemo = {}


def D(t, x):
    """partial derivative of the term t by the variable x"""
    key = (t, x)
    r = _dmemo.get(key)
    if r is not None:
        return r
    if t is x:
        r = ONE
    elif x not in variables(t):
        r = ZERO
    elif t.op == '+':
        r = add(D(t.args[0], x), D(t.args[1], x))
    elif t.op == 'neg':
        r = neg(D(t.args[0], x))
    elif t.op == '*':
        a, b = t.args
        r = add(mul(D(a, x), b), mul(a, D(b, x)))
    elif t.op == '/':
        a, b = t.args
        r = sub(div(D(a, x), b), div(mul(a, D(b, x)), mul(b, b)))
    elif t.op == 'fn':
        n = t.args[0]
        a = t.args[1]
        if n == 'sqrt':
            r = div(D(a, x), mul(TWO, t))
        elif n == 'sin':
            r = mul(fn('cos', a), D(a, x))
        elif n == 'cos':
            r = neg(mul(fn('sin', a), D(a, x)))
        elif n == 'tan':
            r = mul(add(ONE, mul(t, t)), D(a, x))
        elif n == 'exp':
            r = mul(t, D(a, x))
        elif n == 'log':
            r = div(D(a, x), a)
        elif n == 'log1p':
            r = div(D(a, x), add(ONE, a))
        elif n == 'abs':
            r = mul(div(a, t), D(a, x))
        elif n == 'atan':
            r = div(D(a, x), add(ONE, mul(a, a)))
        elif n == 'atanh':
            r = div(D(a, x), sub(ONE, mul(a, a)))
        elif n == 'asin':
            r = div(D(a, x), fn('sqrt', sub(ONE, mul(a, a))))
        elif n == 'acos':
            r = neg(div(D(a, x), fn('sqrt', sub(ONE, mul(a, a)))))
        elif n == 'sinh':
            r = mul(fn('cosh', a), D(a, x))
        elif n == 'cosh':
            r = mul(fn('sinh', a), D(a, x))
        elif n == 'tanh':
            r = mul(sub(ONE, mul(t, t)), D(a, x))
        elif n == 'asinh':
            r = div(D(a, x), fn('sqrt', add(ONE, mul(a, a))))
        elif n == 'acosh':
            r = div(D(a, x), fn('sqrt', sub(mul(a, a), ONE)))
        elif n == 'cbrt':
            r = div(D(a, x), mul(q(3), mul(t, t)))
        elif n in ('floor', 'ceil'):
            r = ZERO
        elif n == 'erf':
            r = mul(div(TWO, fn('sqrt', PI)), mul(fn('exp', neg(mul(a, a))), D(a, x)))
        elif n == 'atan2':
            b = t.args[2]
            r = div(sub(mul(b, D(a, x)), mul(a, D(b, x))), add(mul(a, a), mul(b, b)))
        elif n == 'pow':
            e = t.args[2]
            r = mul(e, mul(fn('pow', a, sub(e, ONE)), D(a, x)))
            de = D(e, x)
            if de is not ZERO:
                r = add(r, mul(t, mul(fn('log', a), de)))
        else:
            raise NotImplementedError('derivative of ' + n)
    elif t.op == 'uf':
        name, dv = t.args[0], t.args[1]
        r = ZERO
        for i, a in enumerate(t.args[2:]):
            da = D(a, x)
            if da is not ZERO:
                d2 = tuple(v + (1 if j == i else 0) for j, v in enumerate(dv))
                r = add(r, mul(uf(name, t.args[2:], d2), da))
    elif t.op == 'ite':
        r = ite(t.args[0], D(t.args[1], x), D(t.args[2], x))
    else:
        raise NotImplementedError('derivative of ' + t.op)
    _dmemo[key] = r
    return r


# ---- numeric evaluation ----------------------------------------------------------------
class UFModel(object):
    """concrete smooth interpretation of uninterpreted functions:
    f(u) = sum_j w_j exp(a_j . u), all partial derivatives in closed form"""
    def __init__(self, seed=1):
        self.seed = seed
        self.c = {}
        self.fixed = {}         # name -> f(deriv, [mpf]) : functions with a definite meaning

    def coef(self, name, n):
        k = (name, n)
        if k not in self.c:
            import random
            r = random.Random('%s|%s|%s' % (self.seed, name, n))
            self.c[k] = [(r.uniform(0.3, 1.5), [round(r.uniform(-0.6, 0.6), 4) for _ in range(n)])
                         for _ in range(3)]
        return self.c[k]

    def __call__(self, name, deriv, args):
        if name in self.fixed:
            return self.fixed[name](deriv, args)
        s = mpf(0)
        for w, a in self.coef(name, len(args)):
            e = mpf(w)
            for ai, d in zip(a, deriv):
                e *= mpf(ai) ** d
            s += e * mpmath.exp(sum((mpf(ai) * u for ai, u in zip(a, args)), mpf(0)))
        return s


DEFAULT_UF = UFModel()


class EvalError(Exception):
    pass


def evalf(t, env, dps=30, ufm=None, memo=None, arrs=None):
    """numeric value (mpf / int / bool); env maps variable Terms (or names) to numbers"""
    ufm = ufm or DEFAULT_UF
    if memo is None:
        memo = {}
    old = mp.dps
    mp.dps = dps
    try:
        return _ev(t, env, ufm, memo, arrs)
    finally:
        mp.dps = old


def _ev(t, env, ufm, memo, arrs):
    stack = [t]
    while stack:
        u = stack[-1]
        if u in memo:
            stack.pop()
            continue
        if u.op == 'ite':
            c = u.args[0]
            if c not in memo:
                stack.append(c)
                continue
            br = u.args[1] if memo[c] else u.args[2]
            if br not in memo:
                stack.append(br)
                continue
            memo[u] = memo[br]
            stack.pop()
            continue
        if u.op in ('and', 'or'):
            done = False
            for k in u.args:
                if k not in memo:
                    stack.append(k)
                    done = None
                    break
                if bool(memo[k]) == (u.op == 'or'):
                    done = True
                    break
            if done is None:
                continue
            memo[u] = (u.op == 'or') if done else (u.op == 'and')
            stack.pop()
            continue
        todo = [k for k in kids(u) if k not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[u] = _ev1(u, env, ufm, memo, arrs)
        stack.pop()
    return memo[t]


def _ev1(t, env, ufm, memo, arrs):
    op = t.op
    if op == 'q':
        return mpf(t.args[0].numerator) / t.args[0].denominator
    if op == 'i':
        return t.args[0]
    if op == 'pi':
        return +mp.pi
    if op == 'T':
        return True
    if op == 'F':
        return False
    if op == 'sp':
        return mpf(t.args[0])
    if op == 'v':
        v = env.get(t)
        if v is None:
            v = env.get(t.args[0])
        if v is None:
            raise EvalError('no value for ' + t.args[0])
        if t.sort == 'R':
            return mpf(v)
        return v
    k = [memo[x] for x in t.args if isinstance(x, Term)]
    if op == '+':
        return k[0] + k[1]
    if op == '*':
        return k[0] * k[1]
    if op == 'neg':
        return -k[0]
    if op == '/':
        if k[1] == 0:
            if k[0] == 0 or mpmath.isnan(k[0]):
                return mpf('nan')
            return mpf('inf') if k[0] > 0 else mpf('-inf')
        return k[0] / k[1]
    if op == '<':
        return bool(k[0] < k[1])
    if op == '<=':
        return bool(k[0] <= k[1])
    if op == '==':
        return bool(k[0] == k[1])
    if op == 'not':
        return not k[0]
    if op == 'toreal':
        return mpf(k[0])
    if op == 'truncr':
        return int(k[0])
    if op == 'divt':
        x, y = k
        return abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
    if op == 'divf':
        return k[0] // k[1]
    if op == 'modf':
        return k[0] % k[1]
    if op == 'uf':
        f = env.get(('uf', t.args[0]))
        if f is not None:
            return f(t.args[1], k)
        return ufm(t.args[0], t.args[1], k)
    if op == 'arr':
        a = env.get(('arr', t.args[0]))
        if a is None or not (0 <= k[0] < len(a)):
            raise EvalError('array %s[%s]' % (t.args[0], k[0]))
        return mpf(a[k[0]]) if t.sort == 'R' else a[k[0]]
    if op == 'fn':
        return _evfn(t.args[0], k)
    raise EvalError('cannot evaluate ' + op)


def _evfn(n, k):
    a = k[0]
    try:
        if any(mpmath.isnan(x) for x in k):
            return mpf('nan')
        if n == 'sqrt':
            return mpmath.sqrt(a) if a >= 0 else mpf('nan')
        if n == 'abs':
            return abs(a)
        if n == 'log':
            return mpmath.log(a) if a > 0 else (mpf('-inf') if a == 0 else mpf('nan'))
        if n == 'log1p':
            return mpmath.log1p(a) if a > -1 else mpf('nan')
        if n == 'atan2':
            return mpmath.atan2(a, k[1])
        if n == 'pow':
            if a < 0 and k[1] != int(k[1]):
                return mpf('nan')
            return mpmath.power(a, k[1])
        if n in ('asin', 'acos'):
            return getattr(mpmath, n)(a) if abs(a) <= 1 else mpf('nan')
        if n == 'acosh':
            return mpmath.acosh(a) if a >= 1 else mpf('nan')
        if n == 'atanh':
            return mpmath.atanh(a) if abs(a) < 1 else mpf('nan')
        if n == 'cbrt':
            return mpmath.cbrt(a) if a >= 0 else -mpmath.cbrt(-a)
        if n in ('LambertW0', 'LambertWm1'):
            return mpmath.lambertw(a, 0 if n == 'LambertW0' else -1).real if mpmath.exp(-1) > -a and (a < 0 or n == 'LambertW0') else mpf('nan')
        r = getattr(mpmath, n)(*k)
        return r
    except ZeroDivisionError:
        return mpf('nan')


# ---- printing --------------------------------------------------------------------------
def show(t, lim=400, memo=None):
    if t.op == 'q':
        f = t.args[0]
        return str(f) if f.denominator < 10 ** 6 else '%.17g' % float(f)
    if t.op == 'i':
        return str(t.args[0])
    if t.op == 'v':
        return t.args[0]
    if t.op in ('pi', 'T', 'F'):
        return {'pi': 'pi', 'T': 'true', 'F': 'false'}[t.op]
    if t.op == 'sp':
        return t.args[0]
    if lim <= 0:
        return '..'
    L = lim // 2
    if t.op in ('+', '*', '/', '<', '<=', '=='):
        return '(%s %s %s)' % (show(t.args[0], L), t.op, show(t.args[1], L))
    if t.op == 'neg':
        return '-' + show(t.args[0], L)
    if t.op == 'fn':
        return '%s(%s)' % (t.args[0], ', '.join(show(x, L) for x in t.args[1:]))
    if t.op == 'uf':
        d = ''.join(map(str, t.args[1])) if any(t.args[1]) else ''
        return '%s%s(%s)' % (t.args[0], '_d' + d if d else '', ', '.join(show(x, L) for x in t.args[2:]))
    if t.op == 'arr':
        return '%s[%s]' % (t.args[0], show(t.args[1], L))
    return '%s(%s)' % (t.op, ', '.join(show(x, L) for x in t.args))
