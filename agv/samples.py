"""Vectorised numeric evaluation of terms over a set of sample points (ghost witnesses)."""
import numpy as np
import math
from .terms import *
from . import terms as T

try:
    import scipy.special as sc
except ImportError:       # pragma: no cover
    sc = None


class Samples(object):
    def __init__(self, n, ufm=None):
        self.n = n
        self.env = {}
        self.arrs = {}          # name -> 2D array n x L
        self.memo = {}
        self.ufm = ufm or DEFAULT_UF
        self.nuf = {}           # native uf evaluators: name -> f(deriv, [arrays]) -> array

    def setvar(self, v, a):
        self.env[v] = np.asarray(a)

    def point(self, i):
        return {v: (int(a[i]) if v.sort == 'I' else (bool(a[i]) if v.sort == 'B' else float(a[i]))) for v, a in self.env.items()}

    def arrpoint(self, i):
        return {k: [float(x) for x in a[i]] for k, a in self.arrs.items()}

    def append(self, env, arrs=None):
        """add one more sample point; clears the memo"""
        for v in self.env:
            x = env.get(v)
            if x is None:
                x = self.env[v][0]
            self.env[v] = np.append(self.env[v], x)
        for k in self.arrs:
            row = (arrs or {}).get(k)
            if row is None:
                row = self.arrs[k][0]
            self.arrs[k] = np.vstack([self.arrs[k], row])
        self.n += 1
        self.memo = {}

    def val(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        with np.errstate(all='ignore'):
            stack = [t]
            memo = self.memo
            while stack:
                u = stack[-1]
                if u in memo:
                    stack.pop()
                    continue
                todo = [k for k in T.kids(u) if k not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                memo[u] = self._ev(u)
                stack.pop()
        return self.memo[t]

    def mag(self, t, memo=None):
        """magnitude of the terms that t is made of: |error of evaluation in double precision| < mag * few epsilon"""
        memo = {} if memo is None else memo
        with np.errstate(all='ignore'):
            stack = [t]
            while stack:
                u = stack[-1]
                if u in memo:
                    stack.pop()
                    continue
                arith = u.op in ('+', '*', '/', 'neg') and u.sort == 'R'
                todo = [k for k in u.args if k not in memo] if arith else []
                if todo:
                    stack.extend(todo)
                    continue
                k = [memo[x] for x in u.args] if arith else None
                if not arith:
                    v = self.val(u)
                    if u.op == 'uf' and u.args[0].startswith('nat') and sum(u.args[1]):
                        v = np.abs(v) + np.abs(self.val(T.uf(u.args[0], T.kids(u))))
                    memo[u] = np.abs(v.astype(float)) if u.sort != 'B' else np.ones(self.n)
                elif u.op == '+':
                    memo[u] = k[0] + k[1]
                elif u.op == '*':
                    memo[u] = k[0] * k[1]
                elif u.op == 'neg':
                    memo[u] = k[0]
                else:
                    b = np.abs(self.val(u.args[1]))
                    memo[u] = k[0] / b * np.maximum(1, k[1] / b)
                stack.pop()
        return memo[t]

    def _ev(self, t):
        op = t.op
        n = self.n
        if op == 'q':
            return np.full(n, float(t.args[0]))
        if op == 'i':
            return np.full(n, t.args[0], dtype=object if abs(t.args[0]) > 2**62 else np.int64)
        if op == 'pi':
            return np.full(n, math.pi)
        if op == 'T':
            return np.ones(n, bool)
        if op == 'F':
            return np.zeros(n, bool)
        if op == 'sp':
            return np.full(n, float(t.args[0]))
        if op == 'v':
            a = self.env.get(t)
            if a is None:
                raise EvalError('no samples for ' + t.args[0])
            return a
        k = [self.memo[x] for x in T.kids(t)]
        if op == '+':
            return k[0] + k[1]
        if op == '*':
            return k[0] * k[1]
        if op == 'neg':
            return -k[0]
        if op == '/':
            return k[0] / k[1]
        if op == '<':
            return k[0] < k[1]
        if op == '<=':
            return k[0] <= k[1]
        if op == '==':
            return k[0] == k[1]
        if op == 'not':
            return ~k[0]
        if op == 'and':
            r = k[0]
            for x in k[1:]:
                r = r & x
            return r
        if op == 'or':
            r = k[0]
            for x in k[1:]:
                r = r | x
            return r
        if op == 'ite':
            return np.where(k[0], k[1], k[2])
        if op == 'toreal':
            return k[0].astype(float)
        if op == 'truncr':
            return np.where(np.isfinite(k[0]), np.trunc(np.clip(k[0], -9e18, 9e18)), 0).astype(np.int64)
        if op == 'divt':
            d = np.where(k[1] == 0, 1, k[1])
            return np.sign(k[0]) * np.sign(d) * (np.abs(k[0]) // np.abs(d))
        if op == 'divf':
            return k[0] // np.where(k[1] == 0, 1, k[1])
        if op == 'modf':
            return k[0] % np.where(k[1] == 0, 1, k[1])
        if op == 'uf':
            f = self.nuf.get(t.args[0].split('#')[0])
            if f is not None:
                return f(t.args[0], t.args[1], k)
            f = self.ufm.fixed.get(t.args[0])
            if f is not None:
                def one(*x):
                    try:
                        return float(f(t.args[1], [T.mpf(float(u)) for u in x]))
                    except (ValueError, ZeroDivisionError, OverflowError):
                        return np.nan
                return np.array([one(*x) for x in zip(*[np.broadcast_to(u, n) for u in k])])
            s = np.zeros(n)
            for w, a in self.ufm.coef(t.args[0], len(k)):
                e = w
                for ai, d in zip(a, t.args[1]):
                    e *= ai ** d
                s = s + e * np.exp(sum((ai * u for ai, u in zip(a, k)), np.zeros(n)))
            return s
        if op == 'arr':
            a = self.arrs.get(t.args[0])
            if a is None:
                raise EvalError('no samples for array ' + t.args[0])
            i = k[0]
            ok = (i >= 0) & (i < a.shape[1])
            r = a[np.arange(n), np.where(ok, i, 0)]
            return np.where(ok, r, np.nan) if t.sort == 'R' else r
        if op == 'fn':
            return self._fn(t.args[0], k)
        raise EvalError('cannot evaluate ' + op)

    def _fn(self, name, k):
        a = k[0]
        m = {'sqrt': np.sqrt, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'exp': np.exp, 'log': np.log,
             'abs': np.abs, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan, 'sinh': np.sinh,
             'cosh': np.cosh, 'tanh': np.tanh, 'asinh': np.arcsinh, 'acosh': np.arccosh, 'atanh': np.arctanh,
             'floor': np.floor, 'ceil': np.ceil, 'log1p': np.log1p, 'expm1': np.expm1, 'cbrt': np.cbrt}.get(name)
        if m:
            return m(a)
        if name == 'atan2':
            return np.arctan2(a, k[1])
        if name == 'pow':
            return np.power(a, k[1])
        if name == 'erf':
            return np.vectorize(math.erf, otypes=[float])(a)
        if name == 'gamma':
            return sc.gamma(a)
        v = np.vectorize(lambda *x: float(T._evfn(name, [mpf(y) for y in x])), otypes=[float])
        return v(*k)
