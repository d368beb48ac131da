"""Deductive symbolic execution of LLVM IR functions (the real code of /repo compiled on this run).

One call of explore() enumerates every feasible path of a function, reading doubles as mathematical
reals and integers as mathematical integers.  Callees without a registered contract are inlined,
loops with concrete trip counts are executed, loops with symbolic trip counts need a loop contract.
"""
import os, re, subprocess, struct, sys
from . import ir
from . import terms as T
from .terms import *

sys.setrecursionlimit(20000)
DEBUG = os.environ.get('AGV_DEBUG')


class Unsupported(Exception):
    pass


class Thrown(Exception):
    pass


class PathEnd(Exception):
    """path discharged at a loop cut point (or infeasible)"""
    def __init__(self, why):
        self.why = why


class Restart(Exception):
    pass


class Undef(object):
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Region(object):
    __slots__ = ('id', 'name', 'size', 'cells', 'kind', 'log', 'zero', 'data', 'alive', 'base', 'src')

    def __init__(self, id, name, size=None, kind='mem'):
        self.id = id
        self.name = name
        self.size = size
        self.cells = {}
        self.kind = kind
        self.log = None
        self.zero = []
        self.data = None
        self.alive = True
        self.base = None
        self.src = None

    def __repr__(self):
        return '<%s#%s>' % (self.name, self.id)


class Ptr(object):
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r
        self.o = o

    def __repr__(self):
        return 'Ptr(%r+%s)' % (self.r, show(self.o))


class P2I(object):
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


I0 = ic(0)
NULL = Ptr(None, I0)


def demangle(names):
    names = list(names)
    r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt', '--no-strip-underscore'] if False else ['c++filt'],
                       input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


class Program(object):
    """set of IR modules"""
    def __init__(self, paths):
        self.mods = [ir.Module(p) for p in paths]
        self.fdef = {}
        self.gdef = {}
        for m in self.mods:
            for f in m.funcs:
                if f not in m.internal:
                    self.fdef.setdefault(f, m)
            for g, txt in m.globals.items():
                if g not in m.internal and not re.match(r'(external|extern_weak)\b', txt):
                    self.gdef.setdefault(g, m)
        names = set(f for m in self.mods for f in m.funcs)
        self.dem = demangle([n[1:].strip('"') for n in names])
        self._ext = {}

    def demname(self, name):
        n = name[1:].strip('"')
        r = self.dem.get(n)
        if r is None:
            r = demangle([n])[n]
            self.dem[n] = r
        return r

    def find(self, mod, name):
        if mod is not None and name in mod.funcs:
            return mod.func(name)
        m = self.fdef.get(name)
        if m is None:
            # aliases (complete/base object constructors)
            for mm in ([mod] if mod else []) + self.mods:
                a = mm.aliases.get(name)
                if a:
                    tgt = re.findall(r'@"[^"]*"|@[-a-zA-Z$._0-9]+', a)[-1]
                    return self.find(mm, tgt)
            return None
        return m.func(name)


LIBM = {'sin', 'cos', 'tan', 'exp', 'log', 'log1p', 'expm1', 'atan2', 'atan', 'acos', 'asin', 'sinh', 'cosh',
        'tanh', 'asinh', 'acosh', 'atanh', 'cbrt', 'floor', 'ceil', 'sqrt', 'pow', 'erf', 'erfc', 'tgamma', 'lgamma'}


def nz(v):
    return ZERO if v is NZERO else v


def fln(x):
    return NZERO if x == 0 and struct.pack('<d', x)[7] & 0x80 else fl(x)


class SymEx(object):
    """state of one path (re-executed from the start for each path)"""

    def __init__(self, prog, ctx):
        self.prog = prog
        self.ctx = ctx            # exploration context (feasibility, contracts, decisions)
        self.pc = list(ctx.requires)
        self.facts = set(self.pc)
        self.zeros = set()        # terms known to be zero on this path
        for c in self.pc:
            self.notezero(c)
        self.nreg = 0
        self.globals = {}
        self.trace = []
        self.pos = 0
        self.steps = 0
        self.stack = []
        self.notes = []
        self.loopstate = {}
        self.obligs = []          # side obligations (name, pc, goal)
        self.nvars = 0

    # ---- memory ------------------------------------------------------------------------
    def region(self, name, size=None, kind='mem'):
        self.nreg += 1
        return Region(self.nreg, name, size, kind)

    def newptr(self, name, size=None):
        return Ptr(self.region(name, size), I0)

    def fresh(self, name, sort='R'):
        self.nvars += 1
        return var('%s!%d' % (name, self.nvars), sort)

    def store(self, p, v, size):
        if not isinstance(p, Ptr) or p.r is None:
            raise Unsupported('store through %r' % (p,))
        r = p.r
        if r.kind == 'const':
            raise Unsupported('store to constant ' + r.name)
        if r.kind == 'global':
            self.ginit(r)
        if r.log is None and p.o.op == 'i':
            o = p.o.args[0]
            if r.size is not None and not (0 <= o and o + size <= r.size):
                raise Unsupported('out-of-bounds store to %s at %d' % (r.name, o))
            self._clear(r, o, size)
            r.cells[o] = (v, size)
        else:
            if r.log is None:
                r.log = []
            r.log.append((p.o, v, size))
        self.ctx.onwrite(self, r, p.o, size)

    def _clear(self, r, o, size):
        c = r.cells
        if o in c and c[o][1] == size:
            return
        for k in [k for k in c if k < o + size and k + c[k][1] > o]:
            v, s = c.pop(k)
            # keep the parts outside (split not supported for symbolic): split constant zero ints
            if k < o or k + s > o + size:
                if isinstance(v, Term) and v.op == 'i':
                    b = (v.args[0] % (1 << (8 * s))).to_bytes(s, 'little')
                    for j in range(s):
                        if not (o <= k + j < o + size):
                            c[k + j] = (ic(b[j]), 1)
                elif isinstance(v, Term) and v.sort == 'R' and v.op == 'q':
                    b = struct.pack('<d', float(v.args[0]))
                    for j in range(s):
                        if not (o <= k + j < o + size):
                            c[k + j] = (ic(b[j]), 1)

    def load(self, p, ty, mod, size=None):
        if not isinstance(p, Ptr) or p.r is None:
            raise Unsupported('load through %r' % (p,))
        r = p.r
        if size is None:
            size = mod.sizeof(ty)
        if r.kind == 'global' or r.kind == 'const':
            self.ginit(r)
        if ty[0] in ('struct', 'array', 'vec'):
            ty = mod.resolve(ty)
            if ty[0] == 'struct':
                return [self.load(Ptr(r, add(p.o, ic(mod.field_offset(ty, i)))), f, mod) for i, f in enumerate(ty[1])]
            es = mod.sizeof(ty[2])
            return [self.load(Ptr(r, add(p.o, ic(i * es))), ty[2], mod) for i in range(ty[1])]
        v = self._load(r, p.o, size, ty)
        return self.coerce(v, ty)

    def coerce(self, v, ty):
        if v is UNDEF:
            return v
        if ty[0] == 'double':
            if isinstance(v, Term):
                if v.sort == 'I':
                    if v.op == 'i':
                        return fln(struct.unpack('<d', struct.pack('<Q', v.args[0] % (1 << 64)))[0])
                    raise Unsupported('integer bits read as double')
                return v
            raise Unsupported('load double from %r' % (v,))
        if ty[0] == 'ptr':
            if isinstance(v, Term) and v.op == 'i' and v.args[0] == 0:
                return NULL
            if isinstance(v, P2I):
                return v.p
            if isinstance(v, Ptr):
                return v
            raise Unsupported('load pointer from %r' % (v,))
        if ty[0] == 'i':
            if isinstance(v, Ptr):
                return P2I(v) if v.r is not None else v.o
            if ty[1] == 1 and isinstance(v, Term) and v.sort == 'I':
                return ne(v, I0)
            return v
        if ty[0] == 'float':
            return v
        raise Unsupported('load type %r' % (ty,))

    def _base(self, r, o, size, ty):
        if o.op == 'i':
            k = o.args[0]
            c = r.cells.get(k)
            if c is not None and c[1] == size:
                return c[0]
            if c is not None and c[1] > size and isinstance(c[0], Term) and c[0].op == 'i':
                return ic(c[0].args[0] % (1 << (8 * size)))
            # assemble from constant pieces
            bs = []
            any_ = False
            for j in range(size):
                b = None
                for kk in range(k + j, k + j - 16, -1):
                    cc = r.cells.get(kk)
                    if cc is not None and kk + cc[1] > k + j:
                        v = cc[0]
                        if isinstance(v, Term) and v.op == 'i':
                            b = (v.args[0] % (1 << (8 * cc[1]))).to_bytes(cc[1], 'little')[k + j - kk]
                        elif isinstance(v, Term) and v.op == 'q' and cc[1] == 8:
                            b = struct.pack('<d', float(v.args[0]))[k + j - kk]
                        elif isinstance(v, Ptr) and v.r is None:
                            b = 0
                        else:
                            any_ = True
                            b = -1
                        break
                if b is None:
                    for (a, e) in r.zero:
                        if a <= k + j < e:
                            b = 0
                            break
                bs.append(b)
            if all(b is not None and b >= 0 for b in bs):
                n = int.from_bytes(bytes(bs), 'little')
                if ty[0] == 'double':
                    return fl(struct.unpack('<d', struct.pack('<Q', n))[0])
                if ty[0] == 'ptr':
                    if n == 0:
                        return NULL
                    raise Unsupported('pointer from bytes')
                if ty[0] == 'float':
                    return fl(struct.unpack('<f', struct.pack('<I', n))[0])
                return ic(n)
            if any(b is not None for b in bs) and r.kind != 'arr':
                raise Unsupported('mixed-size load from %s at %d size %d' % (r.name, k, size))
        if r.kind == 'arr':
            nm, es, sort = r.data[:3]
            if size != es:
                raise Unsupported('array %s accessed with size %d' % (r.name, size))
            if o.op == 'i':
                if o.args[0] % es:
                    raise Unsupported('misaligned array access')
                idx = ic(o.args[0] // es)
            else:
                idx = idiv_exact(o, es)
                if idx is None:
                    raise Unsupported('array offset ' + show(o))
            self.ctx.onindex(self, r, idx)
            return arr(nm, idx, sort)
        if o.op != 'i':
            # symbolic index into concrete cells
            es = size
            ks = [k for k in sorted(r.cells) if r.cells[k][1] == size]
            if r.zero and r.size is not None and r.size <= 4096:
                ks = sorted(set(ks) | set(k for a, e in r.zero for k in range(a, e - size + 1, size)))
            if not ks or len(ks) > 600:
                raise Unsupported('symbolic load from %s (%d cells)' % (r.name, len(ks)))
            if ty[0] != 'double' and not (ty[0] == 'i'):
                # concretise by forking on the offset
                k = self.concretise(o, ks)
                return self._base(r, ic(k), size, ty)
            if len(ks) <= 12:
                k = self.concretise(o, ks)
                return self._base(r, ic(k), size, ty)
            self.obligs.append(('index in bounds of ' + r.name, list(self.pc), or_(*[eq(o, ic(k)) for k in ks])))
            res = self.coerce(self._base(r, ic(ks[-1]), size, ty), ty)
            for k in ks[-2::-1]:
                res = ite(eq(o, ic(k)), self.coerce(self._base(r, ic(k), size, ty), ty), res)
            return res
        return UNDEF

    def concretise(self, o, ks):
        for k in ks:
            if self.decide(eq(o, ic(k))):
                return k
        raise Unsupported('offset %s matches no cell' % show(o))

    def _load(self, r, o, size, ty):
        if r.log:
            out = None
            conds = []
            for (wo, v, ws) in reversed(r.log):
                d = sub(o, wo)
                if d.op == 'i':
                    if d.args[0] == 0 and ws == size:
                        base = v
                        break
                    if d.args[0] >= ws or d.args[0] <= -size:
                        continue
                    raise Unsupported('overlapping symbolic access')
                conds.append((eq(o, wo), v))
            else:
                base = self._base(r, o, size, ty) if not (conds and self._allcover(r, o, conds)) else conds.pop()[1]
            for c, v in reversed(conds):
                if isinstance(v, Term) and isinstance(base, Term):
                    base = ite(c, v, base)
                else:
                    if self.decide(c):
                        base = v
            return base
        return self._base(r, o, size, ty)

    def _allcover(self, r, o, conds):
        return False

    # ---- globals -----------------------------------------------------------------------
    def glob(self, mod, name):
        # functions
        f = self.prog.find(mod, name)
        if f is not None:
            k = ('f', f.mod.path if name in f.mod.internal else '', f.name)
            r = self.globals.get(k)
            if r is None:
                r = self.region(name, None, 'func')
                r.data = (f, name)
                self.globals[k] = r
            return Ptr(r, I0)
        m = mod if (name in mod.globals and (name in mod.internal or name not in self.prog.gdef)) else self.prog.gdef.get(name, mod)
        k = ('g', m.path if name in m.internal else '', name)
        r = self.globals.get(k)
        if r is None:
            if name in m.globals and not re.match(r'(external|extern_weak)\b', m.globals[name]):
                txt = m.globals[name]
                mm = re.match(r'(?:.*? )??(global|constant) ', txt)
                p = ir.P(ir.tokenize(txt))
                while p.pv() not in ('global', 'constant'):
                    p.next()
                    if p.eof():
                        raise Unsupported('global ' + name)
                isconst = p.next()[1] == 'constant'
                ty = ir.parse_type(p)
                r = self.region(name, m.sizeof(ty), 'const' if isconst else 'global')
                r.data = [m, ty, p]
            else:
                r = self.region(name, None, 'extern')
                r.data = (None, name)
                if name == '@__libc_single_threaded':      # shared_ptr reference counts: the single-thread path
                    r.cells[0] = (ic(1), 1)
            self.globals[k] = r
        return Ptr(r, I0)

    def ginit(self, r):
        if r.data is None or isinstance(r.data, tuple):
            return
        m, ty, p = r.data
        r.data = None
        v = ir.parse_value(p, m.resolve(ty))
        self.initcells(r, 0, m, ty, v)

    def initcells(self, r, off, m, ty, v):
        ty = m.resolve(ty)
        if v[0] == 'zero' or v[0] == 'undef' or v[0] == 'null':
            r.zero.append((off, off + m.sizeof(ty)))
            return
        if v[0] == 'agg':
            if ty[0] == 'struct':
                for i, (t, x) in enumerate(v[1]):
                    self.initcells(r, off + m.field_offset(ty, i), m, t, x)
            else:
                es = m.sizeof(ty[2])
                for i, (t, x) in enumerate(v[1]):
                    self.initcells(r, off + i * es, m, t, x)
            return
        if v[0] == 'cstr':
            for i, b in enumerate(v[1]):
                r.cells[off + i] = (ic(b), 1)
            return
        val = self.value(v, ty, {}, m)
        if isinstance(val, Term) and val.sort == 'B':
            val = ite(val, ic(1), ic(0))
        r.cells[off] = (val, m.sizeof(ty))

    # ---- values ------------------------------------------------------------------------
    def value(self, v, ty, loc, mod):
        k = v[0]
        if k == 'local':
            return loc[v[1]]
        if k == 'int':
            if ty[0] == 'i' and ty[1] == 1:
                return TRUE if v[1] else FALSE
            return ic(v[1])
        if k == 'flt':
            return fln(v[1])
        if k == 'global':
            return self.glob(mod, v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zerov(ty, mod)
        if k == 'agg':
            return [self.value(x, t, loc, mod) for t, x in v[1]]
        if k == 'ce':
            if v[1] == 'gep':
                return self.gep(v[2], v[3], loc, mod)
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                return self.cast(v[1], self.value(v[3], v[2], loc, mod), v[2], v[4])
            if v[1] in ('sub', 'add'):
                return self.binop(v[1], self.value(v[3], v[2], loc, mod), self.value(v[4], v[2], loc, mod), v[2], set())
        raise Unsupported('value %r' % (v,))

    def zerov(self, ty, mod):
        ty = mod.resolve(ty)
        if ty[0] == 'i':
            return FALSE if ty[1] == 1 else I0
        if ty[0] in ('double', 'float'):
            return ZERO
        if ty[0] == 'ptr':
            return NULL
        if ty[0] == 'struct':
            return [self.zerov(t, mod) for t in ty[1]]
        if ty[0] in ('array', 'vec'):
            return [self.zerov(ty[2], mod) for _ in range(ty[1])]
        raise Unsupported('zero of %r' % (ty,))

    def gep(self, ty, ops, loc, mod):
        base = self.value(ops[0][1], ops[0][0], loc, mod)
        if isinstance(base, list):
            raise Unsupported('vector gep')
        if base is UNDEF:
            return UNDEF
        if not isinstance(base, Ptr):
            raise Unsupported('gep base %r' % (base,))
        off = base.o
        first = True
        t = ty
        for it, iv in ops[1:]:
            i = self.value(iv, it, loc, mod)
            if i is UNDEF:
                return UNDEF
            if isinstance(i, P2I):
                raise Unsupported('pointer as index')
            if first:
                off = add(off, mul(ic(mod.sizeof(t)), i))
                first = False
                continue
            t = mod.resolve(t)
            if t[0] == 'struct':
                off = add(off, ic(mod.field_offset(t, i.args[0])))
                t = t[1][i.args[0]]
            else:
                t = t[2]
                off = add(off, mul(ic(mod.sizeof(t)), i))
        return Ptr(base.r, off)

    def b2i(self, v):
        if isinstance(v, Term) and v.sort == 'B':
            return ite(v, ic(1), ic(0))
        return v

    def cast(self, op, v, t1, t2):
        if t1[0] == 'vec':
            if v is UNDEF:
                return v
            if op == 'bitcast':
                if t2[0] == 'vec' and t2[1] == t1[1]:
                    return v
                raise Unsupported('vector bitcast')
            return [self.cast(op, x, t1[2], t2[2]) for x in v]
        if v is UNDEF:
            return v
        if op == 'bitcast':
            if t1 == t2:
                return v
            if t2[0] == 'double' and isinstance(v, Term) and v.op == 'i':
                return fln(struct.unpack('<d', struct.pack('<Q', v.args[0] % (1 << 64)))[0])
            if isinstance(v, Term) and t2[0] == 'double' and v.sort == 'R':
                return v
            if isinstance(v, Term) and t1[0] == 'double' and t2 == ('i', 64):
                return v       # type-punned bits; arithmetic on it is rejected
            raise Unsupported('bitcast %r->%r' % (t1, t2))
        if op == 'ptrtoint':
            return v.o if v.r is None else P2I(v)
        if op == 'inttoptr':
            if isinstance(v, P2I):
                return v.p
            if isinstance(v, Term) and v.op == 'i':
                return Ptr(None, v)
            raise Unsupported('inttoptr')
        if op in ('zext',):
            if isinstance(v, Term) and v.sort == 'B':
                if self.ctx.forkselect_int and v.op not in ('true', 'false') and t1[1] == 1 and t2[1] > 8:
                    return ic(1) if self.decide(v) else ic(0)
                return ite(v, ic(1), ic(0))
            if isinstance(v, Term) and v.op == 'i':
                return ic(v.args[0] % (1 << t1[1]))
            return v
        if op == 'sext':
            if isinstance(v, Term) and v.sort == 'B':
                if self.ctx.forkselect_int and t2[1] > 8:
                    return ic(-1) if self.decide(v) else ic(0)
                return ite(v, ic(-1), ic(0))
            return v
        if op == 'trunc':
            if isinstance(v, P2I):
                return v
            if t2[1] == 1:
                if v.sort == 'B':
                    return v
                if v.op == 'i':
                    return TRUE if v.args[0] % 2 else FALSE
                if v.op == 'ite' and v.args[1].op == 'i' and v.args[2].op == 'i':
                    a, b = v.args[1].args[0] % 2, v.args[2].args[0] % 2
                    return ite(v.args[0], TRUE if a else FALSE, TRUE if b else FALSE)
                if getattr(self.ctx, 'boolterms', None) and v in self.ctx.boolterms:
                    return ne(v, I0)
                return ne(imodf(v, ic(2)), I0)
            if v.op == 'i':
                x = v.args[0] % (1 << t2[1])
                if x >> (t2[1] - 1):
                    x -= 1 << t2[1]
                return ic(x)
            return v      # assumption: no wrap-around
        if op in ('fpext', 'fptrunc'):
            return v
        if op in ('sitofp', 'uitofp'):
            if v.sort == 'B':
                return ite(v, q(-1) if op == 'sitofp' else ONE, ZERO)
            if v.op == 'i' and op == 'uitofp' and v.args[0] < 0:
                return q(v.args[0] % (1 << t1[1]))
            return toreal(v)
        if op in ('fptosi', 'fptoui'):
            v = nz(v)
            if v.op == 'sp':
                raise Unsupported('infinity to integer')
            return truncr(v)
        raise Unsupported('cast ' + op)

    def binop(self, op, a, b, ty, flags):
        if ty[0] == 'vec':
            if a is UNDEF or b is UNDEF:
                return UNDEF
            return [self.binop(op, x, y, ty[2], flags) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        a, b = nz(a), nz(b)
        if op == 'fadd':
            return add(a, b)
        if op == 'fsub':
            return sub(a, b)
        if op in ('fmul', 'fdiv') and (a is INF or a is NINF) and b.op not in ('q', 'sp') or op == 'fmul' and (b is INF or b is NINF) and a.op not in ('q', 'sp'):
            # infinity times or over a symbolic number: its sign decides
            s, o = (a, b) if a.op == 'sp' else (b, a)
            if self.decide(lt(ZERO, o)):
                return s
            if self.decide(lt(o, ZERO)):
                return INF if s is NINF else NINF
            return NAN if op == 'fmul' else s
        if op == 'fmul':
            return mul(a, b)
        if op == 'fdiv':
            if self.zeros and b.op not in ('q', 'sp') and self.known(eq(b, ZERO)) is True:
                b = ZERO
            if b.op == 'q' and b.args[0] == 0 and a.op != 'q' and a.op != 'sp':
                # symbolic / 0 : sign decides which infinity
                if self.decide(eq(a, ZERO)):
                    return NAN
                return INF if self.decide(lt(ZERO, a)) else NINF
            return div(a, b)
        if op == 'frem':
            return self.fmod(a, b)
        n = ty[1] if ty[0] == 'i' else 64
        if isinstance(a, P2I) or isinstance(b, P2I):
            if op == 'sub' and isinstance(a, P2I) and isinstance(b, P2I):
                if a.p.r is b.p.r:
                    return sub(a.p.o, b.p.o)
                raise Unsupported('difference of unrelated pointers')
            if op == 'add':
                pa, o = (a, b) if isinstance(a, P2I) else (b, a)
                return P2I(Ptr(pa.p.r, add(pa.p.o, o)))
            if op == 'sub' and isinstance(a, P2I):
                return P2I(Ptr(a.p.r, sub(a.p.o, b)))
            if op == 'and' and isinstance(b, Term) and b.op == 'i' and isinstance(a, P2I):
                # alignment tests: regions are 16-byte aligned
                m = b.args[0]
                if 0 <= m < 16 and a.p.o.op == 'i':
                    return ic(a.p.o.args[0] & m)
                if m < 0:
                    return a
            raise Unsupported('pointer arithmetic ' + op)
        if a.sort == 'R' or b.sort == 'R':
            if op == 'and' and b.op == 'i' and b.args[0] == 0x7fffffffffffffff:
                return fn('abs', a)
            raise Unsupported('bit operation on a double')
        if ty == ('i', 1):
            if op == 'xor':
                if b is TRUE:
                    return not_(a)
                if a is TRUE:
                    return not_(b)
                return not_(eq(a, b))
            if op in ('and', 'mul'):
                return and_(a, b)
            if op == 'or':
                return or_(a, b)
            if op in ('add', 'sub'):
                return not_(eq(a, b))
            raise Unsupported('i1 ' + op)
        a, b = self.b2i(a), self.b2i(b)
        if a.op == 'i' and b.op == 'i':
            return ic(self.cint(op, a.args[0], b.args[0], n))
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            return mul(a, b)
        if op == 'shl' and b.op == 'i':
            return mul(a, ic(1 << b.args[0]))
        if op == 'shl' and a.op == 'i':
            r = self.concretise_small(b)
            return ic(a.args[0] << r)
        if op in ('sdiv',):
            d = idiv_exact(a, b.args[0]) if b.op == 'i' and b.args[0] else None
            return d if d is not None else idivt(a, b)
        if op == 'udiv':
            d = idiv_exact(a, b.args[0]) if b.op == 'i' and b.args[0] else None
            return d if d is not None else idivf(a, b)
        if op in ('ashr', 'lshr') and b.op == 'i':
            k = 1 << b.args[0]
            if op == 'lshr' and b.args[0] == n - 1:
                return ite(lt(a, I0), ic(1), I0)
            d = idiv_exact(a, k)
            return d if d is not None else idivf(a, ic(k))
        if op == 'urem':
            return imodf(a, b)
        if op == 'srem':
            return sub(a, mul(b, idivt(a, b)))
        if op == 'and' and b.op == 'i':
            m = b.args[0]
            if m >= 0 and (m & (m + 1)) == 0:
                if m >= 0x7fffffff and not self.ctx.feasible(self, not_(and_(le(I0, a), le(a, ic(m))))):
                    return a
                return imodf(a, ic(m + 1))
            if m < 0 and ((-m) & (-m - 1)) == 0:
                return sub(a, imodf(a, ic(-m)))
        if op == 'and' and a.op == 'ite' and a.args[1].op == 'i' and a.args[2].op == 'i':
            return ite(a.args[0], self.binop('and', a.args[1], b, ty, flags), self.binop('and', a.args[2], b, ty, flags))
        if op == 'or' and 'disjoint' in flags:
            return add(a, b)
        if op == 'xor' and b.op == 'i' and b.args[0] == -1:
            return sub(ic(-1), a)
        if op in ('and', 'or', 'xor'):
            # fork small conditionals
            for x, y, sw in ((a, b, False), (b, a, True)):
                if x.op == 'ite' and x.args[1].op == 'i' and x.args[2].op == 'i':
                    xv = x.args[1] if self.decide(x.args[0]) else x.args[2]
                    return self.binop(op, xv, y, ty, flags)
            if op == 'or' and b.op == 'i' and b.args[0] == 0:
                return a
            if op == 'or' and a.op == 'i' and a.args[0] == 0:
                return b
            if op == 'and' and ((a.op == 'i' and a.args[0] == 0) or (b.op == 'i' and b.args[0] == 0)):
                return I0
        raise Unsupported('integer %s of symbolic values %s %s' % (op, show(a, 60), show(b, 60)))

    def concretise_small(self, b):
        for k in range(0, 32):
            if self.decide(eq(b, ic(k))):
                return k
        raise Unsupported('shift amount')

    @staticmethod
    def cint(op, x, y, n):
        M = 1 << n
        ux, uy = x % M, y % M
        sx = ux - M if ux >> (n - 1) else ux
        sy = uy - M if uy >> (n - 1) else uy
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul': r = x * y
        elif op == 'shl': r = x << uy
        elif op == 'lshr': r = ux >> uy
        elif op == 'ashr': r = sx >> uy
        elif op == 'and': r = ux & uy
        elif op == 'or': r = ux | uy
        elif op == 'xor': r = ux ^ uy
        elif op == 'udiv': r = ux // uy
        elif op == 'urem': r = ux % uy
        elif op == 'sdiv': r = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
        elif op == 'srem': r = abs(sx) % abs(sy) * (-1 if sx < 0 else 1)
        else: raise Unsupported(op)
        r %= M
        return r - M if r >> (n - 1) else r

    def icmp(self, pred, a, b, ty):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of undefined value')
        if ty[0] == 'ptr' or isinstance(a, (Ptr, P2I)) or isinstance(b, (Ptr, P2I)):
            pa = a.p if isinstance(a, P2I) else a
            pb = b.p if isinstance(b, P2I) else b
            if isinstance(pa, Term):
                pa = Ptr(None, pa)
            if isinstance(pb, Term):
                pb = Ptr(None, pb)
            if pa.r is pb.r:
                x, y = pa.o, pb.o
                return {'eq': eq, 'ne': ne, 'ult': lt, 'ule': le, 'ugt': lambda u, v: lt(v, u), 'uge': lambda u, v: le(v, u),
                        'slt': lt, 'sgt': lambda u, v: lt(v, u)}[pred](x, y)
            if pred == 'eq':
                return FALSE
            if pred == 'ne':
                return TRUE
            # ordering of unrelated objects: by region id (assumption)
            ia = pa.r.id if pa.r else 0
            ib = pb.r.id if pb.r else 0
            return TRUE if {'ult': ia < ib, 'ule': ia < ib, 'ugt': ia > ib, 'uge': ia > ib}[pred] else FALSE
        if a.sort == 'R' or b.sort == 'R':
            # sign / zero tests on the bits of a double
            # (a symbolic zero is read as +0; the literal -0.0 keeps its sign)
            if b.op == 'i' and b.args[0] == 0 and pred == 'slt':
                return TRUE if a is NZERO else lt(a, ZERO)
            if b.op == 'i' and b.args[0] == -1 and pred == 'sgt':
                return FALSE if a is NZERO else le(ZERO, a)
            raise Unsupported('integer comparison of double bits')
        if a.sort == 'B' or b.sort == 'B':
            if pred == 'eq':
                return eq(a, b)
            if pred == 'ne':
                return not_(eq(a, b))
            a, b = self.b2i(a), self.b2i(b)
        n = ty[1]
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return ne(a, b)
        if pred[0] == 's':
            return {'slt': lt, 'sle': le, 'sgt': lambda u, v: lt(v, u), 'sge': lambda u, v: le(v, u)}[pred](a, b)
        # unsigned
        if a.op == 'i' and b.op == 'i':
            x, y = a.args[0] % (1 << n), b.args[0] % (1 << n)
            return TRUE if {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred] else FALSE
        if pred == 'ult':
            return self.ult(a, b, n)
        if pred == 'ule':
            return not_(self.ult(b, a, n))
        if pred == 'ugt':
            return self.ult(b, a, n)
        return not_(self.ult(a, b, n))

    def ult(self, a, b, n):
        big = 1 << (n - 1)
        if b.op == 'i' and (b.args[0] < 0 or b.args[0] >= big):
            v = b.args[0] % (1 << n) - (1 << n)
            return or_(le(I0, a), lt(a, ic(v)))
        if a.op == 'i' and a.args[0] < 0:
            return FALSE if True else None
        na, nb = self.isnonneg(a), self.isnonneg(b)
        if na and nb:
            return lt(a, b)
        if nb:
            return and_(le(I0, a), lt(a, b))
        if na:
            return or_(lt(b, I0), lt(a, b))
        return or_(and_(le(I0, a), lt(b, I0)), and_(lt(a, b), le(I0, a)), and_(lt(a, b), lt(b, I0)))

    def isnonneg(self, t):
        if t.op == 'i':
            return t.args[0] >= 0
        if le(I0, t) in self.facts or lt(I0, t) in self.facts:
            return True
        if t in self.ctx.nonneg:
            return True
        if t.op == '+':
            return self.isnonneg(t.args[0]) and self.isnonneg(t.args[1])
        if t.op == '*':
            return self.isnonneg(t.args[0]) and self.isnonneg(t.args[1])
        if t.op == 'ite':
            return self.isnonneg(t.args[1]) and self.isnonneg(t.args[2])
        if t.op == 'modf':
            return t.args[1].op == 'i' and t.args[1].args[0] > 0
        if t.op == 'divf':
            return self.isnonneg(t.args[0]) and self.isnonneg(t.args[1])
        return False

    def fcmp(self, pred, a, b):
        if isinstance(a, list):
            return [self.fcmp(pred, x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of undefined value')
        a, b = nz(a), nz(b)
        nan = a is NAN or b is NAN
        if pred == 'true':
            return TRUE
        if pred == 'false':
            return FALSE
        if pred == 'ord':
            return FALSE if nan else TRUE
        if pred == 'uno':
            return TRUE if nan else FALSE
        if nan:
            return TRUE if pred[0] == 'u' else FALSE
        p = pred[1:]
        return {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': lambda u, v: lt(v, u), 'ge': lambda u, v: le(v, u)}[p](a, b)

    # ---- decisions ---------------------------------------------------------------------
    def assume(self, c):
        if c is TRUE:
            return
        if c.op == 'and':
            for x in c.args:
                self.assume(x)
            return
        if c not in self.facts:
            self.pc.append(c)
            self.facts.add(c)
            self.notezero(c)

    def notezero(self, c):
        if c.op == '==' and c.args[0].sort == 'R':
            if c.args[0] is ZERO:
                self.zeros.add(c.args[1])
            elif c.args[1] is ZERO:
                self.zeros.add(c.args[0])

    def known(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.facts:
            return True
        n = not_(c)
        if n in self.facts:
            return False
        # implied by an opposite strict comparison
        if c.op == '<' and lt(c.args[1], c.args[0]) in self.facts:
            return False
        if c.op == '<' and (eq(c.args[1], c.args[0]) in self.facts):
            return False
        if c.op == '==' and c.args[0].sort != 'B':
            a, b = c.args
            if lt(a, b) in self.facts or lt(b, a) in self.facts:
                return False
        if c.op == '<=' and lt(c.args[0], c.args[1]) in self.facts:
            return True
        if c.op == '<=' and eq(c.args[0], c.args[1]) in self.facts:
            return True
        if c.op == 'and':
            ks = [self.known(x) for x in c.args]
            if all(k is True for k in ks):
                return True
            if any(k is False for k in ks):
                return False
        if c.op == 'or':
            ks = [self.known(x) for x in c.args]
            if all(k is False for k in ks):
                return False
            if any(k is True for k in ks):
                return True
        return None

    def decide(self, c):
        k = self.known(c)
        if k is not None:
            return k
        if c.op == 'not':
            return not self.decide(c.args[0])
        # short-circuit compound conditions so that the path condition stays a conjunction of literals
        if c.op == 'and':
            for x in c.args:
                if not self.decide(x):
                    return False
            return True
        if c.op == 'or':
            for x in c.args:
                if self.decide(x):
                    return True
            return False
        r = self.ctx.choose(self, c)
        self.assume(c if r else not_(c))
        return r

    # ---- execution ---------------------------------------------------------------------
    def call(self, f, args):
        """run a function with a body"""
        if len(self.stack) > 120:
            raise Unsupported('call depth')
        mod = f.mod
        f.parse()
        loc = {}
        for (t, nm, bv), a in zip(f.params, args):
            loc[nm] = a
        self.stack.append(f)
        mt = f.mustthrow()
        loops = None
        b = f.entry()
        prev = None
        steps = 0
        visits = {}
        entry_args = list(args)
        lspec = self.ctx.loopspec(f)
        while True:
            if b in mt:
                self.checkcatch()
                if DEBUG: print('mustthrow', f.name, b)
                raise Thrown(self.prog.demname(f.name))
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > self.ctx.maxvisits:
                raise Unsupported('loop in %s not bounded by %d iterations' % (self.prog.demname(f.name), self.ctx.maxvisits))
            ii = f.insts(b)
            # phis
            n = 0
            if ii and ii[0].op == 'phi':
                vals = []
                while n < len(ii) and ii[n].op == 'phi':
                    it = ii[n]
                    for v, lab in it.a:
                        if lab == prev:
                            vals.append((it.dst, self.value(v, it.ty, loc, mod)))
                            break
                    else:
                        raise Unsupported('phi')
                    n += 1
                for d, v in vals:
                    loc[d] = v
            if lspec is not None and b in f.loops():
                self.ctx.loophead(self, lspec, f, b, prev, loc, ii[:n], entry_args)
            for it in ii[n:]:
                self.steps += 1
                op = it.op
                if op == 'jmp':
                    prev, b = b, it.a[0]
                    break
                if op == 'br':
                    c = self.value(it.a[0], ir.I1, loc, mod)
                    if c is UNDEF:
                        raise Unsupported('branch on undefined value in ' + f.name)
                    prev, b = b, (it.a[1] if self.decide(c) else it.a[2])
                    break
                if op == 'ret':
                    self.stack.pop()
                    if it.a[0] is None:
                        return None
                    return self.value(it.a[0], it.ty, loc, mod)
                if op == 'switch':
                    c = self.value(it.a[0], it.ty, loc, mod)
                    tgt = it.a[1]
                    for cv, lab in it.a[2]:
                        if it.ty == ir.I1:
                            cc = c if cv[1] else not_(c)
                        else:
                            cc = eq(c, ic(cv[1]))
                        if self.decide(cc):
                            tgt = lab
                            break
                    prev, b = b, tgt
                    break
                if op == 'unreachable':
                    raise Thrown('unreachable in ' + f.name)
                try:
                    r = self.inst(it, loc, mod, f)
                except Unsupported as e:
                    if not getattr(e, 'where', None):
                        e.where = ' < '.join(self.prog.demname(g.name)[:90] for g in self.stack[-1:-5:-1]) + ' :: %s %s %r' % (it.dst, op, it.a)
                        if DEBUG:
                            sys.stderr.write('UNSUPPORTED %s at %s\n' % (e, e.where))
                    raise
                if it.dst is not None:
                    loc[it.dst] = r
                if op == 'call' and it.a[2] is not None:
                    prev, b = b, it.a[2]
                    break
            if self.steps > self.ctx.maxsteps:
                raise Unsupported('too many steps')

    def checkcatch(self):
        # a throw that would be caught by a handler on the stack is not modelled
        for f in self.stack[:-1]:
            if self.ctx.hascatch(f):
                raise Unsupported('exception passes a handler in ' + f.name)

    def inst(self, it, loc, mod, f):
        op = it.op
        if op in ir.BIN:
            a = self.value(it.a[0], it.ty, loc, mod)
            b = self.value(it.a[1], it.ty, loc, mod)
            return self.binop(op, a, b, it.ty, it.a[2])
        if op == 'fneg':
            a = nz(self.value(it.a[0], it.ty, loc, mod))
            if isinstance(a, list):
                return [neg(x) for x in a]
            return UNDEF if a is UNDEF else neg(a)
        if op == 'load':
            return self.load(self.value(it.a[0], ir.PTR, loc, mod), it.ty, mod)
        if op == 'store':
            ty, v = None, it.a[0]
            val = self.value(v, it.ty, loc, mod)
            p = self.value(it.a[1], ir.PTR, loc, mod)
            self.storev(p, val, it.ty, mod)
            return None
        if op == 'getelementptr':
            return self.gep(it.ty, it.a, loc, mod)
        if op == 'alloca':
            n = 1
            if it.a[0] is not None:
                nv = self.value(it.a[0][1], it.a[0][0], loc, mod)
                if nv.op != 'i':
                    return Ptr(self.region('alloca', None), I0)
                n = nv.args[0]
            return Ptr(self.region('alloca:' + (it.dst or ''), mod.sizeof(it.ty) * n), I0)
        if op == 'icmp':
            a = self.value(it.a[1], it.ty, loc, mod)
            b = self.value(it.a[2], it.ty, loc, mod)
            return self.icmp(it.a[0], a, b, it.ty)
        if op == 'fcmp':
            return self.fcmp(it.a[0], self.value(it.a[1], it.ty, loc, mod), self.value(it.a[2], it.ty, loc, mod))
        if op == 'select':
            c = self.value(it.a[0], ir.I1, loc, mod)
            if isinstance(c, list):
                a = self.value(it.a[1], it.ty, loc, mod)
                b = self.value(it.a[2], it.ty, loc, mod)
                return [self.select(x, y, z, it.ty[2]) for x, y, z in zip(c, a, b)]
            a = self.value(it.a[1], it.ty, loc, mod)
            b = self.value(it.a[2], it.ty, loc, mod)
            return self.select(c, a, b, it.ty)
        if op in ir.CASTS:
            return self.cast(op, self.value(it.a[1], it.a[0], loc, mod), it.a[0], it.ty)
        if op == 'call':
            return self.docall(it, loc, mod, f)
        if op == 'extractvalue':
            v = self.value(it.a[0], it.ty, loc, mod)
            for i in it.a[1]:
                if v is UNDEF:
                    return v
                v = v[i]
            return v
        if op == 'insertvalue':
            v = self.value(it.a[0], it.ty, loc, mod)
            w = self.value(it.a[2], it.a[1], loc, mod)
            return self.insval(v, w, it.a[3], it.ty, mod)
        if op == 'insertelement':
            v = self.value(it.a[0], it.ty, loc, mod)
            n = it.ty[1]
            v = [UNDEF] * n if v is UNDEF else list(v)
            i = self.value(it.a[2], ir.I64, loc, mod)
            v[i.args[0]] = self.value(it.a[1], it.ty[2], loc, mod)
            return v
        if op == 'extractelement':
            v = self.value(it.a[0], it.ty, loc, mod)
            i = self.value(it.a[1], ir.I64, loc, mod)
            return UNDEF if v is UNDEF else v[i.args[0]]
        if op == 'shufflevector':
            v = self.value(it.a[0], it.ty, loc, mod)
            w = self.value(it.a[1], it.ty, loc, mod)
            m = self.value(it.a[3], it.a[2], loc, mod)
            n = it.ty[1]
            v = [UNDEF] * n if v is UNDEF else v
            w = [UNDEF] * n if w is UNDEF else w
            if m is UNDEF:
                return [UNDEF] * it.a[2][1]
            vw = list(v) + list(w)
            return [UNDEF if x is UNDEF else vw[x.args[0]] for x in m]
        if op == 'freeze':
            v = self.value(it.a[0], it.ty, loc, mod)
            return v
        if op == 'atomicrmw':
            p = self.value(it.a[1], ir.PTR, loc, mod)
            old = self.load(p, it.ty, mod)
            v = self.value(it.a[2], it.ty, loc, mod)
            if it.a[0] == 'add':
                new = add(old, v)
            elif it.a[0] == 'sub':
                new = sub(old, v)
            elif it.a[0] == 'xchg':
                new = v
            else:
                raise Unsupported('atomicrmw ' + it.a[0])
            self.storev(p, new, it.ty, mod)
            return old
        if op in ('fence',):
            return None
        raise Unsupported('instruction %s' % it.raw[:120])

    def insval(self, v, w, idx, ty, mod):
        ty = mod.resolve(ty)
        n = len(ty[1]) if ty[0] == 'struct' else ty[1]
        v = [UNDEF] * n if v is UNDEF else list(v)
        if len(idx) == 1:
            v[idx[0]] = w
        else:
            et = ty[1][idx[0]] if ty[0] == 'struct' else ty[2]
            v[idx[0]] = self.insval(v[idx[0]], w, idx[1:], et, mod)
        return v

    def select(self, c, a, b, ty):
        if c is UNDEF:
            raise Unsupported('select on undefined value')
        k = self.known(c)
        if k is not None:
            return a if k else b
        if a is b:
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            if a.sort == 'B':
                return ite(c, a, b)
            if a.sort == 'I' and not self.ctx.forkselect_int:
                return ite(c, a, b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return a if self.decide(c) else b

    def storev(self, p, val, ty, mod):
        ty = mod.resolve(ty)
        if ty[0] == 'struct':
            if val is UNDEF:
                return
            for i, f in enumerate(ty[1]):
                self.storev(Ptr(p.r, add(p.o, ic(mod.field_offset(ty, i)))), val[i], f, mod)
            return
        if ty[0] in ('array', 'vec'):
            if val is UNDEF:
                return
            es = mod.sizeof(ty[2])
            for i in range(ty[1]):
                self.storev(Ptr(p.r, add(p.o, ic(i * es))), val[i], ty[2], mod)
            return
        if ty == ir.I1:
            val = self.b2i(val)
        if isinstance(val, Term) and val.sort == 'B':
            val = self.b2i(val)
        self.store(p, val, mod.sizeof(ty))

    # ---- calls -------------------------------------------------------------------------
    def docall(self, it, loc, mod, f):
        callee, args, norm, unw = it.a
        if callee[0] == 'global':
            name = callee[1]
        else:
            p = self.value(callee, ir.PTR, loc, mod)
            if not isinstance(p, Ptr) or p.r is None or p.r.kind not in ('func', 'extern'):
                raise Unsupported('indirect call through %r in %s' % (p, f.name))
            if p.r.kind == 'func':
                fobj, name = p.r.data
                av = self.args(args, loc, mod)
                h = self.ctx.contract(self.prog, name)
                if h:
                    return h(self, av)
                return self.call(fobj, av)
            name = p.r.data[1]
        if name.startswith('@llvm.'):
            return self.intrinsic(name, args, loc, mod, it)
        av = self.args(args, loc, mod)
        h = self.ctx.contract(self.prog, name)
        if h:
            return h(self, av)
        g = self.prog.find(mod, name)
        if g is not None:
            return self.call(g, av)
        return self.external(name, av, it)

    def args(self, args, loc, mod):
        out = []
        for t, v, bv in args:
            x = self.value(v, t, loc, mod)
            if bv is not None:
                n = mod.sizeof(bv)
                q = self.newptr('byval', n)
                self.memcpy(q, x, ic(n))
                x = q
            out.append(x)
        return out

    def memcpy(self, d, s, n):
        if n.op != 'i':
            return self.symcopy(d, s, n)
        n = n.args[0]
        if n == 0:
            return
        sr, dr = s.r, d.r
        if sr is None or dr is None:
            raise Unsupported('memcpy null')
        if sr.kind in ('global', 'const'):
            self.ginit(sr)
        if s.o.op != 'i' or d.o.op != 'i' or sr.log is not None or sr.kind == 'arr' or dr.log is not None:
            # element-wise copy of doubles
            if n % 8 == 0 and n <= 4096:
                vals = [self._load(sr, add(s.o, ic(8 * i)), 8, ir.DOUBLE) for i in range(n // 8)]
                for i, v in enumerate(vals):
                    if v is not UNDEF:
                        self.store(Ptr(dr, add(d.o, ic(8 * i))), v, 8)
                return
            raise Unsupported('memcpy with symbolic offsets')
        so, do = s.o.args[0], d.o.args[0]
        cells = [(k - so + do, v) for k, v in sr.cells.items() if so <= k and k + v[1] <= so + n]
        zer = [(max(a, so) - so + do, min(e, so + n) - so + do) for a, e in sr.zero if a < so + n and e > so]
        for k, v in sr.cells.items():
            if k < so + n and k + v[1] > so and not (so <= k and k + v[1] <= so + n):
                raise Unsupported('memcpy splits a cell')
        self.clearrange(dr, do, n)
        for a, e in zer:
            dr.zero.append((a, e))
        for k, v in cells:
            dr.cells[k] = v
        self.ctx.onwrite(self, dr, d.o, n)

    def clearrange(self, r, o, n):
        if r.kind == 'const':
            raise Unsupported('write to constant')
        if r.size is not None and o + n > r.size:
            raise Unsupported('out-of-bounds block write to %s' % r.name)
        self._clear(r, o, n)
        r.cells = {k: v for k, v in r.cells.items() if k + v[1] <= o or k >= o + n}
        z = []
        for a, e in r.zero:
            if a < o:
                z.append((a, min(e, o)))
            if e > o + n:
                z.append((max(a, o + n), e))
        r.zero = z

    def memset(self, d, v, n):
        if n.op != 'i':
            if v.op == 'i' and v.args[0] == 0:
                # zero-fill of a symbolic-size block: becomes an abstract zero array
                r = d.r
                if d.o is I0 or d.o.op == 'i' and d.o.args[0] == 0:
                    r.zero = [(0, 1 << 40)]
                    r.cells = {}
                    r.log = None
                    return
            raise Unsupported('memset of symbolic size')
        n = n.args[0]
        if n == 0:
            return
        if d.o.op != 'i':
            raise Unsupported('memset at symbolic offset')
        o = d.o.args[0]
        if v.op != 'i':
            raise Unsupported('memset value')
        if d.r.log is not None:
            raise Unsupported('memset over symbolic writes')
        self.clearrange(d.r, o, n)
        if v.args[0] % 256 == 0:
            d.r.zero.append((o, o + n))
        else:
            for i in range(n):
                d.r.cells[o + i] = (ic(v.args[0] % 256), 1)
        self.ctx.onwrite(self, d.r, d.o, n)

    def symcopy(self, d, s, n):
        if d.r.cells or d.r.log:
            raise Unsupported('symbolic-size copy into a non-empty block')
        if s.o is I0 and d.o is I0 and s.r.kind == 'arr':
            d.r.kind = 'arr'
            d.r.data = s.r.data
            d.r.log = list(s.r.log) if s.r.log else None
            d.r.cells = dict(s.r.cells)
            return
        raise Unsupported('symbolic-size copy')

    def intrinsic(self, name, args, loc, mod, it):
        n = name[6:]
        b = n.split('.')[0]
        if n.startswith(('lifetime', 'dbg', 'experimental.noalias', 'invariant', 'donothing', 'stacksave', 'stackrestore', 'prefetch')):
            return UNDEF
        av = self.args(args, loc, mod)
        if n.startswith('assume'):
            return None
        if n.startswith(('memcpy', 'memmove')):
            self.memcpy(av[0], av[1], av[2])
            return None
        if n.startswith('memset'):
            self.memset(av[0], av[1], av[2])
            return None
        if av and isinstance(av[0], list) and b in ('fabs', 'sqrt', 'fmuladd', 'minnum', 'maxnum'):
            return [self.intr1(b, n, list(x)) for x in zip(*av)]
        return self.intr1(b, n, av)

    def intr1(self, b, n, av):
        if any(x is UNDEF for x in av):
            return UNDEF
        if b == 'fabs':
            return fn('abs', av[0])
        if b in ('sqrt', 'sin', 'cos', 'exp', 'log', 'floor', 'ceil', 'pow'):
            return self.libm(b, av)
        if b in ('fmuladd', 'fma'):
            return add(mul(av[0], av[1]), av[2])
        if b == 'powi':
            return self.libm('pow', [av[0], toreal(av[1])])
        if b == 'copysign':
            av[0] = nz(av[0])
            if av[1] is NZERO or self.decide(lt(av[1], ZERO)):
                return NZERO if av[0] is ZERO else neg(fn('abs', av[0]))
            return fn('abs', av[0])
        av = [nz(x) for x in av]
        if b in ('minnum', 'minimum'):
            return av[0] if self.decide(lt(av[0], av[1])) else av[1]
        if b in ('maxnum', 'maximum'):
            return av[0] if self.decide(lt(av[1], av[0])) else av[1]
        if b == 'exp2':
            return self.libm('pow', [q(2), av[0]])
        if b in ('rint', 'nearbyint', 'round'):
            return fn('floor', add(av[0], q(Fraction(1, 2))))
        if b == 'trunc':
            return toreal(truncr(av[0]))
        if b in ('smax', 'umax'):
            x, y = av
            if isinstance(x, P2I) or isinstance(y, P2I):
                raise Unsupported('max of pointers')
            return self.select(lt(x, y), y, x, ir.I64)
        if b in ('smin', 'umin'):
            x, y = av
            return self.select(lt(x, y), x, y, ir.I64)
        if b == 'abs':
            return self.select(lt(av[0], I0), neg(av[0]), av[0], ir.I64)
        if b == 'usub' and '.sat' in n:
            x, y = av
            return self.select(lt(x, y), I0, sub(x, y), ir.I64)
        if b in ('umul', 'smul', 'uadd', 'sadd', 'usub', 'ssub') and 'with.overflow' in n:
            op = {'mul': mul, 'add': add, 'sub': sub}[b[1:]]
            return [op(av[0], av[1]), FALSE]
        if b == 'is':      # is.fpclass
            x = av[0]
            m = av[1].args[0]
            if x.op == 'sp':
                c = {'nan': 3, 'inf': 0x200, '-inf': 0x4}[x.args[0]]
                return TRUE if m & c else FALSE
            x = nz(x)
            rest = []
            if m & 0x18:       # negative (subnormals are not distinguished from normal numbers)
                rest.append(lt(x, ZERO))
            if m & 0x60:
                rest.append(eq(x, ZERO))
            if m & 0x180:
                rest.append(lt(ZERO, x))
            if len(rest) in (0, 3):
                return TRUE if rest else FALSE
            if not m & 0x60:
                return not_(eq(x, ZERO)) if len(rest) == 2 else rest[0]
            return rest[0] if len(rest) == 1 else not_(rest and (lt(ZERO, x) if m & 0x18 else lt(x, ZERO)))
        if b in ('expect',):
            return av[0]
        if b == 'objectsize':
            return ic(-1)
        if b == 'eh':
            return ic(1)
        if b in ('ctlz', 'cttz', 'ctpop'):
            x = av[0]
            if x.op == 'i':
                v = x.args[0]
                w = int(n.rsplit('i', 1)[1])
                v %= 1 << w
                if b == 'ctlz':
                    return ic(w - v.bit_length())
                if b == 'ctpop':
                    return ic(bin(v).count('1'))
                return ic((v & -v).bit_length() - 1 if v else w)
        if b == 'trap':
            raise Thrown('trap')
        if b == 'is.constant':
            return FALSE
        raise Unsupported('intrinsic ' + n)

    def libm(self, name, av):
        if name == 'pow':
            return self.pow(av[0], av[1])
        if name == 'log' and av[0].op == 'q' and av[0].args[0] <= 0:
            return NINF if av[0].args[0] == 0 else NAN
        return fn(name, *av)

    def fmod(self, a, b):
        if isclosed(b) and self.decide(lt(a, b)) and self.decide(lt(neg(b), a)):
            return a
        return sub(a, mul(toreal(truncr(div(a, b))), b))

    def pow(self, a, e):
        a, e = nz(a), nz(e)
        if (a is INF or a is ZERO) and e.op not in ('q', 'sp'):     # the sign of the exponent decides
            if self.decide(eq(e, ZERO)):
                return ONE
            return INF if self.decide(lt(ZERO, e)) == (a is INF) else ZERO
        return fn('pow', a, e)

    def dyncast(self, p, dst):
        """walk the run-time type information of the complete object"""
        m = self.prog.mods[0]
        if p.r is None:
            return NULL
        vp = self.load(p, ('ptr',), m)
        top = self.load(Ptr(vp.r, add(vp.o, ic(-16))), ('i', 64), m)
        if isinstance(top, Ptr):
            top = top.o
        ti = self.load(Ptr(vp.r, add(vp.o, ic(-8))), ('ptr',), m)
        found = []

        def walk(t, off):
            if t.r.name == dst.r.name:
                found.append(off)
                return
            kind = self.load(t, ('ptr',), m).r.name
            if '__si_class' in kind:
                walk(self.load(Ptr(t.r, ic(16)), ('ptr',), m), off)
            elif '__vmi_class' in kind:
                for i in range(self.load(Ptr(t.r, ic(20)), ('i', 32), m).args[0]):
                    fl = self.load(Ptr(t.r, ic(32 + 16 * i)), ('i', 64), m).args[0]
                    if fl & 1:
                        raise Unsupported('dynamic_cast over a virtual base')
                    if fl & 2:
                        walk(self.load(Ptr(t.r, ic(24 + 16 * i)), ('ptr',), m), off + (fl >> 8))
        walk(ti, 0)
        if len(set(found)) != 1:
            return NULL
        return Ptr(p.r, add(add(p.o, top), ic(found[0])))

    def external(self, name, av, it):
        n = name[1:].strip('"')
        av = [nz(x) for x in av]
        if n in LIBM:
            if any(x is UNDEF for x in av):
                return UNDEF
            return self.libm(n, av)
        if n in ('fabs',):
            return fn('abs', av[0])
        if n == 'hypot':
            return fn('sqrt', add(mul(av[0], av[0]), mul(av[1], av[1])))
        if n in ('round', 'rint', 'nearbyint'):
            return fn('floor', add(av[0], q(Fraction(1, 2))))
        if n in ('trunc',):
            return toreal(truncr(av[0]))
        if n == 'fmod':
            return self.fmod(*av)
        if n in ('fmin', 'fmax'):
            return self.intr1({'fmin': 'minnum', 'fmax': 'maxnum'}[n], n, av)
        if n == 'sincos':
            self.store(av[1], fn('sin', av[0]), 8)
            self.store(av[2], fn('cos', av[0]), 8)
            return None
        if n in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            s = av[0]
            r = self.region('heap', s.args[0] if s.op == 'i' else None)
            r.base = s
            return Ptr(r, I0)
        if n == 'calloc':
            s = mul(av[0], av[1])
            r = self.region('heap', s.args[0] if s.op == 'i' else None)
            r.zero.append((0, s.args[0] if s.op == 'i' else 1 << 40))
            return Ptr(r, I0)
        if n in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t'):
            return None
        if n in ('memcpy', 'memmove'):
            self.memcpy(av[0], av[1], av[2])
            return av[0]
        if n == 'memset':
            self.memset(av[0], av[1], av[2])
            return av[0]
        if n in ('__cxa_guard_acquire',):
            v = self.load(av[0], ('i', 8), self.prog.mods[0])
            return ic(1) if v is I0 or v is UNDEF else ic(0)
        if n == '__cxa_guard_release':
            self.store(av[0], ic(1), 1)
            return None
        if n in ('__cxa_atexit', '__cxa_pure_virtual', 'atexit'):
            return ic(0)
        if n in ('__cxa_throw', '__cxa_rethrow', 'abort', 'exit', '_ZSt9terminatev', '__assert_fail',
                 '_ZSt17__throw_bad_allocv', '__cxa_throw_bad_array_new_length') or n.startswith('_ZSt') and '__throw_' in n:
            self.checkcatch()
            raise Thrown(n)
        if n == '__dynamic_cast':
            return self.dyncast(av[0], av[2])
        if n.startswith('__omp') or n.startswith('omp_'):
            return ic(0)
        raise Unsupported('external function ' + self.prog.demname(name))


def idiv_exact(t, k):
    """t/k when every coefficient is divisible"""
    d = T._lin(t)
    if all(v % k == 0 for v in d.values()):
        return T._from_lin({a: v // k for a, v in d.items()})
    return None
