"""Parser for the textual LLVM IR that clang emits for /repo's sources (LLVM 18, opaque pointers)."""
import re

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"[^"]*")
 | (?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 | (?P<hexf>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>-?\d+\.\d*(?:[eE][-+]?\d+)?)
 | (?P<int>-?\d+)
 | (?P<attr>\#\d+)
 | (?P<meta>![a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_][-a-zA-Z_0-9.]*)
 | (?P<str>"[^"]*")
 | (?P<p>[()\[\]{}<>,=*:|$])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('token: ' + s[i:i + 40])
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


# types: tuples.  ('i',n) ('double',) ('float',) ('ptr',) ('void',) ('struct',(t..),packed)
#        ('array',n,t) ('vec',n,t) ('named',name) ('label',) ('metadata',) ('x86_fp80',)
DOUBLE = ('double',)
PTR = ('ptr',)
I64 = ('i', 64)
I32 = ('i', 32)
I1 = ('i', 1)

PARAM_ATTRS = set('''noundef nonnull readonly writeonly readnone nocapture noalias signext zeroext
 returned immarg inreg nest swiftself swifterror nofree noreturn nounwind allocalign allocptr
 inalloca writable dead_on_unwind dead_on_return'''.split())
CC = set('fastcc coldcc ccc tail musttail notail'.split())
FMF = set('fast nnan ninf nsz arcp contract afn reassoc'.split())


class P(object):
    """token cursor"""
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def pv(self):
        return self.peek()[1]

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.pv() == v and self.peek()[0] not in ('str', 'cstr'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r got %r in %r' % (v, self.pv(), ' '.join(x[1] for x in self.t)[:300]))

    def eof(self):
        return self.i >= len(self.t)


def parse_type(p):
    k, v = p.next()
    if k == 'id':
        if re.match(r'i\d+$', v):
            t = ('i', int(v[1:]))
        elif v in ('double', 'float', 'void', 'label', 'metadata', 'x86_fp80', 'token', 'half', 'fp128'):
            t = (v,)
        elif v == 'ptr':
            t = PTR
            if p.accept('addrspace'):
                p.expect('('); p.next(); p.expect(')')
        elif v == 'opaque':
            t = ('opaque',)
        else:
            raise IRError('type ' + v)
    elif k == 'loc':
        t = ('named', v)
    elif v == '[':
        n = int(p.next()[1]); p.expect('x')
        e = parse_type(p); p.expect(']')
        t = ('array', n, e)
    elif v == '{':
        fs = []
        if not p.accept('}'):
            while True:
                fs.append(parse_type(p))
                if p.accept('}'):
                    break
                p.expect(',')
        t = ('struct', tuple(fs), False)
    elif v == '<':
        if p.pv() == '{':
            p.next()
            fs = []
            if not p.accept('}'):
                while True:
                    fs.append(parse_type(p))
                    if p.accept('}'):
                        break
                    p.expect(',')
            p.expect('>')
            t = ('struct', tuple(fs), True)
        else:
            n = int(p.next()[1]); p.expect('x')
            e = parse_type(p); p.expect('>')
            t = ('vec', n, e)
    else:
        raise IRError('type token %r' % v)
    # function types  ret (args)
    if p.pv() == '(' and p.peek()[0] == 'p':
        save = p.i
        try:
            p.next()
            args = []
            va = False
            if not p.accept(')'):
                while True:
                    if p.accept('...'):
                        va = True
                    else:
                        args.append(parse_type(p))
                    if p.accept(')'):
                        break
                    p.expect(',')
            t = ('func', t, tuple(args), va)
        except IRError:
            p.i = save
    return t


# values: ('local',name) ('global',name) ('int',n) ('flt',x) ('null',) ('undef',) ('zero',)
#  ('true',)... ('ce', op, ...) ('agg', [(t,v)..]) ('cstr', bytes)
def _hexf(s):
    import struct
    if s[2] in 'KLMHR':
        if s[2] == 'K':   # x86_fp80
            b = int(s[3:], 16)
            sign = b >> 79
            e = (b >> 64) & 0x7fff
            m = b & ((1 << 64) - 1)
            x = m * 2.0 ** (e - 16383 - 63) if e - 16446 > -1074 - 64 and e < 17000 else 0.0
            return -x if sign else x
        raise IRError('hex float ' + s)
    return struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0]


def parse_value(p, ty):
    k, v = p.next()
    if k == 'loc':
        return ('local', v)
    if k == 'glob':
        return ('global', v)
    if k == 'int':
        return ('int', int(v)) if ty[0] == 'i' else ('flt', float(v))
    if k == 'flt':
        return ('flt', float(v))
    if k == 'hexf':
        return ('flt', _hexf(v))
    if k == 'cstr':
        body = v[2:-1]
        out = bytearray()
        i = 0
        while i < len(body):
            if body[i] == '\\':
                out.append(int(body[i + 1:i + 3], 16)); i += 3
            else:
                out.append(ord(body[i])); i += 1
        return ('cstr', bytes(out))
    if v == 'true':
        return ('int', 1)
    if v == 'false':
        return ('int', 0)
    if v == 'null':
        return ('null',)
    if v in ('undef', 'poison'):
        return ('undef',)
    if v == 'zeroinitializer':
        return ('zero',)
    if v in ('getelementptr',):
        while p.pv() in ('inbounds', 'inrange', 'nuw', 'nusw'):
            p.next()
            if p.pv() == '(' and p.peek(1)[0] == 'int':
                while not p.accept(')'):
                    p.next()
        p.expect('(')
        t = parse_type(p); p.expect(',')
        ops = []
        while True:
            while p.pv() in ('inrange',):
                p.next()
            ot = parse_type(p)
            ops.append((ot, parse_value(p, ot)))
            if p.accept(')'):
                break
            p.expect(',')
        return ('ce', 'gep', t, ops)
    if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
        p.expect('(')
        t = parse_type(p)
        x = parse_value(p, t)
        p.expect('to')
        t2 = parse_type(p)
        p.expect(')')
        return ('ce', v, t, x, t2)
    if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
        while p.pv() in ('nuw', 'nsw'):
            p.next()
        p.expect('(')
        t = parse_type(p); a = parse_value(p, t); p.expect(',')
        t2 = parse_type(p); b = parse_value(p, t2); p.expect(')')
        return ('ce', v, t, a, b)
    if v in ('dso_local_equivalent', 'no_cfi'):
        return parse_value(p, ty)
    if v in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[v]
        if v == '<' and p.accept('{'):
            close = '}'
            packed = True
        else:
            packed = False
        xs = []
        if not p.accept(close):
            while True:
                t = parse_type(p)
                xs.append((t, parse_value(p, t)))
                if p.accept(close):
                    break
                p.expect(',')
        if packed:
            p.expect('>')
        return ('agg', xs)
    if k == 'id' and v == 'asm':
        return ('asm',)
    raise IRError('value %r in %s' % (v, ' '.join(x[1] for x in p.t)[:200]))


def skip_attrs(p):
    align = None
    byval = None
    while True:
        k, v = p.peek()
        if k == 'id' and v in PARAM_ATTRS:
            p.next()
        elif k == 'id' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref',
                                 'elementtype', 'preallocated', 'captures', 'range', 'nofpclass', 'initializes',
                                 'allocsize', 'memory', 'alignstack'):
            p.next()
            if p.accept('('):
                depth = 1
                st = p.i
                while depth:
                    x = p.next()[1]
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                if v == 'byval':
                    byval = parse_type(P(p.t[st:p.i - 1]))
            elif p.peek()[0] == 'int':
                p.next()
        elif k == 'attr':
            p.next()
        elif k == 'str':
            p.next()
            if p.accept('='):
                p.next()
        else:
            break
    return byval


class Inst(object):
    __slots__ = ('op', 'dst', 'ty', 'a', 'raw')

    def __init__(self, op, dst, ty, a, raw):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.raw = raw


CASTS = set('zext sext trunc fpext fptrunc fptosi fptoui sitofp uitofp ptrtoint inttoptr bitcast'.split())
BIN = set('add sub mul shl lshr ashr and or xor sdiv udiv srem urem fadd fsub fmul fdiv frem'.split())


def parse_inst(line):
    p = P(tokenize(line))
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = p.next()[1]
        p.next()
    op = p.next()[1]
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]

    def tv():
        t = parse_type(p)
        return t, parse_value(p, t)
    if op in BIN:
        fl = set()
        while p.pv() in ('nuw', 'nsw', 'exact', 'disjoint') or p.pv() in FMF:
            fl.add(p.next()[1])
        t = parse_type(p)
        a = parse_value(p, t); p.expect(',')
        b = parse_value(p, t)
        return Inst(op, dst, t, (a, b, fl), line)
    if op == 'fneg':
        while p.pv() in FMF:
            p.next()
        t, a = tv()
        return Inst(op, dst, t, (a,), line)
    if op in CASTS:
        while p.pv() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t, a = tv()
        p.expect('to')
        t2 = parse_type(p)
        return Inst(op, dst, t2, (t, a), line)
    if op in ('icmp', 'fcmp'):
        while p.pv() in FMF or p.pv() == 'samesign':
            p.next()
        pred = p.next()[1]
        t = parse_type(p)
        a = parse_value(p, t); p.expect(',')
        b = parse_value(p, t)
        return Inst(op, dst, t, (pred, a, b), line)
    if op == 'load':
        while p.pv() in ('atomic', 'volatile'):
            p.next()
        t = parse_type(p); p.expect(',')
        pt, a = tv()
        return Inst(op, dst, t, (a,), line)
    if op == 'store':
        while p.pv() in ('atomic', 'volatile'):
            p.next()
        t, v = tv(); p.expect(',')
        pt, a = tv()
        return Inst(op, dst, t, (v, a), line)
    if op == 'getelementptr':
        while p.pv() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = parse_type(p); p.expect(',')
        ops = []
        while True:
            ops.append(tv())
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                break
        return Inst(op, dst, t, ops, line)
    if op == 'alloca':
        p.accept('inalloca')
        t = parse_type(p)
        n = None
        if p.accept(','):
            if p.pv() != 'align':
                n = tv()
        return Inst(op, dst, t, (n,), line)
    if op == 'br':
        if p.pv() == 'label':
            p.next()
            return Inst('jmp', None, None, (p.next()[1],), line)
        t, c = tv(); p.expect(',')
        p.expect('label'); a = p.next()[1]; p.expect(',')
        p.expect('label'); b = p.next()[1]
        return Inst('br', None, None, (c, a, b), line)
    if op == 'switch':
        t, c = tv(); p.expect(',')
        p.expect('label'); d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct, cv = tv(); p.expect(','); p.expect('label')
            cases.append((cv, p.next()[1]))
        return Inst('switch', None, t, (c, d, cases), line)
    if op == 'phi':
        while p.pv() in FMF:
            p.next()
        t = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, t); p.expect(',')
            lab = p.next()[1]; p.expect(']')
            inc.append((v, lab))
            if not p.accept(','):
                break
        return Inst(op, dst, t, inc, line)
    if op == 'select':
        while p.pv() in FMF:
            p.next()
        ct, c = tv(); p.expect(',')
        t, a = tv(); p.expect(',')
        t2, b = tv()
        return Inst(op, dst, t, (c, a, b), line)
    if op in ('call', 'invoke'):
        while p.pv() in FMF or p.pv() in CC:
            p.next()
        skip_attrs(p)
        rt = parse_type(p)
        if rt[0] == 'func':
            rt = rt[1]
        if p.accept('asm'):
            raise IRError('asm')
        callee = parse_value(p, PTR)
        args = []
        p.expect('(')
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    pass
                else:
                    at = parse_type(p)
                    bv = skip_attrs(p)
                    if at[0] == 'metadata':
                        depth = 0
                        while not (depth == 0 and p.pv() in (',', ')')):
                            x = p.next()[1]
                            depth += x == '('
                            depth -= x == ')'
                        av = ('undef',)
                    else:
                        av = parse_value(p, at)
                    args.append((at, av, bv))
                if p.accept(')'):
                    break
                p.expect(',')
        norm = unw = None
        skip_attrs(p)
        if op == 'invoke':
            while p.pv() != 'to':
                p.next()
            p.expect('to'); p.expect('label'); norm = p.next()[1]
            p.expect('unwind'); p.expect('label'); unw = p.next()[1]
        return Inst('call', dst, rt, (callee, args, norm, unw), line)
    if op == 'ret':
        if p.pv() == 'void':
            return Inst(op, None, None, (None,), line)
        t, v = tv()
        return Inst(op, None, t, (v,), line)
    if op == 'extractvalue':
        t, v = tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] != 'int':
                break
            idx.append(int(p.next()[1]))
        return Inst(op, dst, t, (v, idx), line)
    if op == 'insertvalue':
        t, v = tv(); p.expect(',')
        t2, w = tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] != 'int':
                break
            idx.append(int(p.next()[1]))
        return Inst(op, dst, t, (v, t2, w, idx), line)
    if op == 'insertelement':
        t, v = tv(); p.expect(',')
        t2, w = tv(); p.expect(',')
        t3, i = tv()
        return Inst(op, dst, t, (v, w, i), line)
    if op == 'extractelement':
        t, v = tv(); p.expect(',')
        t3, i = tv()
        return Inst(op, dst, t, (v, i), line)
    if op == 'shufflevector':
        t, v = tv(); p.expect(',')
        t2, w = tv(); p.expect(',')
        t3, m = tv()
        return Inst(op, dst, t, (v, w, t3, m), line)
    if op == 'atomicrmw':
        p.accept('volatile')
        rop = p.next()[1]
        pt, a = tv(); p.expect(',')
        t, v = tv()
        return Inst(op, dst, t, (rop, a, v), line)
    if op == 'freeze':
        t, v = tv()
        return Inst(op, dst, t, (v,), line)
    if op in ('landingpad', 'resume', 'unreachable', 'fence', 'cmpxchg'):
        return Inst(op, dst, None, (line,), line)
    raise IRError('opcode ' + op)


class Function(object):
    def __init__(self, mod, header, lines):
        self.mod = mod
        self.lines = lines
        p = P(tokenize(header))
        p.expect('define')
        # skip linkage etc. until the return type
        while True:
            k, v = p.peek()
            if k == 'id' and v in ('dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'private', 'hidden', 'local_unnamed_addr',
                                   'available_externally', 'weak', 'protected', 'unnamed_addr', 'linkonce', 'external') or v in CC:
                p.next()
            else:
                n0 = p.i
                skip_attrs(p)
                if p.i == n0:
                    break
        self.ret = parse_type(p)
        self.name = p.next()[1]
        self.params = []
        p.expect('(')
        n = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    pass
                else:
                    t = parse_type(p)
                    bv = skip_attrs(p)
                    if p.peek()[0] == 'loc':
                        nm = p.next()[1]
                    else:
                        nm = '%' + str(n)
                    self.params.append((t, nm, bv))
                    n += 1
                if p.accept(')'):
                    break
                p.expect(',')
        self.blocks = None
        self._first = None

    def parse(self):
        if self.blocks is not None:
            return
        blocks = {}
        order = []
        # the entry block may be implicit: label number = number of unnamed params
        cur = None
        lines = self.lines
        i = 0
        m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', lines[0]) if lines else None
        if not m:
            nun = sum(1 for t, nm, b in self.params if re.match(r'%\d+$', nm))
            cur = '%' + str(nun)
            blocks[cur] = []
            order.append(cur)
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', l)
            if m:
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            s = l.strip()
            if not s or s[0] == ';':
                continue
            if s.startswith('switch') or ' switch ' in s[:3]:
                while ']' not in s[s.index('['):]:
                    s += ' ' + lines[i].strip()
                    i += 1
            while i < n and (lines[i].lstrip().startswith('to label ')):
                s += ' ' + lines[i].strip()
                i += 1
            if 'landingpad' in s:
                while i < n and re.match(r'\s+(catch|cleanup|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            blocks[cur].append(s)
        self.blocks = blocks
        self.order = order
        self._parsed = {}
        self._mt = None
        self._loops = None

    def insts(self, b):
        self.parse()
        r = self._parsed.get(b)
        if r is None:
            r = []
            for s in self.blocks[b]:
                if s.startswith('landingpad') or ' = landingpad' in s:
                    m = re.match(r'(%\S+) = ', s)
                    r.append(Inst('landingpad', m and m.group(1), None, (s,), s))
                elif s.startswith('resume'):
                    r.append(Inst('resume', None, None, (s,), s))
                elif s.startswith('unreachable'):
                    r.append(Inst('unreachable', None, None, (s,), s))
                else:
                    try:
                        r.append(parse_inst(s))
                    except IRError as e:
                        r.append(Inst('unsupported', None, None, (str(e) + ' :: ' + s,), s))
            self._parsed[b] = r
        return r

    def entry(self):
        self.parse()
        return self.order[0]

    def succs(self, b, unwind=False):
        r = []
        t = self.insts(b)[-1]
        if t.op == 'jmp':
            r = [t.a[0]]
        elif t.op == 'br':
            r = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            r = [t.a[1]] + [l for _, l in t.a[2]]
        elif t.op == 'call' and t.a[2]:
            r = [t.a[2]]
            if unwind:
                r.append(t.a[3])
        return r

    def mustthrow(self):
        """blocks from which no return is reachable along normal edges"""
        self.parse()
        if self._mt is None:
            preds = {b: [] for b in self.order}
            work = []
            for b in self.order:
                ii = self.insts(b)
                if not ii:
                    continue
                for s in self.succs(b):
                    preds.setdefault(s, []).append(b)
                if ii[-1].op == 'ret':
                    work.append(b)
            ok = set(work)
            while work:
                b = work.pop()
                for q in preds.get(b, ()):
                    if q not in ok:
                        ok.add(q)
                        work.append(q)
            self._mt = set(self.order) - ok
        return self._mt

    def loops(self):
        """loop headers: targets of back edges of a DFS over normal edges;
        returns {header: set(blocks in the natural loop)}"""
        self.parse()
        if self._loops is not None:
            return self._loops
        preds = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succs(b):
                preds[s].append(b)
        # dominators (iterative)
        dom = {b: None for b in self.order}
        e = self.order[0]
        dom[e] = {e}
        ch = True
        while ch:
            ch = False
            for b in self.order[1:]:
                ps = [dom[q] for q in preds[b] if dom[q] is not None]
                if not ps:
                    continue
                n = set.intersection(*ps) | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        loops = {}
        for b in self.order:
            if dom[b] is None:
                continue
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops


class Module(object):
    def __init__(self, path):
        self.path = path
        self.funcs = {}      # '@name' -> (header, lines) or Function
        self.globals = {}    # '@name' -> text
        self.types = {}      # '%name' -> text or parsed
        self.aliases = {}
        self.internal = set()
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', l)
                h = l[:l.rindex('{')].rstrip()
                self.funcs[m.group(1)] = (h, lines[i + 1:j])
                if ' internal ' in l[:60] or ' private ' in l[:60]:
                    self.internal.add(m.group(1))
                i = j + 1
                continue
            if l.startswith('@'):
                m = re.match(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+) = (.*)$', l)
                if m:
                    if re.match(r'(\w+ )*alias ', m.group(2)):
                        self.aliases[m.group(1)] = m.group(2)
                    else:
                        self.globals[m.group(1)] = m.group(2)
                        if m.group(2).startswith(('internal', 'private')):
                            self.internal.add(m.group(1))
            elif l.startswith('%'):
                m = re.match(r'(%"[^"]*"|%[-a-zA-Z$._0-9]+) = type (.*)$', l)
                if m:
                    self.types[m.group(1)] = m.group(2)
            i += 1

    def type(self, name):
        t = self.types[name]
        if isinstance(t, str):
            t = parse_type(P(tokenize(t)))
            self.types[name] = t
        return t

    def resolve(self, t):
        while t[0] == 'named':
            t = self.type(t[1])
        return t

    def func(self, name):
        f = self.funcs.get(name)
        if isinstance(f, tuple):
            f = Function(self, f[0], f[1])
            self.funcs[name] = f
        return f

    # layout
    def sizeof(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            s = 1
            while s < n:
                s *= 2
            return s
        if k == 'double' or k == 'ptr':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'array':
            return t[1] * self.sizeof(t[2])
        if k == 'vec':
            return t[1] * self.sizeof(t[2])
        if k == 'struct':
            off = 0
            al = 1
            for f in t[1]:
                if not t[2]:
                    a = self.alignof(f)
                    al = max(al, a)
                    off = (off + a - 1) // a * a
                off += self.sizeof(f)
            if not t[2]:
                off = (off + al - 1) // al * al
            return off
        if k in ('void', 'func', 'opaque'):
            return 1
        raise IRError('sizeof %r' % (t,))

    def alignof(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'array':
            return self.alignof(t[2])
        if k == 'struct':
            return 1 if t[2] else max([self.alignof(f) for f in t[1]] or [1])
        return self.sizeof(t)

    def field_offset(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t[1]):
            if not t[2]:
                a = self.alignof(f)
                off = (off + a - 1) // a * a
            if j == i:
                return off
            off += self.sizeof(f)
        raise IRError('field')
