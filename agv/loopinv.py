"""Loop invariants: at the head of a loop every variable of the loop is replaced by an arbitrary one that satisfies the
invariant; the invariant is an obligation on entry and at the end of an arbitrary iteration.  The invariant is the
conjunction of those of the given candidates that survive (Houdini): a candidate that is not provable is dropped and the
exploration starts again, so that the invariant does not depend on the names of the variables or on the shape of the loop."""
import numpy as np
from .terms import *
from . import terms as T
from . import smt
from .symex import Unsupported, PathEnd, Restart, nz


class Houdini(object):
    def __init__(self, gen, variant=None):
        self.gen = gen               # gen(integers, reals, args, sx) -> [(label, Term)]
        self.variant = variant

    def head(self, ex, sx, f, b, prev, loc, phis, args):
        key = (f.name, b)
        drop = ex.lstate.setdefault(key, set())
        body = f.loops()[b]
        for bb in body:
            for it in f.insts(bb):
                if it.op == 'store' or it.op == 'call' and not (it.a and 'llvm.' in str(it.a[0])):
                    raise Unsupported('memory or calls in a loop with an invariant')

        def cands():
            out = []
            vals = [nz(loc[it.dst]) for it in phis]
            ex.nobounds = True           # the invariant only mentions the elements, it does not read them
            try:
                for lab, c in self.gen(vals, args, sx):
                    if lab not in drop:
                        out.append((lab, c))
            finally:
                ex.nobounds = False
            return out
        entry = prev not in body
        for lab, c in cands():
            if c is TRUE or sx.known(c):
                sx.obligs.append(('loop invariant: ' + lab, list(sx.pc), c))
                continue
            from .engine import relevant
            st, _ = smt.check(relevant(sx.pc, not_(c)) + [not_(c)], 4000, ex.arraxioms, want_model=False)
            if st != 'unsat':
                drop.add(lab)
                raise Restart()
            sx.obligs.append(('loop invariant %s: ' % ('on entry' if entry else 'preserved') + lab, list(sx.pc), c))
        if not entry:
            raise PathEnd('end of an iteration')
        S = ex.samples
        hav = getattr(ex, 'havocs', None)
        if hav is None:
            hav = ex.havocs = {}
        for j, it in enumerate(phis):
            v0 = nz(loc[it.dst])
            if not isinstance(v0, Term) or v0.sort not in 'IR':
                raise Unsupported('loop variable that is not a number')
            v = var('loop%d_%d' % (len(hav) if (key, j) not in hav else hav[key, j], j), v0.sort)
            if (key, j) not in hav:
                hav[key, j] = len(hav)
                v = var('loop%d_%d' % (hav[key, j], j), v0.sort)
                rng = np.random.default_rng(hav[key, j] + 17)
                S.setvar(v, rng.integers(0, 10, S.n) if v0.sort == 'I' else rng.normal(size=S.n))
                ex.decls[v] = 'int' if v0.sort == 'I' else ('real',)
            loc[it.dst] = v
        for lab, c in cands():
            sx.assume(c)
