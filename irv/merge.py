"""MergeEngine: both sides of a branch are executed up to the point where they meet again (immediate postdominator) and joined into one state
(registers and memory become if-then-else terms), instead of being explored as separate paths.  Branches that cannot be joined are split as usual."""
import z3
import term as tm
from term import T
from engine import *
import engine
from engine import Restart, _succ

RET = object()

def _uses(x, out):
    if x.__class__ is tuple or x.__class__ is list:
        if len(x) == 2 and x[0] == 'r' and x[1].__class__ is str: out.add(x[1]); return
        for y in x: _uses(y, out)

def analyse(f):
    """(immediate postdominator of each block, registers live at the entry of each block, phi results included)"""
    order = f.order
    succ = {b: list(dict.fromkeys(_succ(f.blocks[b][-1]))) for b in order}
    idx = {b: i for i, b in enumerate(order)}
    full = (1 << len(order)) - 1
    pd = {}
    for b in order: pd[b] = full if succ[b] else ((1 << idx[b]) if f.blocks[b][-1][0] == 'ret' else full)
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            if not succ[b]: continue
            m = full
            for s in succ[b]: m &= pd[s]
            m |= 1 << idx[b]
            if m != pd[b]: pd[b] = m; ch = True
    ipd = {}
    for b in order:
        if len(succ[b]) < 2: continue
        c = [x for x in order if x != b and pd[b] >> idx[x] & 1]
        # the nearest: its own postdominators are all of c
        best = None
        for x in c:
            if all(pd[x] >> idx[y] & 1 for y in c): best = x
        ipd[b] = best
    # liveness
    use = {}; dfn = {}; phiu = {b: {} for b in order}; phid = {}
    for b in order:
        u = set(); d = set(); pdn = set()
        for ins in f.blocks[b]:
            if ins[0] == 'phi':
                pdn.add(ins[1])
                for v, src in ins[3]:
                    if v[0] == 'r': phiu[b].setdefault(src, set()).add(v[1])
                    else: _uses(v, phiu[b].setdefault(src, set()))
                continue
            r = set(); _uses(ins[2:], r)
            if ins[0] == 'call' and ins[3][0] != '@': r.add(ins[3])
            u |= r - d
            if ins[1]: d.add(ins[1])
        use[b] = u; dfn[b] = d; phid[b] = pdn
    live = {b: set() for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            o = set()
            for s in succ[b]: o |= (live[s] - phid[s]) | phiu[s].get(b, set())
            n = use[b] | phid[b] | (o - dfn[b])
            if n != live[b]: live[b] = n; ch = True
    return ipd, live

class MergeEngine(Engine):
    merging = True
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.nomerge = set()
        self.fork_after = 1e9
        self.maxdepth = 700
    def reset_path(self, d):
        Engine.reset_path(self, d)
        self.jr = None; self.depth = 0
    # ---- memory at an offset that depends on the branch taken: every value the offset can have is enumerated by the solver ----
    def offcases(self, p):
        """None (offset decided) or [(condition, pointer)] covering every value of the offset"""
        if p.__class__ is not Ptr or p.off.__class__ is int: return None
        off = self.norm(p.off)
        if off.__class__ is int: return None
        s = self.solver(); e = s.cv.get(off, 64); vs = []
        s.s.push()
        try:
            while True:
                r = s.s.check()
                if r == z3.unsat: break
                if r != z3.sat or len(vs) >= 16: raise Unsupported('symbolic offset %s into %s in %s' % (tm.show(off), p.o.name, self.where()))
                v = s.s.model().eval(e, model_completion=True).as_long()
                vs.append(v); s.s.add(e != v)
        finally: s.s.pop()
        return [(tm.eq(64, off, v), Ptr(p.o, v)) for v in sorted(vs)]
    def _sel(self, cs, rs):
        out = list(rs[-1])
        for (c, _), r in list(zip(cs, rs))[-2::-1]:
            for i, x in enumerate(r):
                y = out[i]
                if x is y or (x.__class__ is int and x == y): continue
                if x.__class__ not in (int, T) or y.__class__ not in (int, T): raise Unsupported('pointers at a symbolic offset')
                out[i] = tm.ite(8, c, x, y)
        return out
    def _bytes(self, n, v):
        if v.__class__ is int: return list(v.to_bytes(n, 'little'))
        if v.__class__ is T: return [tm.ext(v, 8 * n, 8 * i, 8 * i + 8) for i in range(n)] if n > 1 else [v]
        raise Unsupported('pointer stored at a symbolic offset')
    def store(self, p, n, v):
        cs = self.offcases(p)
        if cs: return self._wrc(cs, self._bytes(n, v))
        j = self.jr
        if j is not None and p.__class__ is Ptr and p.o not in j: j[p.o] = p.o.cells.copy()
        return Engine.store(self, p, n, v)
    def wr(self, p, bs):
        cs = self.offcases(p) if bs else None
        if cs: return self._wrc(cs, bs)
        j = self.jr
        if j is not None and p.__class__ is Ptr and p.o not in j: j[p.o] = p.o.cells.copy()
        return Engine.wr(self, p, bs)
    def _wrc(self, cs, bs):
        for c, q in cs:
            cur = Engine.rd(self, q, len(bs), 'write')
            self.wr(q, [x if x is y else self._one(c, x, y) for x, y in zip(bs, cur)])
    def _one(self, c, x, y):
        if x.__class__ not in (int, T) or y.__class__ not in (int, T): raise Unsupported('pointers at a symbolic offset')
        return tm.ite(8, c, x, y)
    def load(self, p, n):
        cs = self.offcases(p)
        if not cs: return Engine.load(self, p, n)
        return tm.concat_list([(8, b) for b in reversed(self.rd(p, n))]) if n > 1 else self.rd(p, n)[0]
    def rd(self, p, n, what='read'):
        cs = self.offcases(p)
        if not cs: return Engine.rd(self, p, n, what)
        return self._sel(cs, [Engine.rd(self, q, n, what) for _, q in cs])
    def rdraw(self, p, n):
        cs = self.offcases(p)
        if not cs: return Engine.rdraw(self, p, n)
        return self.rd(p, n)
    def mbranch(self, c, site):
        """0/1: decided; None: both sides possible, to be joined"""
        c = self.norm(c)
        if c.__class__ is int: return c
        if (site[0], site[1]) in self.nomerge: return self.branch(c)
        if self.di < len(self.dec):
            d = self.dec[self.di]; self.di += 1
            if d == 4: return None
            d &= 1
            self.assume(c if d else tm.not_(1, c))
            return d
        f1 = self.feasible(c)
        if f1 is False:
            self.assume(tm.not_(1, c)); self.dec.append(2); self.di += 1; return 0
        f0 = self.feasible(tm.not_(1, c))
        if f0 is False:
            self.assume(c); self.dec.append(3); self.di += 1; return 1
        self.dec.append(4); self.di += 1
        return None
    def _side(self, core, c, edge, J, regs, site):
        n0 = len(self.pc); bind = dict(self.bind); fs = list(self.fstack); alive = [(o.live, dict(o.reads) if isinstance(o.reads, dict) else None) for o in self.heap]
        self.jr = {}
        r = None; extra = []
        try:
            self.assume(c)
            n1 = len(self.pc)
            r = core(self, edge, J, regs)
            extra = self.pc[n1:]
        except (PathEnd, Infeasible):
            r = None
        new = {}
        for o, old in self.jr.items(): new[o] = o.cells; o.cells = old
        for o in self.heap[len(alive):]:
            if o.live and r is not None: self._no(site)
        for o, (lv, gh) in zip(self.heap, alive):
            if o.live != lv or (gh is not None and any(o.reads.get(k) is not v for k, v in gh.items())): self._no(site)
        del self.heap[len(alive):]
        del self.pc[n0:]
        self.bind = bind; self._subst_cache = {}; self._solver = None
        self.fstack = fs
        return r, new, extra
    def _no(self, site):
        self.nomerge.add((site[0], site[1]))
        raise Restart()
    def merge(self, core, c, site, regs):
        fname, bi, J, ea, eb, live = site
        c = self.norm(c)
        outer = self.jr; nobj = len(self.objs)
        self.depth += 1
        if self.depth > self.maxdepth: raise Unsupported('too many nested branches')
        try:
            ra, na, xa = self._side(core, c, ea, J, regs, site)
            rb, nb, xb = self._side(core, tm.not_(1, c), eb, J, regs, site)
        finally: self.depth -= 1
        self.jr = outer
        if ra is None and rb is None: raise PathEnd('no side continues')
        if ra is None or rb is None:
            self.assume(c if rb is None else tm.not_(1, c))
            for x in (xa if rb is None else xb): self.assume(x)
            n = na if rb is None else nb
            for o, cells in n.items():
                if outer is not None and o not in outer: outer[o] = o.cells.copy()
                o.cells = cells
            return ra if rb is None else rb
        if xa: self.assume(tm.or_(1, tm.not_(1, c), _conj(xa)))
        if xb: self.assume(tm.or_(1, c, _conj(xb)))
        out = list(regs)
        for k, w in live:
            a, b = ra[k], rb[k]
            if a is b: out[k] = a; continue
            ca, cb = a.__class__, b.__class__
            if ca is int and cb is int:
                if a == b: out[k] = a
                elif w: out[k] = tm.ite(w, c, a, b)
                else: self._no(site)
            elif ca in (int, T) and cb in (int, T):
                ww = a.w if ca is T else b.w
                out[k] = tm.ite(ww, c, a, b)
            elif a is None or b is None: out[k] = None
            elif ca is Ptr and cb is Ptr and a.o is b.o:
                out[k] = Ptr(a.o, tm.ite(64, c, a.off, b.off))
            else: self._no(site)
        new = set(map(id, self.objs[nobj:]))       # locals of calls made on one side only: out of scope now
        for o in list(na) + [o for o in nb if o not in na]:
            if id(o) in new: continue
            A = na.get(o, o.cells); B = nb.get(o, o.cells)
            if outer is not None and o not in outer: outer[o] = o.cells.copy()
            if A.__class__ is list:
                M = list(A)
                for i, (x, y) in enumerate(zip(A, B)):
                    if x is y: continue
                    M[i] = self._cell(o, i, c, x, y, site)
                o.cells = M
            else:
                M = A.copy()
                for i in set(A) | set(B):
                    x, y = A[i], B[i]
                    if x is not y: M[i] = self._cell(o, i, c, x, y, site)
                o.cells = M
        return tuple(out)
    def _cell(self, o, i, c, x, y, site):
        if x.__class__ is int and y.__class__ is int and x == y: return x
        if x.__class__ is tuple and y.__class__ is tuple and x[1] == y[1] and (x[0] is y[0] or (x[0].__class__ is Ptr and y[0].__class__ is Ptr and x[0].o is y[0].o and x[0].off is y[0].off)): return x
        if x is UNDEF and y is UNDEF: return x
        if x is UNDEF: x = self.undef_read(o, i)
        if y is UNDEF: y = self.undef_read(o, i)
        if x.__class__ is tuple or y.__class__ is tuple: self._no(site)
        return tm.ite(8, c, x, y)

def _conj(xs):
    r = 1
    for x in xs: r = tm.and_(1, r, x)
    return r
