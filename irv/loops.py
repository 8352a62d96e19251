"""LoopEngine: loops whose trip count is symbolic are summarised instead of unrolled.

The first PEEL iterations are executed as they are.  From then on the loop is treated by induction:
  probe   - one iteration from a generic header state (iteration number k, loop-carried memory = placeholders)
            yields the iteration map F, the continuation condition cont(k) and the bytes written per iteration
  verify  - the same iteration again with `every earlier iteration continued` known: all safety obligations hold, the
            header state after it has the generic form for k+1, nothing else changed, F is as probed
  exit    - execution continues after the loop with carried memory = iter(F, K, X0) where K is the first k with not cont(k)
iter() terms are canonical, so a specification that iterates the same step function gives identical terms.
"""
import term as tm
from term import T
from engine import *
from engine import subst, children, _gepx
import engine

PEEL = 2
KV = tm.var('it.k', 64)

def ph(j): return tm.var('it.X%d' % j, 8)

class SymCells(dict):
    """cells of an object of symbolic size: int offset, or (symbolic part, constant) -> byte"""
    __slots__ = ('nm', 'inp')
    def __init__(self, nm, inp): self.nm = nm; self.inp = inp

def split(off):
    """offset term -> (symbolic part, signed constant)"""
    if off.__class__ is int: return None, off
    if off.op == 'add':
        c = off.a[0]
        rest = tm.sub(64, off, c)
        return rest, c - (1 << 64) if c >> 63 else c
    return off, 0

def join(rest, c):
    return c & M64 if rest is None else tm.add(64, rest, c & M64)

def collect(t, seen, out):
    """placeholders in depth-first order"""
    st = [t]
    while st:
        x = st.pop()
        if x.__class__ is tuple:
            st.extend(reversed(x)); continue
        if x.__class__ is not T or x in seen: continue
        seen.add(x)
        if x.op == 'var':
            if x.a[0].startswith('it.X'): out.append(int(x.a[0][4:]))
            continue
        st.extend(reversed(children(x)))

_mi = {}
def canon(roots, F, X0):
    """canonical (roots', F', X0') for the sub-system the roots depend on; roots over placeholders X<j>"""
    order = []; seen = set(); known = set()
    for r in roots:
        o = []; collect(r, seen, o)
        for j in o:
            if j not in known: known.add(j); order.append(j)
    i = 0
    while i < len(order):
        o = []; collect(F[order[i]], seen, o)
        for j in o:
            if j not in known: known.add(j); order.append(j)
        i += 1
    env = {ph(j): tm.var('it.p%d' % p, 8) for p, j in enumerate(order)}
    cache = {}
    g = lambda t: subst(t, env, cache) if t.__class__ is T else t
    return tuple(g(r) for r in roots), tuple(g(F[j]) for j in order), tuple(X0[j] for j in order)

def mk_iter(j, F, X0, K):
    if K.__class__ is int and K == 0: return X0[j]
    if F[j] is ph(j): return X0[j]                 # not changed
    r, f, x = canon([ph(j)], F, X0)
    # a component that does not depend on the previous state of the loop
    if not any(_mentions(t) for t in f[:1]):
        return tm.app('last', 8, (K, f[0], x[0]))
    return tm.app('iter', 8, (K, f, x))

def mk_iters(F, X0, K):
    out = []
    wide = {}
    for j in range(len(F)):
        f = F[j]
        if f.__class__ is T and f.op == 'ext' and f.a[0].op == 'app' and not (K.__class__ is int and K == 0):
            b = f.a[0]
            it = wide.get(b)
            if it is None:
                r, fs, x = canon([b], F, X0)
                it = wide[b] = tm.app('iterw', b.w, (K, r[0], fs, x))
            out.append(tm.ext(it, b.w, f.a[1], f.a[2]))
        else: out.append(mk_iter(j, F, X0, K))
    return out

def _mentions(t):
    o = []; s = set(); st = [t]
    while st:
        x = st.pop()
        if x.__class__ is tuple: st.extend(x); continue
        if x.__class__ is not T or x in s: continue
        s.add(x)
        if x.op == 'var' and x.a[0].startswith('it.p'): return True
        st.extend(children(x))
    return False

def mk_seg(offs, vals, F, X0, K):
    r, f, x = canon(list(vals), F, X0)
    return ('seg', tuple(offs), r, f, x, K)

class LoopEngine(Engine):
    loop_hooks = True
    merge_equal = False
    def __init__(self, mod, contracts=None, solver_timeout=20000):
        Engine.__init__(self, mod, contracts, solver_timeout)
        self.fork_after = 1e9
        self.loopinfo = {}
        self.hints = []
        self.peel = PEEL
        self.hooks['symoff'] = LoopEngine.symoff
    def reset_path(self, d):
        Engine.reset_path(self, d)
        self.mode = None; self.hints = []
        self.bounds = {}
        self.itw = None
        self.lenient = False
    def solver(self):
        if self._solver is None:
            import lin
            self._solver = lin.LinSolver(self.timeout)
            for c in self.pc: self._solver.add(c)
        return self._solver
    # ---- objects of symbolic size -----------------------------------------
    def symobj(self, name, size, inp, ro):
        """inp: bytes are rd(name, off); else an output buffer with arbitrary previous contents"""
        self.nobj += 1
        o = Obj(name, size, SymCells(name, inp), 'arg', ro)
        o.lazy = []       # segments written by summarised loops
        o.written = None; o.bulk = None
        self.objs.append(o)
        return o
    def _bound(self, o, rest, c, n, what):
        """rest + c .. +n inside o"""
        key = (o, rest)
        b = self.bounds.get(key)
        if b and b[0] <= c and c + n <= b[1]: self.stats.safety += 1; return
        if self.lenient: return
        def ok(lo, hi):
            s = o.size
            a = join(rest, lo); z = join(rest, hi)
            return tm.and_(1, tm.ule(64, a, z), tm.ule(64, z, s))
        # grow a little ahead: ask for what is needed, then remember it
        import math
        for ahead in (256, 64, 16, 8, 0):
            if ahead and ahead < n: continue
            hi = c + max(n, ahead) if ahead else c + n
            lo = min(c, b[0]) if b else c
            g = ok(lo, hi)
            if g.__class__ is int: r = g
            else:
                t0 = time.time()
                r = self.solver().check(tm.not_(1, g)) is False
                self.stats.smt_time += time.time() - t0; self.stats.smt += 1
            if r:
                self.bounds[key] = (lo, max(hi, b[1]) if b and b[0] <= c <= b[1] else hi); self.stats.safety += 1
                return
        self.require(ok(c, c + n), 'in-bounds access', '%s of %d bytes at offset %s of %s (size %s)' % (what, n, tm.show(join(rest, c)), o.name, tm.show(o.size)))
    @staticmethod
    def symoff(E, o, off, n, what):
        if o.cells.__class__ is not SymCells:
            v = E.unique(off)
            if v is not None: return E._off(Ptr(o, v), n, what)
            raise Unsupported('symbolic offset %s into %s in %s' % (tm.show(off), o.name, E.where()))
        rest, c = split(off)
        E._bound(o, rest, c, n, what)
        def ld(_, n):
            return tm.from_bytes([E.symrd(o, rest, c + i) for i in range(n)]) if n > 1 else E.symrd(o, rest, c)
        def stv(_, n, v):
            for i in range(n): E.symwr(o, rest, c + i, tm.ext(v, 8 * n, 8 * i, 8 * i + 8) if n > 1 else v)
        return (ld, None, stv)
    def symrd(self, o, rest, c):
        k = c if rest is None else (rest, c)
        v = o.cells.get(k)
        if v is not None: return v
        if o.cells.inp and (o.ro or not o.cells and not o.lazy):
            return tm.app('rd', 8, (o.name, join(rest, c)))
        if o.cells.inp and not o.lazy and all(kk.__class__ is int for kk in o.cells) and rest is None:
            return tm.app('rd', 8, (o.name, c & M64))
        raise Unsupported('read of symbolic-size buffer %s after writes' % o.name)
    def symwr(self, o, rest, c, v):
        if o.ro: raise Violation('frame: read-only memory is not written', 'in %s: write to %s' % (self.where(), o.name), self.model())
        if self.itw is not None and rest is not None and _has(rest, KV):
            self.itw.append((o.name, join(rest, c), v)); return
        o.cells[c if rest is None else (rest, c)] = v
    def load(self, p, n):
        if p.__class__ is Ptr and p.o.cells.__class__ is SymCells:
            off = self.norm(p.off)
            rest, c = split(off)
            if rest is None and c < 0: raise Violation('in-bounds access', 'in %s: negative offset of %s' % (self.where(), p.o.name), self.model())
            if not p.o.live: raise Violation('no use after free', self.where())
            self._bound(p.o, rest, c, n, 'read')
            return tm.from_bytes([self.symrd(p.o, rest, c + i) for i in range(n)]) if n > 1 else self.symrd(p.o, rest, c)
        return Engine.load(self, p, n)
    def store(self, p, n, v):
        if p.__class__ is Ptr and p.o.cells.__class__ is SymCells:
            off = self.norm(p.off)
            rest, c = split(off)
            if rest is None and c < 0: raise Violation('in-bounds access', 'in %s: negative offset of %s' % (self.where(), p.o.name), self.model())
            if not p.o.live: raise Violation('no use after free', self.where())
            self._bound(p.o, rest, c, n, 'write')
            for i in range(n): self.symwr(p.o, rest, c + i, tm.ext(v, 8 * n, 8 * i, 8 * i + 8) if n > 1 else v)
            return
        return Engine.store(self, p, n, v)
    def rd(self, p, n, what='read'):
        if p.__class__ is Ptr and p.o.cells.__class__ is SymCells and n.__class__ is int:
            return [self.load(Ptr(p.o, tm.add(64, p.off, i)), 1) for i in range(n)]
        return Engine.rd(self, p, n, what)
    rdraw2 = None
    def rdraw(self, p, n):
        if p.__class__ is Ptr and p.o.cells.__class__ is SymCells: return self.rd(p, n)
        return Engine.rdraw(self, p, n)
    def wr(self, p, bs):
        if p.__class__ is Ptr and p.o.cells.__class__ is SymCells:
            for i, b in enumerate(bs): self.store(Ptr(p.o, tm.add(64, p.off, i)), 1, b)
            return
        return Engine.wr(self, p, bs)
    # ---- block operations of symbolic length --------------------------------
    def bulk(self, o, off, n, kind, a, b=None):
        """records that bytes [off, off+n) of o are ('rd', name, srcoff), ('fill', byte) or ('uf', term)"""
        if o.ro: raise Violation('frame: read-only memory is not written', 'in %s: write to %s' % (self.where(), o.name), self.model())
        self.inside(o, off, n, 'write')
        if o.cells.__class__ is not SymCells: raise Unsupported('symbolic-length write to %s in %s' % (o.name, self.where()))
        if self.itw is not None: raise Unsupported('block write inside a summarised loop')
        if o.bulk is None: o.bulk = []
        o.bulk.append((off, n, kind, a, b))
    def inside(self, o, off, n, what):
        if not o.live: raise Violation('no use after free', 'in %s' % self.where(), self.model())
        e = tm.add(64, off, n)
        self.require(tm.and_(1, tm.ule(64, off, e), tm.ule(64, e, o.size)), 'in-bounds access', '%s of %s bytes at offset %s of %s' % (what, tm.show(n), tm.show(off), o.name))
    def ptr(self, p, what):
        if p.__class__ is not Ptr: raise Violation('no null dereference' if p.__class__ is int and p == 0 else 'valid pointer', 'in %s: %s' % (self.where(), what), self.model())
        return p.o, self.norm(p.off)
    def segs(self, o):
        """everything written to a symbolic-size object, merged: list of (off, n, kind, a, b)"""
        out = []
        ints = sorted(k for k in o.cells if k.__class__ is int)
        for k in ints:
            v = o.cells[k]
            r = ['rd', v.a[1], self.norm(v.a[2])] if v.__class__ is T and v.op == 'app' and v.a[0] == 'rd' else ['fill', v, None]
            if out and out[-1][0] + out[-1][1] == k and out[-1][2] == r[0] and (out[-1][3] is r[1] or out[-1][3] == r[1]) and (r[0] == 'fill' or tm.eq(64, tm.add(64, out[-1][4], out[-1][1]), r[2]) == 1): out[-1][1] += 1
            else: out.append([k, 1] + r)
        cold = [x for x in out if x[2] == 'fill' and x[3].__class__ is T]
        out = [x for x in out if not (x[2] == 'fill' and x[3].__class__ is T)]
        for k, v in o.cells.items():
            if k.__class__ is int: continue
            off = self.norm(join(*k))
            if v.__class__ is T and v.op == 'app' and v.a[0] == 'rd': out.append([off, 1, 'rd', v.a[1], self.norm(v.a[2])])
            else: out.append([off, 1, 'fill', v, None])
        for (_, offs, vals, F, X0, K) in o.lazy:
            K = self.norm(K)
            if K.__class__ is int and K == 0: continue
            for off, v in zip(offs, vals):
                off = self.norm(off)
                st = tm.sub(64, subst(off, {KV: tm.add(64, KV, 1)}, {}), off)
                if st not in (1, M64): raise Unsupported('strided loop write')
                z = lambda t: self.norm(subst(t, {KV: 0 if st == 1 else tm.sub(64, K, 1)}, {})) if t.__class__ is T else t
                if v.__class__ is T and v.op == 'app' and v.a[0] == 'rd' and v.a[2].__class__ is T and tm.sub(64, subst(v.a[2], {KV: tm.add(64, KV, 1)}, {}), v.a[2]) == st:
                    out.append([z(off), K, 'rd', v.a[1], z(v.a[2])])
                elif v.__class__ is int or not _has(v, KV) and not _hasX(v) and not _mentions(v): out.append([z(off), K, 'fill', v, None])
                else: raise Unsupported('loop write is not a copy')
        for x in o.bulk or (): out.append([self.norm(x[0]), self.norm(x[1])] + list(x[2:]))
        same = lambda a, b: a is b or a == b or (tm.eq(64, a, b) == 1)
        ch = True
        out = [x for x in out if not (x[1].__class__ is int and x[1] == 0)]
        while ch:
            ch = False
            for x in out:
                for y in out:
                    if x is y or x[2] != y[2] or not (x[3] is y[3] or x[3] == y[3]): continue
                    if x[2] == 'rd' and same(tm.add(64, x[0], x[1]), y[0]) and same(tm.add(64, x[4], x[1]), y[4]) or \
                       x[2] == 'fill' and same(tm.add(64, x[0], x[1]), y[0]):
                        x[1] = self.norm(tm.add(64, x[1], y[1])); out.remove(y); ch = True; break
                if ch: break
        return [tuple(x) for x in cold + out]
    def descr(self, p, n, what='read'):
        """canonical description of n (possibly symbolic) bytes at p"""
        n = self.norm(n)
        if n.__class__ is int and n == 0: return []
        o, off = self.ptr(p, what)
        if o.cells.__class__ is not SymCells:
            if n.__class__ is not int: n = conc(self, n, 'length')
            return [('bytes',) + tuple(self.rd(p, n))]
        self.inside(o, off, n, what)
        if o.cells.inp and not o.cells and not o.lazy and not o.bulk: return [('rd', o.name, off, n)]
        segs = self.segs(o); out = []; cur = off; end = self.norm(tm.add(64, off, n))
        for _ in range(len(segs) + 1):
            if tm.eq(64, cur, end) == 1: return out
            for (a, m, kind, x, y) in segs:
                if tm.eq(64, a, cur) == 1:
                    out.append((kind, x, y, m)); cur = self.norm(tm.add(64, cur, m)); break
            else: break
        raise Unsupported('no description of %s[%s..+%s]' % (o.name, tm.show(off), tm.show(n)))
    def sym_copy(self, d, s, n):
        do, doff = self.ptr(d, 'write'); so, soff = self.ptr(s, 'read')
        self.inside(so, soff, n, 'read')
        if so.cells.__class__ is SymCells:
            for x in self.descr(s, n):
                self.bulk(do, doff, x[3], x[0], x[1], x[2]); doff = tm.add(64, doff, x[3])
            return
        raise Unsupported('symbolic-length copy from %s' % so.name)
    def require(self, c, label, detail=''):
        if self.lenient: return
        Engine.require(self, c, label, detail)
    def prove(self, c, label, detail=''):
        if self.lenient: return
        Engine.prove(self, c, label, detail)
    def same(self, w, a, b, label, detail=''):
        try: Engine.same(self, w, a, b, label, detail)
        except Violation:
            # two different iteration terms need not denote different values: the summaries do not decide this one
            if _hasiter(a) or _hasiter(b): raise Undecided(label, '%s: computed %s, specified %s' % (detail, tm.show(a), tm.show(b)))
            raise
    def bin(self, op, w, a, b):
        if op in ('udiv', 'urem', 'lshr') and a.__class__ is T and b.__class__ is int and w == 64 and self.hints:
            c = b if op != 'lshr' else 1 << b
            r = self._divlin(a, c)
            if r is not None: return r[1] if op == 'urem' else r[0]
        return Engine.bin(self, op, w, a, b)
    def _divlin(self, a, c):
        """a = c*X + t with constant t, provably without wrap-around -> (X, t)"""
        a = self.norm(a)
        if a.__class__ is not T or a.op != 'add' or c < 2: return None
        if any(tm.sx(64, k) % c for _, k in a.a[1]): return None
        k0 = tm.sx(64, a.a[0])
        t = k0 % c
        X = ((k0 - t) // c) & M64
        for x, k in a.a[1]: X = tm.add(64, X, tm.mul(64, x, (tm.sx(64, k) // c) & M64))
        g = tm.eq(64, tm.udiv(64, a, c), X)
        if g.__class__ is int: return (X, t) if g else None
        return (X, t) if self.solver().check(tm.not_(1, g)) is False else None
    # ---- loop summaries ----------------------------------------------------
    def _snap(self):
        return [(o, list(o.cells)) for o in self.objs if o.cells.__class__ is list and o.live and not o.ro]
    def at_header(self, fname, h, fr, phis, widths):
        st = fr.get(h)
        if st is None:
            fr[h] = dict(n=0, symbr=self.symbr, snaps=[]); return None
        if st.get('mode') is not None: return self._again(st, phis, widths)
        if self.symbr == st['symbr']:
            st['n'] = 0; st['snaps'] = []
            return None
        st['symbr'] = self.symbr
        st['n'] += 1
        st['snaps'].append((phis, self._snap()))
        if st['n'] < self.peel: return None
        # peeled enough: differences between the last two arrivals
        (p1, s1), (p2, s2) = st['snaps'][-2:]
        d = []
        for a, b, w in zip(p1, p2, widths):
            if w == 0:
                if a.__class__ is Ptr and b.__class__ is Ptr and a.o is b.o: x = tm.sub(64, b.off, a.off)
                elif a is b or a == b: x = None
                else: raise Unsupported('loop-carried pointer changes object in ' + self.where())
            else:
                x = tm.sub(w, self.norm(b), self.norm(a))
            if x is not None and x.__class__ is not int: raise Unsupported('loop-carried value is not affine in ' + self.where())
            d.append(x)
        m1 = {o: c for o, c in s1}
        ch = []
        for o, c in s2:
            c1 = m1.get(o)
            if c1 is None: continue
            for i in range(len(c)):
                if c[i] is not c1[i] and not (c[i].__class__ is int and c1[i].__class__ is int and c[i] == c1[i]): ch.append((o, i))
        for o, i in ch:
            if o.cells[i].__class__ is tuple: raise Unsupported('loop-carried pointer in memory')
        key = (fname, h, tuple(self.dec[:self.di]))
        mode = self.fork(3, 'loop')
        info = self.loopinfo.setdefault(key, {'bodies': []})
        X0 = [o.cells[i] if o.cells[i] is not UNDEF else tm.var('undef:%s[%d]' % (o.name, i), 8) for o, i in ch]
        st.update(mode=mode, d=d, ch=ch, info=info, v=p2, widths=widths, key=key, X0=X0, pcn=len(self.pc))
        k = KV if mode < 2 else self.fresh('K', 64)
        st['k'] = k
        if mode < 2:
            rep = list(range(len(ch)))
            if self.merge_equal:
                # cells that held equal values at both arrivals: candidate invariant `always equal`, checked after the body
                seen = {}
                for j, (o, i) in enumerate(ch):
                    if o.cells[i].__class__ is T: rep[j] = seen.setdefault((o.cells[i], m1[o][i]), j)
            st['rep'] = rep
            for j, (o, i) in enumerate(ch): o.cells[i] = ph(rep[j])
            st['pre'] = self._snap()
            self.itw = []
        if mode == 0: self.lenient = True
        else:
            bs = info['bodies']
            if not bs:
                if mode == 1: raise PathEnd('loop never continues')
                self.assume(tm.eq(64, k, 0))
                K = 0
            cont = lambda x: _cont(bs, x)
            if bs:
                b = info.get('main')
                if b is None:
                    # the iteration that repeats; other ways through the body are executed as they are after the last repetition
                    same = [x for x in bs if (x['F'], x['W']) == (bs[0]['F'], bs[0]['W'])]
                    if len(same) == len(bs): info['conds'] = bs
                    else:
                        n = max(len(x['W']) for x in bs)
                        main = [x for x in bs if len(x['W']) == n]
                        if any((x['F'], x['W']) != (main[0]['F'], main[0]['W']) for x in main): raise Unsupported('loop body has several behaviours in ' + self.where())
                        if any(_hasX(c) for x in main for c in x['conds']): raise Unsupported('data-dependent loop body in ' + self.where())
                        info['conds'] = main; info['multi'] = True
                    b = info['main'] = (info['conds'])[0]
                bs = info['conds']
                cont = lambda x: _cont(bs, x)
                if mode == 1 and info.get('multi'): self.assume(cont(k))
                for hnt in self.hints:
                    c = tm.ule(64, hnt, k) if mode == 1 else tm.ult(64, hnt, k)
                    pos = tm.ule(64, hnt, 1 << 62)          # hint values that wrapped below zero say nothing
                    self.assume(_imp(tm.and_(1, c, pos), cont(hnt)))
                self.assume(tm.ult(64, k, 1 << 60))
                if mode == 2 and self.fork(2, 'last') == 0:
                    self.assume(tm.eq(64, k, 0)); k = st['k'] = 0
                elif mode == 2:
                    self.assume(tm.ult(64, 0, k))
                    self.assume(cont(tm.sub(64, k, 1)))
                if mode == 2:
                    if not any(_hasX(c) for x in bs for c in x['conds']):
                        self.assume(tm.not_(1, cont(k)))
                        if self.feasible(1) is False: raise Infeasible()
                        for hnt in self.hints if k.__class__ is T else ():
                            if self.solver().check(tm.ne(64, k, hnt)) is False:
                                self.bind[k] = self.norm(hnt) if hnt.__class__ is T else hnt; self._subst_cache = {}
                                break
                    F, W = b['F'], b['W']
                    st['summary'] = True
                    if k.__class__ is T:
                        for (o, i), v in zip(ch, mk_iters(F, X0, k)): o.cells[i] = v
                    byobj = {}
                    for o, off, v in W if k.__class__ is T else (): byobj.setdefault(o, ([], [])); byobj[o][0].append(off); byobj[o][1].append(v)
                    for nm, (offs, vals) in byobj.items(): [o for o in self.objs if o.name == nm][0].lazy.append(mk_seg(offs, vals, F, X0, k))
        out = []
        for a, x, w in zip(p2, d, widths):
            if x is None or x == 0: out.append(a)
            elif w == 0: out.append(Ptr(a.o, tm.add(64, a.off, tm.mul(64, k, x))))
            else:
                kk = k if w == 64 else tm.ext(k, 64, 0, w)
                out.append(tm.add(w, a, tm.mul(w, kk, x)))
        return tuple(out) if out else None
    def _again(self, st, phis, widths):
        """next arrival at the header of a loop under summary"""
        if st['mode'] == 2:
            if not st['info'].get('multi'): raise Infeasible()
            st['more'] = st.get('more', 0) + 1
            if st['more'] > 2: raise Unsupported('loop continues after its last regular iteration in ' + self.where())
            return None
        k1 = tm.add(64, KV, 1)
        ch = st['ch']
        F = tuple(self.norm(o.cells[i]) for o, i in ch)
        W = tuple(self.itw)
        for j, r in enumerate(st['rep']):
            if r != j and F[j] is not F[r] and not (F[j].__class__ is int and F[r].__class__ is int and F[j] == F[r]): raise Unsupported('cells that were equal before the loop body differ after it in ' + self.where())
        if st['mode'] == 0:
            st['info']['bodies'].append(dict(F=F, W=W, conds=tuple(self.pc[st['pcn']:])))
            raise PathEnd('probe')
        b = st['info']['main']
        if (F, W) != (b['F'], b['W']): raise Unsupported('loop body differs between probe and verification in ' + self.where())
        for a, x, w, g in zip(st['v'], st['d'], widths, phis):
            if w == 0:
                if x is None:
                    if not (g is a or g == a): raise Unsupported('loop-carried pointer')
                    continue
                if g.__class__ is not Ptr or g.o is not a.o: raise Unsupported('loop-carried pointer')
                want = tm.add(64, a.off, tm.mul(64, k1, x)); got = g.off; ww = 64
            else:
                kk = k1 if w == 64 else tm.ext(k1, 64, 0, w)
                want = tm.add(w, a, tm.mul(w, kk, x)); got = g; ww = w
            self.stats.safety += 1
            want = self.norm(want); got = self.norm(got)
            e = tm.eq(ww, want, got)
            if e.__class__ is not int and self.solver().check(tm.not_(1, e)) is False: e = 1
            if not (e.__class__ is int and e): raise Unsupported('loop-carried value is not affine in ' + self.where())
        chs = set((o, i) for o, i in ch)
        for o, c in st['pre']:
            if not o.live: continue
            for i, (x, y) in enumerate(zip(c, o.cells)):
                if x is not y and (o, i) not in chs and not (x.__class__ is int and x == y):
                    raise Unsupported('loop changes further memory (%s+%d) in %s' % (o.name, i, self.where()))
        raise PathEnd('verified')
    def loop_exit(self, fr, h):
        st = fr.get(h)
        if st is None: return
        if st.get('mode') in (0, 1): raise PathEnd('probe leaves loop')
        if st.get('mode') == 2 and st.get('summary'):
            k = st['k']
            kn = self.norm(k)
            if kn.__class__ is T:
                for hnt in self.hints:
                    if self.solver().check(tm.ne(64, k, hnt)) is False:
                        self.bind[k] = self.norm(hnt) if hnt.__class__ is T else hnt; self._subst_cache = {}
                        break
        fr.pop(h, None)

def _symn(E, n):
    n = E.norm(n)
    if n.__class__ is int: return n
    v = E.unique(n)
    return n if v is None else v
def _l_copy(base):
    def f(E, d, s, n, *r):
        n = _symn(E, n)
        if n.__class__ is int: return base(E, d, s, n, *r)
        E.sym_copy(d, s, n); return d
    return f
def _l_set(E, d, v, n, *r):
    n = _symn(E, n)
    if n.__class__ is int: return engine.b_memset(E, d, v, n, *r)
    if v.__class__ is T and v.w > 8: v = tm.ext(v, v.w, 0, 8)
    elif v.__class__ is int: v &= 255
    o, off = E.ptr(d, 'write')
    E.bulk(o, off, n, 'fill', v); return d
def _l_malloc(E, n):
    n = _symn(E, n)
    if n.__class__ is int: return engine.b_malloc(E, n)
    if E.fork(2, 'malloc') == 1:
        E.log['malloc_failed'] = True; return 0
    o = E.symobj('heap%d' % E.nobj, n, False, False); o.kind = 'heap'
    E.heap.append(o)
    return Ptr(o, 0)
LoopEngine.libc = {'memcpy': _l_copy(engine.b_memcpy), 'memmove': _l_copy(engine.b_memmove), 'memset': _l_set, 'malloc': _l_malloc,
                   'llvm.memcpy.p0.p0.i64': _l_copy(engine.b_memcpy), 'llvm.memmove.p0.p0.i64': _l_copy(engine.b_memmove), 'llvm.memset.p0.i64': _l_set,
                   'explicit_bzero': lambda E, d, n: _l_set(E, d, 0, n)}

def _imp(a, b): return tm.or_(1, tm.not_(1, a), b)

def _cont(bs, x):
    r = 0
    for b in bs:
        c = 1
        for p in b['conds']:
            if _hasX(p): continue
            c = tm.and_(1, c, subst(p, {KV: x}, {}))
        r = tm.or_(1, r, c)
    return r

def _has(t, v):
    s = set(); st = [t]
    while st:
        x = st.pop()
        if x is v: return True
        if x.__class__ is not T or x in s: continue
        s.add(x); st.extend(children(x))
    return False
def _hasiter(t):
    s = set(); st = [t]
    while st:
        x = st.pop()
        if x.__class__ is tuple: st.extend(x); continue
        if x.__class__ is not T or x in s: continue
        s.add(x)
        if x.op == 'app' and x.a[0] in ('iter', 'iterw', 'last'): return True
        st.extend(children(x))
    return False
def find_peel(E, Q, vals, segs=()):
    """how many iterations of a loop over Q repetitions were executed before its summary"""
    if Q.__class__ is int: return PEEL
    Ks = [g[5] for g in segs]
    s = set(); st = list(vals)
    while st and not Ks:
        x = st.pop()
        if x.__class__ is tuple: st.extend(x); continue
        if x.__class__ is not T or x in s: continue
        s.add(x)
        if x.op == 'app' and x.a[0] in ('iter', 'iterw', 'last'):
            K = E.norm(x.a[1])
            if K.__class__ is T and tm.sub(64, Q, K).__class__ is int: Ks.append(K); break
        st.extend(children(x))
    for K in Ks:
        d = tm.sub(64, Q, E.norm(K))
        if d.__class__ is int and d < 9: return d
    return PEEL
def _hasX(t):
    o = []; collect(t, set(), o); return bool(o)

# ---- specification side -------------------------------------------------------------------
def spec_iter(X, step, count, peel=PEEL):
    """X: list of bytes; step(X, k) -> new X (k: iteration number, int or term); count: number of iterations (int or term
    known to be >= peel).  Returns (X', outs) with outs = list of per-iteration outputs when step returns (X, [(off, val)])"""
    outs = []
    def one(X, k):
        r = step(X, k)
        return r if r.__class__ is tuple else (r, [])
    n = count if count.__class__ is int else peel
    for k in range(n):
        X, o = one(X, k); outs += o
    if count.__class__ is int: return X, outs, None
    P = [ph(j) for j in range(len(X))]
    F, W = one(P, tm.add(64, KV, peel))
    K = tm.sub(64, count, peel)
    seg = mk_seg([a for a, _ in W], [v for _, v in W], F, X, K) if W else None
    return mk_iters(F, X, K), outs, seg
