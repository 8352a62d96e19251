"""C14: rejection sampling as state machines over the SHAKE stream.

rej_uniform / rej_eta: the loop is verified by induction on ghost state (k candidates looked at, c coefficients written); every loop-carried value is an affine
function of (k, c) found by probing and then proved.  The callers are verified against that contract with the stream position as ghost state; refills by
induction.  poly_challenge: the inner rejection loop by induction on the stream position."""
import random
import term as tm
from term import T
from engine import *
from engine import natural_loops
from run import Task
from hybrid import inputs, outbuf
import shake
from p_dil import P, Q, N, G1
from p_pack import unpacked
SZ = {'uniform': 3, 'eta': 1}     # bytes looked at per step
TAU = 39

def byte(E, name, off): return tm.app('rd', 8, (name, off))

def cand_uniform(rd, k):
    b = [rd(tm.add(64, tm.mul(64, k, 3), i)) for i in range(3)]
    t = tm.concat_list([(9, 0), (7, tm.ext(b[2], 8, 0, 7)), (8, b[1]), (8, b[0])])
    return [(tm.ult(32, t, Q), t)]
def cand_eta(rd, k):
    b = rd(k); out = []
    for x in (tm.ext(b, 8, 0, 4), tm.ext(b, 8, 4, 8)):
        m = tm.zext(4, 32, x)
        for y in (5, 10): m = tm.ite(32, tm.ult(4, x, y), m, tm.sub(32, tm.zext(4, 32, x), y)) if y == 5 else tm.ite(32, tm.ult(4, x, 10), m, tm.sub(32, tm.zext(4, 32, x), 10))
        out.append((tm.ult(4, x, 15), tm.sub(32, 2, m)))
    return out
CAND = {'uniform': cand_uniform, 'eta': cand_eta}

class RejEngine(Engine):
    loop_hooks = True
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.fork_after = 1e9; self.delta = {}; self.probing = False; self.probed = False; self.rfn = None
    def at_header(self, fname, h, fr, phis, widths):
        g = self.log.get('rej')
        if g is None: return None
        st = fr.get(h)
        if st is None:
            if self.log.get('inloop'): return None
            self.log['inloop'] = h
            fr[h] = dict(v0=phis); g['wr'] = []; g['rd'] = 0; g['fr'] = fr; g['h'] = h
            if self.probing: return None
            d = self.delta.get((fname, h))
            if not d or 0 not in d or 1 not in d: raise Unsupported('no probe of the sampling loop of ' + fname)
            a = d[0]; b = [tuple_sub(y, x) for x, y in zip(d[0], d[1])]
            k = tm.var('k', 64); c = tm.var('c', 64)
            g['k'], g['c'] = k, c
            self.assume(tm.ule(64, k, 1 << 12)); self.assume(tm.ule(64, tm.mul(64, k, SZ[g['kind']]), tm.zext(32, 64, g['buflen'])))
            self.assume(tm.ule(64, c, tm.zext(32, 64, g['len'])))
            g['affine'] = lambda k, c: [aff(v, w, x, y, k, c) for v, w, x, y in zip(phis, widths, a, b)]
            self.cover('step')
            return tuple(g['affine'](k, c))
        if self.log.get('inloop') != h: return None
        if self.probing:
            n = len(g['wr']); d = [tuple_diff(x, y, w) for x, y, w in zip(st['v0'], phis, widths)]
            self.delta.setdefault((fname, h), {}).setdefault(n, d)
            raise PathEnd('probe')
        k1, c1 = step(self, g)
        for x, y, w in zip(g['affine'](k1, c1), phis, widths):
            if w == 0:
                if y.__class__ is not Ptr or x.o is not y.o: raise Unsupported('loop-carried pointer')
                x, y, w = x.off, y.off, 64
            e = tm.eq(w, self.norm(x), self.norm(y))
            if e.__class__ is not int:
                import smt
                e = 1 if smt.sliced_unsat(self.pc, tm.not_(1, e), 20000) else 0
            if not e: raise Unsupported('loop state is not the expected function of the candidates looked at')
        raise PathEnd('step')

def tuple_diff(x, y, w):
    if w == 0:
        if x.__class__ is not Ptr or y.__class__ is not Ptr or x.o is not y.o: raise Unsupported('loop-carried pointer')
        x, y, w = x.off, y.off, 64
    d = tm.sub(w, y, x)
    if d.__class__ is not int: raise Unsupported('loop step is not constant')
    return d
def tuple_sub(y, x): return (y - x)
def aff(v, w, a, b, k, c):
    if w == 0: return Ptr(v.o, tm.add(64, v.off, tm.add(64, tm.mul(64, k, a & M64), tm.mul(64, c, b & M64))))
    M = (1 << w) - 1; n = lambda t: t & M if t.__class__ is int else tm.ext(t, 64, 0, w) if w < 64 else t
    return tm.add(w, v, tm.add(w, tm.mul(w, n(k), a & M), tm.mul(w, n(c), b & M)))

def step(E, g):
    """one specification step from (k, c); checks the writes; returns the new (k, c)"""
    k, c = g['k'], g['c']; kind = g['kind']; L = tm.zext(32, 64, g['len']); B = tm.zext(32, 64, g['buflen'])
    E.post(tm.ult(64, c, L), 'rej_%s: stops once enough coefficients are sampled' % kind)
    E.post(tm.ule(64, tm.add(64, tm.mul(64, k, SZ[kind]), SZ[kind]), B), 'rej_%s: looks only at complete candidates inside the buffer' % kind)
    wr = list(g['wr'])
    for ok, v in CAND[kind](lambda o: byte(E, 'buf', E.norm(o)), k):
        if E.branch(tm.and_(1, ok, tm.ult(64, c, L))):
            E.post(1 if wr else 0, 'rej_%s: every acceptable candidate is taken' % kind)
            off, x = wr.pop(0)
            E.same(64, off, tm.mul(64, c, 4), 'rej_%s: accepted candidates are written in order' % kind)
            E.same(32, x, v, 'rej_%s: the coefficient is the candidate\'s value' % kind)
            c = tm.add(64, c, 1)
    E.post(0 if wr else 1, 'rej_%s: rejected candidates write nothing' % kind)
    return tm.add(64, k, 1), c

def rejhook(E, o, off, n, what):
    g = E.log['rej']
    if 'k' in g and off.__class__ is T:
        # canonical form a*k + j of the offset (indices may be computed in another width)
        b = tm.mul(64, g['k'], SZ[g['kind']]) if o.name == 'buf' else tm.mul(64, g['c'], 4)
        j = tm.sub(64, off, b)
        if j.__class__ is T: j = E.unique(j)
        if j is not None: off = tm.add(64, b, j)
    if o.name == 'buf' and what == 'read':
        E.require(tm.and_(1, tm.ule(64, off, tm.add(64, off, n)), tm.ule(64, tm.add(64, off, n), tm.zext(32, 64, g['buflen']))), 'in-bounds access', 'candidate bytes')
        g['rd'] += 1
        def ld(_, n): return tm.from_bytes([byte(E, 'buf', tm.add(64, E.norm(off), i)) for i in range(n)]) if n > 1 else byte(E, 'buf', E.norm(off))
        return (ld, None, None)
    if o.name == 'a' and what == 'write' and n == 4:
        e = tm.add(64, off, 4)
        E.require(tm.and_(1, tm.ule(64, off, e), tm.ule(64, e, tm.mul(64, tm.zext(32, 64, g['len']), 4))), 'in-bounds access', 'coefficient')
        return (None, off, lambda off, n, v: g['wr'].append((off, v)))
    v = E.unique(off)
    if v is not None: return E._off(Ptr(o, v), n, what)
    raise Unsupported('symbolic offset into %s' % o.name)

class GhostCells(dict): pass

def b_rej(E, kind, L=None, B=None):
    ln = tm.var('len', 32) if L is None else L; bl = tm.var('buflen', 32) if B is None else B
    if L is None: E.assume(tm.ule(32, ln, N))
    if B is None: E.assume(tm.ule(32, bl, 842))
    a = E.obj('a', 1024, 'undef', 'arg'); buf = E.obj('buf', 848, 'undef', 'arg'); buf.ro = True
    E.hooks['symoff'] = rejhook
    g = E.log['rej'] = dict(kind=kind, len=ln, buflen=bl, wr=[], rd=0)
    old = Engine._off
    def off_(p, n, what):
        if p.__class__ is Ptr and p.o in (a, buf): return rejhook(E, p.o, E.norm(p.off) if p.off.__class__ is T else p.off, n, what)
        return old(E, p, n, what)
    E._off = off_
    try: r = E.run('rej_' + kind, (Ptr(a, 0), ln, Ptr(buf, 0), bl))
    finally: del E._off
    if E.probing: return
    if 'k' not in g:
        raise Unsupported('no sampling loop reached')
    k, c = g['k'], g['c']
    if g['rd']: k, c = step(E, g)
    else: E.post(0 if g['wr'] else 1, 'rej_%s: writes only sampled coefficients' % kind)
    E.post(tm.not_(1, tm.and_(1, tm.ult(64, c, tm.zext(32, 64, ln)), tm.ule(64, tm.add(64, tm.mul(64, k, SZ[kind]), SZ[kind]), tm.zext(32, 64, bl)))), 'rej_%s: stops only when done or out of complete candidates' % kind)
    E.same(64, tm.zext(32, 64, r), c, 'rej_%s: returns the number of coefficients written' % kind)
    E.cover('exit')

def probed(body):
    def t(E, *a):
        if not E.probed:
            E.probing = True; sv = (E.stats, E.todo)
            E.stats = Stats(); todo = [[]]; n = 0
            while todo and n < 64:
                E.reset_path(list(todo.pop())); n += 1
                try: body(E, *a)
                except (PathEnd, Infeasible, Violation, Undecided): pass
                todo.extend(E.new)
            E.probing = False; E.probed = True; E.stats = sv[0]
            E.reset_path([]); E.todo = sv[1]
        body(E, *a)
    return t

# ---- callers ------------------------------------------------------------------------------------------------
def rdparts(E, bs):
    """(stream, offset) when bs are consecutive stream bytes"""
    b = bs[0]
    if not (b.__class__ is T and b.op == 'app' and b.a[0] == 'rd'): return None
    s, o = b.a[1], b.a[2]
    for i, x in enumerate(bs):
        if x is not tm.app('rd', 8, (s, tm.add(64, o, i))): return None
    return s, o

def c_rej(kind):
    def f(E, a, ln, buf, bl):
        g = E.log['g']; bl = conc(E, bl, 'buffer length'); n = bl // SZ[kind] * SZ[kind]
        ln = E.norm(ln)
        if n:
            r = rdparts(E, E.rd(buf, n))
            E.post(1 if r else 0, 'the candidates are consecutive bytes of one stream')
            s, o = r
            E.post(1 if g['s'] in (None, s) else 0, 'all candidates come from the same stream'); g['s'] = s
            E.same(64, o, g['pos'], 'candidates follow each other in the stream without gap or repetition')
        if a.__class__ is not Ptr or a.o.name != 'a': raise Unsupported('sampling into another object')
        E.same(64, a.off, tm.mul(64, tm.zext(32, 64, g['cnt']), 4), 'coefficients are written one after the other')
        E.same(32, ln, tm.sub(32, N, g['cnt']), 'exactly the missing coefficients are requested')
        r = E.fresh('got', 32)
        E.assume(tm.ule(32, r, ln)); E.assume(tm.ule(32, r, n // SZ[kind] * (2 if kind == 'eta' else 1)))
        g['cnt'] = tm.add(32, g['cnt'], r)
        if E.branch(tm.ult(32, r, ln)): g['pos'] = tm.add(64, g['pos'], n)
        return r
    return f

class FillEngine(Engine):
    """refill loops by induction from their second arrival"""
    loop_hooks = True
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k); self.fork_after = 1e9; self.isl = {}
    def _sq(self, fname, h):
        r = self.isl.get((fname, h))
        if r is None:
            f = self.mod.funcs[fname]; names = set(); st = [(f, natural_loops(f)[f.order[h]])]
            while st:
                q, bl = st.pop()
                for b in bl:
                    for ins in q.blocks[b]:
                        if ins[0] == 'call' and ins[3][0] == '@':
                            n = ins[3][1:].strip('"')
                            if n not in names:
                                names.add(n)
                                if n in self.mod.funcs and n not in self.contracts: st.append((self.mod.funcs[n], self.mod.funcs[n].order))
            r = self.isl[fname, h] = any('squeeze' in n for n in names)
        return r
    def at_header(self, fname, h, fr, phis, widths):
        if 'g' not in self.log or not self._sq(fname, h): return None
        g = self.log['g']; st = fr.setdefault(h, dict(n=0))
        d = tm.ult(32, g['cnt'], N)
        if d.__class__ is T: d = self.feasible(d)
        if d is False or d == 0:         # everything sampled: the loop has to end here
            st['end'] = st.get('end', 0) + 1
            if st['end'] > 2: raise Violation('sampling stops when all coefficients are there', fname)
            return None
        st['n'] += 1
        ctx = [o for o in self.heap if o.live and isinstance(o.reads, dict)]
        bufs = [o for o in self.objs if o.live and not o.ro and o.cells.__class__ is list and o.name != 'a']
        if st['n'] == 1:
            st['snap'] = {o: list(o.cells) for o in bufs}
            return None
        def rel(b):
            if b.__class__ is T and b.op == 'app' and b.a[0] == 'rd' and b.a[1] is g['s']: return tm.sub(64, b.a[2], g['pos'])
            return None
        shape = [(o, tm.sub(64, o.reads['pos'], g['pos'])) for o in ctx]
        cells = {}
        for o in bufs:
            sn = st['snap'].get(o)
            for i, b in enumerate(o.cells):
                if b is UNDEF or (st['n'] == 2 and sn is not None and sn[i] is b and rel(b) is not None): cells[o, i] = None
                else: cells[o, i] = ('rel', rel(b)) if rel(b) is not None else b
        ps = []
        for x, w in zip(phis, widths):
            if w and x.__class__ is T:
                e = tm.eq(w, x, tm.ext(g['cnt'], 32, 0, w) if w < 32 else tm.zext(32, w, g['cnt']) if w > 32 else g['cnt'])
                ok = e if e.__class__ is int else not self.feasible(tm.not_(1, e))
                if not ok: raise Unsupported('loop-carried value')
                ps.append('cnt')
            else: ps.append(x)
        if st['n'] == 2:
            for _, r in shape:
                if r.__class__ is not int: raise Unsupported('stream position')
            st['want'] = (shape, cells, ps)
            pos = tm.var('stream.pos', 64); cnt = tm.var('ctr', 32)
            self.assume(tm.ule(32, cnt, N)); self.assume(tm.ule(64, pos, 1 << 40))
            g['pos'] = pos; g['cnt'] = cnt
            for o, r in shape: o.reads['pos'] = tm.add(64, pos, r)
            for (o, i), c in cells.items():
                o.cells[i] = UNDEF if c is None else tm.app('rd', 8, (g['s'], tm.add(64, pos, c[1]))) if c.__class__ is tuple and c[0] == 'rel' else c
            self.cover('refill')
            return tuple(x if x != 'cnt' else (cnt if w == 32 else tm.zext(32, w, cnt)) for x, w in zip(ps, widths))
        s2, c2, p2 = st['want']
        same = len(s2) == len(shape) and all(a[0] is b[0] and a[1] == b[1] for a, b in zip(s2, shape))
        same = same and all(a is b or (a.__class__ is int and a == b) or (a.__class__ is str and a == b) or (a.__class__ is Ptr and b.__class__ is Ptr and a.o is b.o and a.off == b.off) for a, b in zip(p2, ps))
        same = same and all(v is None or (v == cells.get(k) if v.__class__ in (tuple, int) else v is cells.get(k)) for k, v in c2.items())
        if not same: raise Unsupported('refill loop does not repeat its state')
        self.cover('refill again')
        raise PathEnd('induction')

def t_fill(E, fn, kind, seedlen):
    a = E.obj('a', 1024, 'undef', 'arg'); seed = inputs(E, 'seed', seedlen); nonce = tm.var('nonce', 16)
    E.log['g'] = g = dict(s=None, pos=0, cnt=0)
    E.run(P + fn, (Ptr(a, 0), Ptr(seed, 0), nonce))
    fam = '128' if kind == 'uniform' else '256'
    want = shake.stream(shake.bts(list(seed.cells) + [tm.ext(nonce, 16, 0, 8), tm.ext(nonce, 16, 8, 16)]), fam)
    E.post(1 if g['s'] is want else 0, '%s: the stream is SHAKE-%s of the whole seed followed by the nonce (little endian)' % (fn, fam))
    E.same(32, g['cnt'], N, '%s: all 256 coefficients are sampled' % fn)
    E.post(1 if all(c is UNDEF for c in a.cells) else 0, '%s: coefficients are only written by the sampler' % fn)
    shake.released(E)
    E.cover('done')

def t_gamma1(E):
    a = E.obj('a', 1024, 'undef', 'arg'); seed = inputs(E, 'seed', 64); nonce = tm.var('nonce', 16)
    E.run(P + 'poly_uniform_gamma1', (Ptr(a, 0), Ptr(seed, 0), nonce))
    s = shake.stream(shake.bts(list(seed.cells) + [tm.ext(nonce, 16, 0, 8), tm.ext(nonce, 16, 8, 16)]))
    want = unpacked('z', [tm.app('rd', 8, (s, i)) for i in range(576)])
    for i, x in enumerate(want): E.same(32, E.load(Ptr(a, 4 * i), 4), x, 'poly_uniform_gamma1: coefficient i is gamma1 minus the i-th 18-bit field of the stream', 'coefficient %d' % i)
    shake.released(E)
    E.cover('done')

# ---- challenge -------------------------------------------------------------------------------------------------
class ChalEngine(FillEngine):
    def __init__(self, *a, **k):
        FillEngine.__init__(self, *a, **k); self.visited = set()
    def innermost(self, fname, h):
        k = ('in', fname, h); r = self.isl.get(k)
        if r is None:
            f = self.mod.funcs[fname]; L = natural_loops(f); me = L[f.order[h]]
            r = self._sq(fname, h) and not any(x != f.order[h] and x in me and L[x] <= me and self._sq(fname, f.order.index(x)) for x in L)
            self.isl[k] = r
        return r
    def uniform(self):
        """B such that buf[j] = stream[B + j] for all j, and the stream stands at B + 136"""
        o = self.log['buf']
        r = rdparts(self, o.cells)
        if r is None or r[0] is not self.log['s']: raise Unsupported('buffer is not a block of the stream')
        return r[1]
    def at_header(self, fname, h, fr, phis, widths):
        if 'ch' not in self.log or not self.innermost(fname, h): return None
        g = self.log['ch']
        if 'buf' not in self.log:
            ctx = [o for o in self.heap if o.live and isinstance(o.reads, dict)]
            if len(ctx) != 1: raise Unsupported('hash contexts')
            self.log['ctx'] = ctx[0]; self.log['s'] = shake.stream(ctx[0].reads['parts'])
            c = [o for o in self.objs if o.live and o.cells.__class__ is list and len(o.cells) == 136 and rdparts(self, [x if x is not UNDEF else 0 for x in o.cells])]
            if len(c) != 1: raise Unsupported('stream buffer')
            self.log['buf'] = c[0]
        B = self.uniform(); ctx = self.log['ctx'].reads; st = fr.get(h)
        sy = [j for j, (x, w) in enumerate(zip(phis, widths)) if w]
        if st is None:
            # which loop-carried value is the buffer position: the one that gives the expected stream index
            n = g['n'] = g['n'] + 1
            if self.di >= len(self.dec) and n in self.visited: raise PathEnd('already covered')
            self.visited.add(n)
            pj = None
            for j in sy:
                x = tm.zext(widths[j], 64, phis[j]) if phis[j].__class__ is T else phis[j]
                e = tm.eq(64, tm.add(64, B, x), g['next'])
                if e.__class__ is not int: e = int(self.feasible(tm.not_(1, e)) is False)
                if e and (pj is None or g.get('pj') == j): pj = j
            if pj is None: raise Violation('poly_challenge: bytes are taken in stream order', 'position %d' % n, self.model())
            g['pj'] = pj; w = widths[pj]
            x = phis[pj]
            self.post(tm.ule(w, x, 136), 'poly_challenge: buffer position stays inside the block')
            self.same(64, ctx['pos'], tm.add(64, B, 136), 'poly_challenge: the buffer is the current block')
            s = tm.var('s%d' % n, 64); p = tm.var('p%d' % n, w)
            if self.fork(2, 'block exhausted'): p = 136
            else: self.assume(tm.ult(w, p, 136))
            self.assume(tm.ule(64, 136, s)); self.assume(tm.ule(64, s, 1 << 40))
            nb = tm.sub(64, s, tm.zext(w, 64, p) if p.__class__ is T else p)
            self.setbuf(nb); ctx['pos'] = tm.add(64, nb, 136)
            fr[h] = dict(s=s); g['s'] = s
            return tuple(p if j == pj else y for j, y in enumerate(phis))
        # rejected byte
        w = widths[g['pj']]; x = tm.zext(w, 64, phis[g['pj']]) if phis[g['pj']].__class__ is T else phis[g['pj']]
        self.same(64, tm.add(64, B, x), tm.add(64, st['s'], 1), 'poly_challenge: one byte of the stream per trial')
        self.post(tm.ule(w, phis[g['pj']], 136), 'poly_challenge: buffer position stays inside the block')
        self.same(64, ctx['pos'], tm.add(64, B, 136), 'poly_challenge: the buffer is the current block')
        self.post(tm.ult(8, 216 + g['n'], tm.app('rd', 8, (self.log['s'], st['s']))), 'poly_challenge: only bytes above the current index are skipped')
        self.cover('skipped')
        raise PathEnd('trial')
    def setbuf(self, nb):
        o = self.log['buf']; s = self.log['s']
        o.cells[:] = [tm.app('rd', 8, (s, tm.add(64, nb, j))) for j in range(136)]
    def loop_exit(self, fr, h):
        st = fr.pop(h, None)
        if st is None or 's' not in st: return
        g = self.log['ch']; b = tm.app('rd', 8, (self.log['s'], st['s']))
        self.post(tm.ule(8, b, 216 + g['n']), 'poly_challenge: an accepted byte is at most the current index')
        g['b'].append(b); g['next'] = tm.add(64, st['s'], 1)
        self.cover('accepted')

def chalhook(E, o, off, n, what):
    if o is E.log.get('buf') and what == 'read' and n == 1:
        B = E.uniform()
        E.require(tm.ult(64, off, 136), 'in-bounds access', 'challenge buffer')
        return (lambda _, n: tm.app('rd', 8, (E.log['s'], tm.add(64, B, off))), None, None)
    if o.name == 'c' and n == 4:
        E.require(tm.and_(1, tm.ule(64, off, 1020), tm.eq(2, tm.ext(off, 64, 0, 2), 0)), 'in-bounds access', 'challenge coefficient')
        idx = tm.ext(off, 64, 2, 10)
        for b in E.log['ch']['b'][-1:]:
            if tm.eq(64, off, tm.mul(64, tm.zext(8, 64, b), 4)) == 1: idx = b
        def ld(_, n): return tm.app('sel', 32, (arr(E, o), idx))
        def stv(_, n, v): arr(E, o); E.log['arr'] = tm.app('upd', 8, (E.log['arr'], idx, v))
        return (ld, None, stv)
    v = E.unique(off)
    if v is not None: return E._off(Ptr(o, v), n, what)
    raise Unsupported('symbolic offset into %s' % o.name)
def arr(E, o):
    if 'arr' not in E.log:
        E.post(1 if all(c.__class__ is int and c == 0 for c in o.cells) else 0, 'poly_challenge: all coefficients start at zero')
        E.log['arr'] = tm.app('zeros', 8, ())
    return E.log['arr']

def t_challenge(E):
    c = E.obj('c', 1024, 'undef', 'arg'); seed = inputs(E, 'seed', 32)
    E.hooks['symoff'] = chalhook
    g = E.log['ch'] = dict(n=0, next=8, b=[])
    st0 = Engine.store; ld0 = Engine.load
    def store(p, n, v):
        if p.__class__ is Ptr and p.o is c and 'arr' in E.log and p.off.__class__ is int:
            E.log['arr'] = tm.app('upd', 8, (E.log['arr'], p.off >> 2, v)); return
        return st0(E, p, n, v)
    def load(p, n):
        if p.__class__ is Ptr and p.o is c and 'arr' in E.log and p.off.__class__ is int: return tm.app('sel', 32, (E.log['arr'], p.off >> 2))
        return ld0(E, p, n)
    E.store = store; E.load = load
    try: E.run(P + 'poly_challenge', (Ptr(c, 0), Ptr(seed, 0)))
    finally: del E.store, E.load
    S = shake.stream(shake.bts(list(seed.cells)))
    E.post(1 if E.log.get('s') is S else 0, 'poly_challenge: the stream is SHAKE-256 of the whole 32-byte seed')
    E.post(1 if len(g['b']) == TAU else 0, 'poly_challenge: exactly 39 positions are drawn', '%d' % len(g['b']))
    a = tm.app('zeros', 8, ())
    ups = []
    for n, b in enumerate(g['b']):
        sg = tm.ext(tm.app('rd', 8, (S, n >> 3)), 8, n & 7, (n & 7) + 1)
        ups.append((217 + n, tm.app('sel', 32, (a, b))))
        a = tm.app('upd', 8, (a, *ups[-1]))
        ups.append((b, tm.ite(32, tm.eq(1, sg, 0), 1, 0xffffffff)))
        a2 = tm.app('upd', 8, (a, *ups[-1])); a = None
        # compare with the computed chain step by step below
        a = a2
    chain = []
    x = E.log['arr']
    while x.a[0] == 'upd': chain.append((x.a[2], x.a[3])); x = x.a[1]
    chain.reverse()
    E.post(1 if len(chain) == 2 * TAU else 0, 'poly_challenge: two updates per drawn position')
    base = tm.app('zeros', 8, ())
    for n in range(TAU):
        (i0, v0), (i1, v1) = chain[2 * n], chain[2 * n + 1]
        b = g['b'][n]
        sg = tm.ext(tm.app('rd', 8, (S, n >> 3)), 8, n & 7, (n & 7) + 1)
        E.same(8, i0, 217 + n, 'poly_challenge: the coefficient at the drawn position moves to the current index', 'draw %d' % n)
        E.same(32, v0, tm.app('sel', 32, (base, b)), 'poly_challenge: the coefficient at the drawn position moves to the current index', 'draw %d' % n)
        E.same(8, i1, b, 'poly_challenge: the drawn position receives the sign', 'draw %d' % n)
        E.same(32, v1, tm.ite(32, tm.eq(1, sg, 0), 1, 0xffffffff), 'poly_challenge: sign n is bit n of the first eight stream bytes', 'draw %d' % n)
        base = tm.app('upd', 8, (tm.app('upd', 8, (base, i0, v0)), i1, v1))
    shake.released(E)
    E.cover('done')

def lemma_weight(mod):
    """one draw (c[i] := c[b]; c[b] := +-1 with b <= i and c[i] = 0 before) raises the number of non-zero coefficients by exactly one and keeps them in {-1,0,1}"""
    import z3
    s = z3.Solver()
    i, b = z3.Ints('i b'); cb, sg = z3.Ints('cb sg')
    nz = lambda x: z3.If(x != 0, 1, 0)
    s.add(b <= i, z3.Or(cb == 0, cb == 1, cb == -1), z3.Or(sg == 1, sg == -1), z3.Implies(b == i, cb == 0))
    newi = z3.If(b == i, sg, cb); newb = sg
    before = z3.If(b == i, 0, nz(cb)); after = z3.If(b == i, nz(sg), nz(newi) + nz(newb))
    s.add(z3.Or(after != before + 1, z3.And(newi != 0, newi != 1, newi != -1)))
    ok = s.check() == z3.unsat
    return dict(status='proved' if ok else 'violation', label='lemma: each draw adds exactly one coefficient +-1', detail='', backend='z3', obligations=1, discharged=1)

# ---- bounded stand-ins: concrete accept/reject pattern, symbolic values ------------------------------------------------
def t_pattern(E, fn, kind, seedlen, pat):
    """pat(i) -> True when candidate i is acceptable; all bytes symbolic under that constraint"""
    a = E.obj('a', 1024, 'undef', 'arg'); seed = inputs(E, 'seed', seedlen); nonce = tm.var('nonce', 16)
    fam = '128' if kind == 'uniform' else '256'
    s = shake.stream(shake.bts(list(seed.cells) + [tm.ext(nonce, 16, 0, 8), tm.ext(nonce, 16, 8, 16)]), fam)
    want = []; k = 0
    while len(want) < N:
        for j, (ok, v) in enumerate(CAND[kind](lambda o: tm.app('rd', 8, (s, o)), k)):
            c = pat(k * (2 if kind == 'eta' else 1) + j)
            E.assume(ok if c else tm.not_(1, ok))
            if c: want.append(v)
        k += 1
    E.run(P + fn, (Ptr(a, 0), Ptr(seed, 0), nonce))
    for i, x in enumerate(want[:N]): E.same(32, E.load(Ptr(a, 4 * i), 4), x, '%s: the first 256 acceptable candidates in stream order' % fn, 'coefficient %d' % i)
    shake.released(E)
    E.cover('done')
def patterns(kind):
    r = random.Random(3)
    P0 = [('all accepted', lambda i: True), ('every second', lambda i: i % 2 == 1), ('every third', lambda i: i % 3 == 0), ('first 30 rejected', lambda i: i >= 30), ('last of the first blocks rejected', lambda i: not (250 <= i < 282))]
    for k in range(4):
        z = set(r.sample(range(300), 60)); P0.append(('random %d' % k, (lambda z: lambda i: i not in z)(z)))
    return P0

def c_log(sl):
    """one polynomial filled from (seed, nonce): recorded"""
    def f(E, a, seed, nonce):
        E.log.setdefault('samp', []).append((a, tuple(E.rd(seed, sl)), nonce))
        E.wr(a, [tm.app('coef', 8, (len(E.log['samp']), i)) for i in range(1024)])
        return None
    return f
def t_vec(E, fn, n, sl, sub, nonces, hasn):
    """vector and matrix samplers: polynomial i is the sampler applied to the same seed and the i-th specified nonce"""
    v = E.obj('v', 1024 * n, 'undef', 'arg'); seed = inputs(E, 'seed', sl); nonce = tm.var('nonce', 16)
    E.run(P + fn, (Ptr(v, 0), Ptr(seed, 0)) + ((nonce,) if hasn else ()))
    got = {}
    for a, s, x in E.log.get('samp', []):
        E.post(int(a.o is v and a.off.__class__ is int and a.off % 1024 == 0 and a.off not in got), '%s: every polynomial sampled once, in its place' % fn)
        got[a.off] = (s, x)
    for i in range(n):
        E.post(int(1024 * i in got), '%s: every polynomial sampled once, in its place' % fn, 'polynomial %d' % i)
        s, x = got[1024 * i]
        E.post(int(s == tuple(seed.cells)), '%s: the whole seed is used' % fn)
        E.same(16, x, nonces(i, nonce), '%s: specified nonce' % fn, 'polynomial %d' % i)
    E.cover('done')
VEC = [('polyvec_matrix_expand', 16, 32, 'poly_uniform', lambda i, n: (i // 4) << 8 | i % 4, False),
       ('polyvecl_uniform_eta', 4, 64, 'poly_uniform_eta', lambda i, n: tm.add(16, n, i), True),
       ('polyveck_uniform_eta', 4, 64, 'poly_uniform_eta', lambda i, n: tm.add(16, n, i), True),
       ('polyvecl_uniform_gamma1', 4, 64, 'poly_uniform_gamma1', lambda i, n: tm.add(16, tm.mul(16, n, 4), i), True)]

def tasks(thorough=False):
    S = shake.inc(True)
    ts = []
    for kind, fn, sl in (('uniform', 'poly_uniform', 32), ('eta', 'poly_uniform_eta', 64)):
        alt = [Task('%s, %s' % (fn, n), P + fn, t_pattern, S, args=(fn, kind, sl, f), budget=150, need_cover=('done',), bounded='acceptance pattern "%s", all stream bytes otherwise symbolic' % n) for n, f in patterns(kind)]
        ts.append(Task('rej_%s' % kind, 'rej_' + kind, probed(b_rej), args=(kind,), engine_cls=RejEngine, need_cover=('step', 'exit'), alt=alt[:4]))
        ts.append(Task(fn, P + fn, t_fill, {**S, 'rej_' + kind: c_rej(kind)}, args=(fn, kind, sl), engine_cls=FillEngine, need_cover=('done', 'refill', 'refill again'), alt=alt))
    ts.append(Task('poly_uniform_gamma1', P + 'poly_uniform_gamma1', t_gamma1, S, need_cover=('done',)))
    ts.append(Task('poly_challenge', P + 'poly_challenge', t_challenge, S, engine_cls=ChalEngine, need_cover=('done', 'skipped', 'accepted')))
    for v in VEC: ts.append(Task(v[0], P + v[0], t_vec, {P + v[3]: c_log(v[2])}, args=v, need_cover=('done',)))
    from run import PyTask
    ts.append(PyTask('challenge weight', 'poly_challenge', lemma_weight))
    return ts
def bounded_tasks():
    return [a for t in tasks() if getattr(t, 'alt', None) for a in t.alt]
