"""C09: the random source.  Ghost variable g = number of bytes the kernel has delivered so far; loops are handled by an invariant of the form
phi = v1 + s*(g - g1) (s in {-1, 0, +1}, found from the first iteration, then verified for an arbitrary one), g <= n."""
import term as tm
from engine import *
from loops import LoopEngine, SymCells
from run import Task

class RandEngine(LoopEngine):
    bounded = False
    def reset_path(self, d):
        LoopEngine.reset_path(self, d)
        self.g = 0; self.n = None
    def touched(self, o):
        if self.n is not None and o.name == 'buf' and not (self.g.__class__ is int and self.g == 0):
            raise Violation('bytes delivered by the kernel are not overwritten', 'in %s' % self.where(), self.model())
    def symwr(self, o, rest, c, v):
        self.touched(o); return LoopEngine.symwr(self, o, rest, c, v)
    def bulk(self, o, *a):
        self.touched(o); return LoopEngine.bulk(self, o, *a)
    def loop_exit(self, fr, h): fr.pop(h, None)
    def eqv(self, w, a, b):
        e = tm.eq(w, self.norm(a), self.norm(b))
        if e.__class__ is int: return bool(e)
        return self.solver().check(tm.not_(1, e)) is False
    def same_phi(self, w, a, b):
        if w == 0:
            if a.__class__ is Ptr and b.__class__ is Ptr: return a.o is b.o and self.eqv(64, a.off, b.off)
            return a is b or a == b
        if a is UNDEF or b is UNDEF: return a is b
        return self.eqv(w, a, b)
    def at_header(self, fname, h, fr, phis, widths):
        if self.bounded: return None
        st = fr.get(h)
        if st is None:
            fr[h] = dict(g=self.g, v=phis, mem=self._snap(), hav=set(), form=None); return None
        self.memsame(st)
        prog = not self.eqv(64, self.g, st['g'])
        if st['form'] is None and not prog:
            diff = {i for i, (a, b, w) in enumerate(zip(st['v'], phis, widths)) if not self.same_phi(w, a, b)}
            if diff <= st['hav']: raise PathEnd('state seen before')
            # values that change without progress are arbitrary from here on
            st['hav'] = st['hav'] | diff
            st['v'] = phis = self.havoc(phis, widths, st['hav'])
            return phis
        if st['form'] is None:
            dg = tm.sub(64, self.g, st['g'])
            form = []
            for i, (a, b, w) in enumerate(zip(st['v'], phis, widths)):
                if i in st['hav']: form.append(None); continue
                if self.same_phi(w, a, b): form.append(0); continue
                f = None
                if w == 64 or w == 0 and a.__class__ is Ptr and b.__class__ is Ptr and a.o is b.o:
                    x, y = (a, b) if w else (a.off, b.off)
                    for s in (1, -1):
                        if self.eqv(64, tm.sub(64, y, x), tm.mul(64, s & M64, dg)): f = s
                elif w not in (0,): f = None
                if f is None and w == 0: raise Unsupported('loop-carried pointer in ' + self.where())
                form.append(f)
            g0 = st['g']
            G = self.fresh('g', 64)
            self.assume(tm.ule(64, g0, G)); self.assume(tm.ule(64, G, self.n))
            if st['hav']: pass
            st['form'] = form
            st['G'] = G
            self.g = G
            return self.inst(st, phis, widths, havoc=True)
        # any later iteration: the state must have the same form
        want = self.inst(st, phis, widths, havoc=False)
        for i, (f, a, b, w) in enumerate(zip(st['form'], want, phis, widths)):
            self.stats.safety += 1
            if f is None: continue
            if not self.same_phi(w, a, b): raise Unsupported('loop invariant over the number of delivered bytes not found in ' + self.where())
        self.require(tm.ule(64, self.g, self.n), 'loop invariant: at most n bytes delivered')
        raise PathEnd('invariant preserved')
    def inst(self, st, phis, widths, havoc):
        out = []
        for f, v, p, w in zip(st['form'], st['v'], phis, widths):
            if f is None: out.append(self.fresh('h', w) if havoc else p)
            elif f == 0: out.append(v)
            else:
                d = tm.mul(64, f & M64, tm.sub(64, self.g, st['g']))
                out.append(Ptr(v.o, tm.add(64, v.off, d)) if w == 0 else tm.add(64, v, d))
        return tuple(out) or None
    def havoc(self, phis, widths, hs):
        out = []
        for i, (p, w) in enumerate(zip(phis, widths)):
            if i in hs:
                if w == 0: raise Unsupported('loop-carried pointer in ' + self.where())
                out.append(self.fresh('h', w))
            else: out.append(p)
        return tuple(out) or None
    def memsame(self, st):
        m = {o: c for o, c in st['mem']}
        for o, c in self._snap():
            if o.name == 'errno': continue
            c1 = m.get(o)
            if c1 is None: continue
            for x, y in zip(c, c1):
                if x is not y and not (x.__class__ is int and y.__class__ is int and x == y): raise Unsupported('loop changes memory in ' + self.where())

KMAX = 33554431
def contracts(budget):
    def getrandom(E, p, k, flags):
        o, off = E.ptr(p, 'getrandom')
        E.require(tm.eq(64, off, E.g) if o.name == 'buf' else 0, 'the next unfilled byte is requested', 'offset %s, %s delivered' % (tm.show(off), tm.show(E.g)))
        E.require(tm.ule(64, k, tm.sub(64, E.n, E.g)), 'no more than what remains is requested', '%s requested, %s of %s delivered' % (tm.show(k), tm.show(E.g), tm.show(E.n)))
        E.calls = getattr(E, 'calls', 0) + 1
        if E.bounded:
            E.log['calls'] = E.log.get('calls', 0) + 1
            kk = conc(E, k, 'request')
            opts = ['full'] if E.log['calls'] > budget else ['full', 'eintr', 'hard'] + ([1] if kk > 1 else []) + ([kk - 1] if kk > 2 else [])
            c = opts[E.fork(len(opts))]
            if c.__class__ is int: E.g = tm.add(64, E.g, c); return c
            if c == 'full': E.g = tm.add(64, E.g, min(kk, KMAX)); return min(kk, KMAX)
        else: c = ('read', 'eintr', 'hard')[E.fork(3)]
        if c == 'read':
            r = tm.zext(25, 64, E.fresh('r', 25))
            E.assume(tm.ule(64, r, k))
            E.g = tm.add(64, E.g, r)
            E.cover('short read')
            return r
        e = 4 if c == 'eintr' else E.fresh('errno', 32)
        if c == 'hard':
            E.assume(tm.ne(32, e, 4)); E.log['hard'] = True; E.cover('hard error')
        else: E.cover('interrupted')
        E.store(Ptr(E.eo, 0), 4, e)
        return M64
    def errno_loc(E): return Ptr(E.eo, 0)
    return {'getrandom': getrandom, '__errno_location': errno_loc}

def t_rand(E, fn, bnd):
    E.bounded = bnd is not None
    n = tm.var('n', 64) if bnd is None else bnd
    if bnd is None: E.assume(tm.ult(64, n, 1 << 63))
    E.eo = E.obj('errno', 4, [tm.var('errno0[%d]' % i, 8) for i in range(4)], 'arg')
    buf = E.symobj('buf', n, False, False)
    E.n = n; E.g = 0
    r = E.run(fn, (Ptr(buf, 0), n))
    if E.branch(tm.eq(32, r, 0)):
        E.post(tm.eq(64, E.g, n), 'success only when every byte has been delivered by the kernel', 'delivered %s of %s' % (tm.show(E.g), tm.show(n)))
        E.post(0 if E.log.get('hard') else 1, 'a hard error of the source is reported')
        E.cover('success')
    else:
        E.post(1 if E.log.get('hard') else 0, 'failure is reported only after a hard error (interrupted calls and short reads are retried)')
        E.cover('failure')

def tasks():
    fb = [('randombytes', n) for n in (0, 1, 2, 3, 5, 40, KMAX, KMAX + 1, 2 * KMAX + 3)]
    return [Task('randombytes', 'randombytes', t_rand, contracts(3), args=('randombytes', None), engine_cls=RandEngine, need_cover=('success', 'failure', 'short read', 'interrupted', 'hard error'), fallback=fb)]
