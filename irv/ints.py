"""IntEngine: machine words as exact integers.

A word is an integer polynomial over atoms (inputs with a range, and quotients floor(P / 2^k) introduced by shifts and masks); the machine word is that integer
modulo 2^w.  Additions, subtractions and multiplications are exact on it; wherever the machine looks at the value (shifts right, comparisons, extensions, signed
overflow flags) the range of the integer decides, first by intervals and then by linear integer arithmetic (z3) over the defining inequalities
0 <= P - 2^k f < 2^k of every quotient.  Nothing is assumed about a word whose range is not established."""
import z3
import term as tm
from term import T
from engine import *
import engine

CUR = None

class IV:
    __slots__ = ('d', '_k', '_h')
    def __init__(self, d):
        self.d = d; self._k = None; self._h = None
    @property
    def key(self):
        if self._k is None: self._k = frozenset(self.d.items())
        return self._k
    def __hash__(self):
        if self._h is None: self._h = hash(self.key)
        return self._h
    def __eq__(self, o): return o.__class__ is IV and self.d == o.d
    def __repr__(self): return 'IV(%s)' % ' + '.join('%d*%s' % (c, '.'.join(map(str, m))) for m, c in list(self.d.items())[:6])
    def const(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def lin(self): return all(len(m) <= 1 for m in self.d)

class XorV:
    """exclusive or of integers kept symbolic: only cancels"""
    __slots__ = ('s',)
    def __init__(self, s): self.s = frozenset(s)

def k(c): return IV({(): c} if c else {})
def add(a, b, m=1):
    d = dict(a.d)
    for x, c in b.d.items():
        v = d.get(x, 0) + m * c
        if v: d[x] = v
        else: d.pop(x, None)
    return IV(d)
def scale(a, m): return IV({x: c * m for x, c in a.d.items()}) if m else IV({})
def mul(a, b):
    if a.const(): return scale(b, a.d.get((), 0))
    if b.const(): return scale(a, b.d.get((), 0))
    d = {}
    for x, c in a.d.items():
        for y, e in b.d.items():
            z = tuple(sorted(x + y)); v = d.get(z, 0) + c * e
            if v: d[z] = v
            else: d.pop(z, None)
    return IV(d)

class IntEngine(Engine):
    def reset_path(self, d):
        global CUR
        Engine.reset_path(self, d)
        CUR = self
        self.rng = []            # atom -> (lo, hi)
        self.nm = []
        self.fl = {}             # atom -> (B, k): floor(B / 2^k)
        self.fidx = {}           # (B, k) -> atom
        self.env = {}            # atom -> value on this path
        self.df = {}             # atom -> (B, k, f): the name given to the residue B - 2^k f
        self.dfi = {}
        self.tight = {}          # IV -> interval established by the solver
        self.facts = []          # (IV, lo, hi)
        self.use_lia = True; self.unfold = 0; self.real_only = False
    fork_after = 1e9
    def __init__(self, *a, **kw):
        Engine.__init__(self, *a, **kw); self.fork_after = 1e9; self.memo = {}
    def atom(self, name, lo, hi):
        i = len(self.rng); self.rng.append((lo, hi)); self.nm.append(name)
        return IV({(i,): 1})
    def iv(self, w, x):
        if x.__class__ is int: return k(tm.sx(w, x))
        if x.__class__ is IV: return self.sub(x)
        raise Unsupported('value outside the integer domain in %s: %r' % (self.where(), x))
    def sub(self, x):
        if not self.env: return x
        if not any(a in self.env for m in x.d for a in m): return x
        d = {}
        for m, c in x.d.items():
            r = []
            for a in m:
                if a in self.env: c *= self.env[a]
                else: r.append(a)
            if c:
                r = tuple(r); v = d.get(r, 0) + c
                if v: d[r] = v
                else: d.pop(r, None)
        return IV(d)
    # ---- ranges ----
    def naive(self, x):
        lo = hi = 0
        for m, c in x.d.items():
            if len(m) == 2 and m[0] == m[1]:
                l, h = self.rng[m[0]]; l, h = (0 if l <= 0 <= h else min(l * l, h * h)), max(l * l, h * h)
            else:
                l = h = 1
                for a in m:
                    r = self.rng[a]; q = (l * r[0], l * r[1], h * r[0], h * r[1]); l, h = min(q), max(q)
            if c >= 0: lo += c * l; hi += c * h
            else: lo += c * h; hi += c * l
        return lo, hi
    def interval(self, x):
        x = self.sub(x)
        t = self.tight.get(x)
        lo, hi = self.naive(x)
        if t: lo, hi = max(lo, t[0]), min(hi, t[1])
        # residues: B - 2^k f lies in [0, 2^k)
        y = x; l2 = h2 = 0; used = False
        for a in sorted({a for m in x.d for a in m if a in self.fl}, reverse=True):
            c = y.d.get((a,), 0); B, kk = self.fl[a]
            if c and c % (1 << kk) == 0:
                m = -c >> kk
                y = add(y, add(self.sub(B), IV({(a,): 1}), -(1 << kk)), -m); used = True
                if m >= 0: h2 += m * ((1 << kk) - 1)
                else: l2 += m * ((1 << kk) - 1)
        if used:
            l, h = self.naive(y); t = self.tight.get(y)
            if t: l, h = max(l, t[0]), min(h, t[1])
            lo, hi = max(lo, l + l2), min(hi, h + h2)
        return lo, hi
    def name(self, r):
        """a residue B - 2^k f gets a name of its own (its definition is unfolded only where needed)"""
        fs = [a for m in r.d for a in m if a in self.fl]
        if not fs or len(r.d) < 3: return r
        f = max(fs); B, n = self.fl[f]
        if r.d.get((f,), 0) != -(1 << n): return r
        d = add(r, add(self.sub(B), IV({(f,): 1}), -(1 << n)), -1)
        if not d.const(): return r
        e = self.dfi.get(f)
        if e is None:
            e = len(self.rng); self.rng.append((0, (1 << n) - 1)); self.nm.append('e%d' % e)
            self.df[e] = (B, n, f); self.dfi[f] = e
        return add(IV({(e,): 1}), d)
    def expand(self, x):
        """all names replaced by their definitions"""
        x = self.sub(x)
        while True:
            es = [a for m in x.d for a in m if a in self.df]
            if not es: return x
            e = max(es); B, n, f = self.df[e]
            df = self.sub(add(B, IV({(f,): 1}), -(1 << n)))
            r = IV({m: c for m, c in x.d.items() if e not in m})
            for m, c in x.d.items():
                if e in m:
                    t = k(c)
                    for a in m: t = mul(t, df if a == e else IV({(a,): 1}))
                    r = add(r, t)
            x = self.sub(r)
    def lia(self, x=None, unfold=0, real=False):
        """solver with what is known about the atoms (products are atoms of their own; names unfolded to the given depth)"""
        depth = {}; cur = [0]
        s = z3.SolverFor('QF_LRA' if real else 'QF_LIA'); s.set('timeout', 8000)
        vs = {}; todo = []; V = z3.Real if real else z3.Int; C = z3.RealVal if real else z3.IntVal
        def var(m):
            if m not in vs:
                v = V('x' + '_'.join(map(str, m))); vs[m] = v
                lo, hi = self.naive(IV({m: 1}))
                s.add(v >= lo, v <= hi)
                depth[m] = cur[0]
                if len(m) == 1 and (m[0] in self.fl or (m[0] in self.df and cur[0] < unfold)): todo.append(m[0])
            return vs[m]
        def ex(p):
            p = self.sub(p)
            return z3.Sum([c * var(m) if m else C(c) for m, c in p.d.items()] or [C(0)])
        e = ex(x) if x is not None else None
        for p, lo, hi in self.facts:
            q = ex(p)
            if lo is not None: s.add(q >= lo)
            if hi is not None: s.add(q <= hi)
        for a, v in self.env.items():
            if a in self.fl:
                B, kk = self.fl[a]; q = ex(B); s.add(q >= v << kk, q <= (v << kk) + (1 << kk) - 1)
        while todo:
            a = todo.pop(); cur[0] = depth[(a,)]
            if a in self.df:
                cur[0] += 1; B, kk, f = self.df[a]
                s.add(ex(add(B, IV({(f,): 1}), -(1 << kk))) == vs[(a,)])
                continue
            B, kk = self.fl[a]
            q = ex(B) - (1 << kk) * vs[(a,)]
            s.add(q >= 0, q <= (1 << kk) - 1)
        self.stats.smt += 1
        return s, e
    def tighten(self, x, lo=None, hi=None):
        """True if lo <= x <= hi is established"""
        x = self.sub(x)
        l, h = self.interval(x)
        if (lo is None or l >= lo) and (hi is None or h <= hi): return True
        t0 = time.time()
        # paths of one exploration repeat their common prefix: same atoms, same facts, same question
        key = (x, lo, hi, self.unfold, self.real_only, tuple(self.rng), tuple(self.env.items()), tuple(self.facts))
        if key in self.memo:
            l, h, ok = self.memo[key]; self.tight[x] = (l, h)
            return ok
        for u in range(self.unfold + 1):
          for real in (True, False):
            if not real and self.real_only: continue
            s, e = self.lia(x, u, real)
            ok = True
            if lo is not None and l < lo:
                if s.check(e < lo) == z3.unsat: l = lo
                else: ok = False
            if hi is not None and h > hi:
                if s.check(e > hi) == z3.unsat: h = hi
                else: ok = False
            if ok: break
          if ok: break
        self.stats.smt_time += time.time() - t0
        self.tight[x] = (l, h); self.memo[key] = (l, h, ok)
        return ok
    def within(self, x, lo, hi, what):
        l, h = self.interval(x)
        if l >= lo and h <= hi: return
        if not self.tighten(x, lo, hi): raise Undecided('word in range', '%s in %s: value in [%d,%d]' % ((what, self.where()) + self.interval(x)))
    def floor(self, x, n):
        x = self.sub(x)
        if n == 0: return x
        A = {}; B = {}
        for m, c in x.d.items():
            q, r = c >> n, c & ((1 << n) - 1)
            if r == 0: A[m] = q
            elif m == (): 
                B[m] = r
                if q: A[m] = q
            else: B[m] = c
        A, B = IV(A), IV(B)
        if not B.d: return A
        # B = 2^j C + D with 0 <= D < 2^j: D does not matter
        tz = {m: (c & -c).bit_length() - 1 for m, c in B.d.items()}
        for j in sorted(set(tz.values()), reverse=True):
            if j == 0: break
            D = IV({m: c for m, c in B.d.items() if tz[m] < j})
            if not D.d: continue
            l, h = self.interval(D)
            if l >= 0 and h < 1 << j:
                return add(A, self.floor(IV({m: c >> j for m, c in B.d.items() if tz[m] >= j}), n - j))
        j = min(tz.values())
        if j: return add(A, self.floor(IV({m: c >> j for m, c in B.d.items()}), n - j))
        lo, hi = self.interval(B)
        if lo >> n != hi >> n and (hi >> n) - (lo >> n) <= 4 and self.use_lia:
            key = (B, n, len(self.facts), len(self.env))
            if key not in self.tight:
                self.tight[key] = True
                a, b = lo >> n, hi >> n
                ro = self.real_only; self.real_only = ro or b - a == 1
                while a < b and self.tighten(B, (a + 1) << n, None): a += 1
                while a < b and self.tighten(B, None, (b << n) - 1): b -= 1
                self.real_only = ro
            lo, hi = self.interval(B)
        if lo >> n == hi >> n: return add(A, k(lo >> n))
        ms = [m for m in B.d if m]
        if len(ms) == 1 and len(ms[0]) == 1 and self.rng[ms[0][0]][1] - self.rng[ms[0][0]][0] == 1:
            # a two-valued atom: the quotient is affine in it
            a = ms[0][0]; l = self.rng[a][0]; c0 = B.d.get((), 0)
            v0, v1 = (c0 + B.d[ms[0]] * l) >> n, (c0 + B.d[ms[0]] * (l + 1)) >> n
            return add(add(A, k(v0 - (v1 - v0) * l)), IV({ms[0]: v1 - v0} if v1 != v0 else {}))
        f = self.fidx.get((B, n))
        if f is None:
            f = len(self.rng); self.rng.append((lo >> n, hi >> n)); self.nm.append('f%d' % f)
            self.fl[f] = (B, n); self.fidx[B, n] = f
        return add(A, IV({(f,): 1}))
    use_lia = True
    unfold = 0
    real_only = False
    def modn(self, x, n):
        """x mod 2^n in [0, 2^n)"""
        lo, hi = self.interval(x)
        if lo >= 0 and hi < 1 << n: return self.sub(x)
        return self.name(add(x, self.floor(x, n), -(1 << n)))
    def uns(self, w, x):
        lo, hi = self.interval(x)
        if lo >= 0 and hi < 1 << w: return x
        if self.tighten(x, 0, (1 << w) - 1): return x
        return self.modn(x, w)
    def sgn(self, w, x):
        H = 1 << (w - 1)
        lo, hi = self.interval(x)
        if lo >= -H and hi < H: return x
        if self.tighten(x, -H, H - 1): return x
        y = add(x, k(H))
        return add(x, self.floor(y, w), -(1 << w))
    def split(self, x, lo, hi):
        """case split on the value of x in lo..hi (one atom with coefficient +-1, or a general fact)"""
        x = self.sub(x)
        if x.const(): return x.d.get((), 0)
        v = lo + self.fork(hi - lo + 1)
        ms = [m for m in x.d if m]
        if len(ms) == 1 and len(ms[0]) == 1 and abs(x.d[ms[0]]) == 1:
            a = ms[0][0]; r = (v - x.d.get((), 0)) * x.d[ms[0]]
            if not (self.rng[a][0] <= r <= self.rng[a][1]): raise Infeasible()
            self.env[a] = r
        else: self.facts.append((x, v, v))
        self.tight = {}
        for u in range(self.unfold + 1):
            s, _ = self.lia(None, u, True)
            if s.check() == z3.unsat: raise Infeasible()
        return v
    def reachable(self): return True
    def model(self): return None
    # ---- operations ----
    def bin_nsw(self, op, w, a, b):
        if a.__class__ is not IV and b.__class__ is not IV: return Engine.bin_nsw(self, op, w, a, b)
        a, b = self.iv(w, a), self.iv(w, b)
        H = 1 << (w - 1)
        a, b = self.sgn(w, a), self.sgn(w, b)
        r = add(a, b) if op == 'add' else add(a, b, -1) if op == 'sub' else mul(a, b)
        self.stats.safety += 1
        l, h = self.interval(r)
        if not (l >= -H and h < H) and not self.tighten(r, -H, H - 1):
            raise Violation('no signed overflow', 'in %s: %s (i%d), value in [%d,%d]' % ((self.where(), op, w) + self.interval(r)), None)
        return self.name(r)
    def bin(self, op, w, a, b):
        if a.__class__ is not IV and b.__class__ is not IV: return Engine.bin(self, op, w, a, b)
        if op in ('add', 'sub', 'mul'):
            a, b = self.iv(w, a), self.iv(w, b)
            return self.name(add(a, b) if op == 'add' else add(a, b, -1) if op == 'sub' else mul(a, b))
        if op in ('shl', 'lshr', 'ashr') and b.__class__ is int:
            self.stats.safety += 1
            if b >= w: raise Violation('shift amount in range', 'in %s' % self.where(), None)
            a = self.iv(w, a)
            if op == 'shl': return (scale(a, 1 << b))
            return (self.floor(self.sgn(w, a) if op == 'ashr' else self.uns(w, a), b))
        if op in ('udiv', 'urem') and b.__class__ is int and b & (b - 1) == 0 and b:
            n = b.bit_length() - 1; a = self.uns(w, self.iv(w, a))
            return (self.floor(a, n) if op == 'udiv' else self.modn(a, n))
        if op in ('sdiv', 'srem') and b.__class__ is int and b & (b - 1) == 0 and b:
            n = b.bit_length() - 1; a = self.sgn(w, self.iv(w, a))
            self.within(a, 0, 1 << 63, 'division')
            return (self.floor(a, n) if op == 'sdiv' else self.modn(a, n))
        raise Unsupported('operation %s on integers in %s' % (op, self.where()))
    def icmp(self, pred, w, a, b):
        if a.__class__ is not IV and b.__class__ is not IV: return Engine.icmp(self, pred, w, a, b)
        a, b = self.iv(w, a), self.iv(w, b)
        if pred[0] == 'u': a, b = self.uns(w, a), self.uns(w, b)
        else: a, b = self.sgn(w, a), self.sgn(w, b)
        d = add(a, b, -1)
        lo, hi = self.interval(d)
        t = pred[-2:]
        def dec(d):
            lo, hi = self.interval(d)
            if t == 'lt': return 1 if hi < 0 else 0 if lo >= 0 else None
            if t == 'le': return 1 if hi <= 0 else 0 if lo > 0 else None
            if t == 'gt': return 1 if lo > 0 else 0 if hi <= 0 else None
            if t == 'ge': return 1 if lo >= 0 else 0 if hi < 0 else None
            r = 1 if lo == hi == 0 else 0 if lo > 0 or hi < 0 else None
            return r if r is None or pred == 'eq' else 1 - r
        if pred in ('eq', 'ne'): t = pred
        r = dec(d)
        if r is not None: return r
        if pred in ('eq', 'ne'):
            c = self.fork(3)
            self.facts.append((d, 0, 0) if c == 0 else (d, 1, None) if c == 1 else (d, None, -1))
            r = int((c == 0) == (pred == 'eq'))
        else:
            r = self.fork(2)
            f = {('lt', 1): (d, None, -1), ('lt', 0): (d, 0, None), ('le', 1): (d, None, 0), ('le', 0): (d, 1, None),
                 ('gt', 1): (d, 1, None), ('gt', 0): (d, None, 0), ('ge', 1): (d, 0, None), ('ge', 0): (d, None, -1)}[t, r]
            self.facts.append(f)
        p, l, h = self.facts[-1]; p = self.sub(p)
        s, _ = self.lia()
        if s.check() == z3.unsat: raise Infeasible()
        a, b = self.interval(p); self.tight = {}; self.tight[p] = (max(a, l) if l is not None else a, min(b, h) if h is not None else b)
        return r
    def select(self, w, c, a, b):
        if c.__class__ is int: return a if c else b
        return a if self.branch(c) else b
    def load(self, p, n):
        off = self._off(p, n, 'read')
        if off.__class__ is int and p.o.cells.__class__ is list:
            c = p.o.cells[off]
            if n == 1 and c.__class__ is IV: return c
            if c.__class__ is tuple and c[0].__class__ in (IV, XorV):
                if c[1] == 0 and c[2] == n and all(p.o.cells[off + i].__class__ is tuple and p.o.cells[off + i][0] is c[0] and p.o.cells[off + i][1] == i for i in range(n)): return c[0]
                raise Unsupported('partial load of an integer')
            if n > 1 and any(p.o.cells[off + i].__class__ is IV for i in range(n)):
                r = k(0)
                for i in range(n):
                    x = p.o.cells[off + i]
                    r = add(r, self.uns(8, self.iv(8, x)) if x.__class__ is IV else k(x), 1 << (8 * i))
                return r
        return Engine.load(self, p, n)
    def store(self, p, n, v):
        if v.__class__ in (IV, XorV):
            if v.__class__ is XorV and len(v.s) == 1: v = next(iter(v.s))
            if n == 1: return Engine.wr(self, p, [v])
            return Engine.wr(self, p, [(v, i, n) for i in range(n)])
        return Engine.store(self, p, n, v)
    def rd(self, p, n, what='read'):
        cs = Engine.rd(self, p, n, what)
        return cs

def _and(w, a, b):
    if a.__class__ not in (IV, XorV) and b.__class__ not in (IV, XorV): return tm.and_(w, a, b)
    E = CUR
    if a.__class__ is int: a, b = b, a
    if b.__class__ is int and a.__class__ is IV:
        if b == 0: return 0
        if b == (1 << w) - 1: return a
        if b & (b + 1) == 0: return E.modn(E.iv(w, a), b.bit_length())
        # a run of ones: bits lo..hi-1
        lo = (b & -b).bit_length() - 1; hi = b.bit_length()
        if b == (1 << hi) - (1 << lo):
            x = E.modn(E.iv(w, a), hi) if hi < w else E.uns(w, E.iv(w, a))
            return scale(E.floor(x, lo), 1 << lo)
        raise Unsupported('mask %x in %s' % (b, E.where()))
    if b.__class__ is int:
        if b == 0: return 0
        if b == (1 << w) - 1: return a
    # a mask that is 0 or -1 on this path
    for x, y in ((a, b), (b, a)):
        if x.__class__ is IV:
            x = E.sgn(w, E.iv(w, x))
            l, h = E.interval(x)
            if l >= -1 and h <= 0:
                v = E.split(x, l, h) if l != h else l
                return y if v == -1 else 0
    raise Unsupported('and of integers in %s' % E.where())
def _xor(w, a, b):
    if a.__class__ not in (IV, XorV) and b.__class__ not in (IV, XorV): return tm.xor(w, a, b)
    E = CUR
    if a.__class__ is int: a, b = b, a
    if b.__class__ is int:
        if b == 0: return a
        if b == (1 << w) - 1 and a.__class__ is IV: return add(k(-1), E.iv(w, a), -1)
    s = frozenset()
    for x in (a, b):
        s = s ^ (x.s if x.__class__ is XorV else frozenset([E.iv(w, x)]))
    s = s - {k(0)}
    if not s: return 0
    if len(s) == 1: return next(iter(s))
    return XorV(s)
def _or(w, a, b):
    if a.__class__ is not IV and b.__class__ is not IV: return tm.or_(w, a, b)
    E = CUR
    a, b = E.uns(w, E.iv(w, a)), E.uns(w, E.iv(w, b))
    # disjoint bits: one is a multiple of 2^n and the other below 2^n
    for x, y in ((a, b), (b, a)):
        if not x.d: return y
        n = min(((c & -c).bit_length() - 1) for c in x.d.values())
        l, h = E.interval(y)
        if l >= 0 and h < 1 << n: return add(x, y)
    raise Unsupported('or of integers in %s' % E.where())
def _ext(x, w, lo, hi):
    if x.__class__ is not IV: return tm.ext(x, w, lo, hi)
    if lo: x = CUR.floor(CUR.uns(w, CUR.sub(x)), lo)
    return x
def _zext(w, n, x):
    if x.__class__ is not IV: return tm.zext(w, n, x)
    return CUR.uns(w, CUR.sub(x))
def _sext(w, n, x):
    if x.__class__ is not IV: return tm.sext(w, n, x)
    return CUR.sgn(w, CUR.sub(x))
def _eq(w, a, b):
    if a.__class__ is not IV and b.__class__ is not IV: return tm.eq(w, a, b)
    return CUR.icmp('eq', w, a, b)
IntEngine.opns = dict(and_=_and, xor=_xor, or_=_or, ext=_ext, zext=_zext, sext=_sext, eq=_eq)
