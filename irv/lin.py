"""Path solver for address/length arithmetic: exact translation of machine arithmetic to linear integer arithmetic (every wrap-around is an explicit
integer multiple of 2^w).  Anything not expressible is left out, so only `unsat` answers are used then; otherwise z3 bit-vectors decide."""
import z3
import term as tm
from term import T
import smt

class NotLin(Exception): pass

class LinSolver(smt.PathSolver):
    def __init__(self, timeout):
        smt.PathSolver.__init__(self, timeout)
        self.l = z3.SolverFor('QF_LIA'); self.l.set('timeout', min(timeout, 10000))
        self.iv = {}; self.n = 0
        self.dropped = False
    def fresh(self, hi):
        self.n += 1
        v = z3.Int('i!%d' % self.n)
        self.l.add(v >= 0, v <= hi)
        return v
    def any(self):
        self.n += 1
        return z3.Int('w!%d' % self.n)
    def val(self, t):
        """Int expression equal to the unsigned value of t"""
        if t.__class__ is int: return z3.IntVal(t)
        r = self.iv.get(t)
        if r is None:
            r = self._val(t); self.iv[t] = r
        return r
    def _val(self, t):
        op, w, a = t.op, t.w, t.a
        N = 1 << w
        if op in ('var', 'app'): return self.fresh(min(N - 1, t.hi))
        if op == 'add':
            e = z3.IntVal(tm.sx(w, a[0]))
            for x, k in a[1]: e = e + self.val(x) * tm.sx(w, k)
            v = self.fresh(N - 1); q = self.any()
            self.l.add(v == e - N * q)
            return v
        if op == 'concat':
            e = z3.IntVal(0)
            for pw, x in a: e = e * (1 << pw) + self.val(x)
            return e
        if op == 'ext' and a[0].w > 128:          # a byte of a wide value: any number (weaker)
            self.dropped = True
            return self.fresh(N - 1)
        if op == 'ext':
            x = self.val(a[0]); lo, hi = a[1], a[2]
            m = self.fresh((1 << (hi - lo)) - 1); l = self.fresh((1 << lo) - 1); h = self.fresh((1 << (a[0].w - hi)) - 1)
            self.l.add(x == h * (1 << hi) + m * (1 << lo) + l)
            return m
        if op == 'ite':
            return z3.If(self.cond(a[0]), self.val(a[1]), self.val(a[2]))
        if op in ('udiv', 'urem') and a[1].__class__ is int:
            x = self.val(a[0]); q = self.fresh(N - 1); r = self.fresh(a[1] - 1)
            self.l.add(x == q * a[1] + r)
            return q if op == 'udiv' else r
        if op == 'sext':
            x = self.val(a[0]); iw = a[0].w
            return z3.If(x >= (1 << (iw - 1)), x + (N - (1 << iw)), x)
        if w == 1:
            return z3.If(self.cond(t), z3.IntVal(1), z3.IntVal(0))
        raise NotLin(op)
    def cond(self, c):
        if c.__class__ is int: return z3.BoolVal(bool(c))
        op, a = c.op, c.a
        if op == 'eq': return self.val(a[0]) == self.val(a[1])
        if op == 'ult': return self.val(a[1]) < self.val(a[2])
        if op == 'slt':
            H = 1 << (a[0] - 1)
            s = lambda t: (lambda v: z3.If(v >= H, v - 2 * H, v))(self.val(t)) if t.__class__ is T else z3.IntVal(tm.sx(a[0], t))
            return s(a[1]) < s(a[2])
        if op == 'xor' and c.w == 1:
            r = z3.BoolVal(bool(a[0]))
            for x in a[1]: r = z3.Xor(r, self.cond(x))
            return r
        if op == 'and': return z3.And(*[self.cond(x) for x in a[1]])
        if op == 'or': return z3.Or(*[self.cond(x) for x in a[1]])
        if c.w == 1 and op in ('var', 'app', 'ext', 'ite'): return self.val(c) == 1
        raise NotLin(op)
    def add(self, c):
        smt.PathSolver.add(self, c)
        if c.__class__ is int:
            if not c: self.l.add(z3.BoolVal(False))
            return
        try: self.l.add(self.cond(c))
        except NotLin: self.dropped = True
    def check(self, c):
        try:
            e = self.cond(c)
            r = self.l.check(e)
            if r == z3.unsat: return False
            if r == z3.sat and not self.dropped: self.last = self.l.model(); return True
        except NotLin: pass
        self.last = None
        return smt.PathSolver.check(self, c)
    def check_model(self, c):
        r = self.check(c)
        if r:
            if self.last is not None:
                return True, {(t.a[0] if t.op == 'var' else tm.show(t)): self.last.eval(v, model_completion=True).as_long() for t, v in self.iv.items() if t.op in ('var', 'app')}
            return True, self.cv.model(self.s.model())
        return r, None
    def unique(self, t):
        try:
            v = self.val(t)
            if self.l.check() == z3.sat:
                x = self.l.model().eval(v, model_completion=True).as_long()
                r = self.l.check(v != x)
                if r == z3.unsat: return x
                if r == z3.sat and not self.dropped: return None
        except NotLin: pass
        return smt.PathSolver.unique(self, t)
