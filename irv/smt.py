"""z3 back end: conversion of terms, path feasibility, equivalence by sweeping."""
import random
import z3
import term as tm
from term import T
from engine import children, Unsupported

class Conv:
    def __init__(self):
        self.c = {}
        self.names = {}
    def get(self, t, w):
        if t.__class__ is int:
            return z3.BitVecVal(t, w)
        r = self.c.get(t)
        if r is not None: return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.c: stack.pop(); continue
            ch = () if x.op == 'app' else children(x)
            todo = [y for y in ch if y not in self.c]
            if todo: stack.extend(todo); continue
            stack.pop()
            self.c[x] = self.build(x)
        return self.c[t]
    def build(self, x):
        op, w, a = x.op, x.w, x.a
        g = lambda v, ww: z3.BitVecVal(v, ww) if v.__class__ is int else self.c[v]
        B = lambda c: z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == 'var':
            v = z3.BitVec(a[0], w); self.names[a[0]] = (v, x); return v
        if op == 'app':
            n = 'app!%d' % x.id
            v = z3.BitVec(n, w); self.names[n] = (v, x); return v
        if op == 'add':
            r = z3.BitVecVal(a[0], w)
            for t, k in a[1]:
                r = r + (self.c[t] if k == 1 else self.c[t] * z3.BitVecVal(k, w))
            return r
        if op in ('xor', 'and', 'or'):
            r = None
            for t in a[1]:
                r = self.c[t] if r is None else (r ^ self.c[t] if op == 'xor' else r & self.c[t] if op == 'and' else r | self.c[t])
            ident = (1 << w) - 1 if op == 'and' else 0
            if a[0] != ident:
                k = z3.BitVecVal(a[0], w)
                r = r ^ k if op == 'xor' else r & k if op == 'and' else r | k
            return r
        if op == 'concat': return z3.Concat(*[g(v, pw) for pw, v in a])
        if op == 'ext': return z3.Extract(a[2] - 1, a[1], self.c[a[0]])
        if op == 'sext': return z3.SignExt(w - a[0].w, self.c[a[0]])
        if op == 'rotl': return z3.RotateLeft(self.c[a[0]], a[1])
        if op == 'ite': return z3.If(g(a[0], 1) == 1, g(a[1], w), g(a[2], w))
        if op == 'eq':
            ww = a[0].w
            return B(g(a[0], ww) == g(a[1], ww))
        if op == 'ult': return B(z3.ULT(g(a[1], a[0]), g(a[2], a[0])))
        if op == 'slt': return B(g(a[1], a[0]) < g(a[2], a[0]))
        x1, x2 = g(a[0], w), g(a[1], w)
        if op == 'mul': return x1 * x2
        if op == 'udiv': return z3.UDiv(x1, x2)
        if op == 'urem': return z3.URem(x1, x2)
        if op == 'sdiv': return x1 / x2
        if op == 'srem': return z3.SRem(x1, x2)
        if op == 'shl': return x1 << x2
        if op == 'lshr': return z3.LShR(x1, x2)
        if op == 'ashr': return x1 >> x2
        raise Unsupported('z3 ' + op)
    def model(self, m):
        out = {}
        for n, (v, x) in self.names.items():
            val = m[v]
            if val is not None:
                out[n if x.op == 'var' else tm.show(x)] = val.as_long()
        return out

class PathSolver:
    def __init__(self, timeout):
        self.cv = Conv()
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
    def add(self, c):
        if c.__class__ is int:
            if not c: self.s.add(z3.BoolVal(False))
            return
        self.s.add(self.cv.get(c, 1) == 1)
    def check(self, c):
        if c.__class__ is int:
            if not c: return False
            r = self.s.check()
        else:
            r = self.s.check(self.cv.get(c, 1) == 1)
        return True if r == z3.sat else False if r == z3.unsat else None
    def check_model(self, c):
        r = self.check(c)
        if r: return True, self.cv.model(self.s.model())
        return r, None
    def unique(self, t):
        e = self.cv.get(t, t.w)
        if self.s.check() != z3.sat: return None
        v = self.s.model().eval(e, model_completion=True).as_long()
        if self.s.check(e != v) == z3.unsat: return v
        return None

# ---- concrete evaluation (simulation) --------------------------------------
def evaluate(t, env, memo, rnd):
    """evaluate with random values for leaves; apps hash their evaluated args"""
    if t.__class__ is int: return t
    if t in memo: return memo[t]
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo: stack.pop(); continue
        ch = children(x)
        todo = [y for y in ch if y not in memo]
        if todo: stack.extend(todo); continue
        stack.pop()
        memo[x] = _ev(x, env, memo, rnd)
    return memo[t]

def _hashapp(x, memo, w, rnd):
    import hashlib
    def ser(y):
        if y.__class__ is T: return memo[y]
        if y.__class__ is tuple: return tuple(ser(z) for z in y)
        return y
    h = hashlib.shake_128(repr((x.a[0], w, tuple(ser(y) for y in x.a[1:]))).encode()).digest((w + 7) // 8)
    return int.from_bytes(h, 'little') & ((1 << w) - 1)

def _ev(x, env, memo, rnd):
    op, w, a = x.op, x.w, x.a
    M = (1 << w) - 1
    g = lambda v: v if v.__class__ is int else memo[v]
    if op == 'var':
        if x in env: return env[x]
        v = rnd.getrandbits(w); env[x] = v; return v
    if op == 'app': return _hashapp(x, memo, w, rnd)
    if op == 'add': return (a[0] + sum(memo[t] * k for t, k in a[1])) & M
    if op == 'xor':
        r = a[0]
        for t in a[1]: r ^= memo[t]
        return r
    if op == 'and':
        r = a[0]
        for t in a[1]: r &= memo[t]
        return r
    if op == 'or':
        r = a[0]
        for t in a[1]: r |= memo[t]
        return r
    if op == 'concat':
        r = 0
        for pw, v in a: r = (r << pw) | g(v)
        return r
    if op == 'ext': return (memo[a[0]] >> a[1]) & M
    if op == 'sext': return tm.sx(a[0].w, memo[a[0]]) & M
    if op == 'rotl': return tm.rotl(w, memo[a[0]], a[1])
    if op == 'ite': return g(a[1]) if g(a[0]) else g(a[2])
    if op == 'eq': return int(g(a[0]) == g(a[1]))
    if op == 'ult': return int(g(a[1]) < g(a[2]))
    if op == 'slt': return int(tm.sx(a[0], g(a[1])) < tm.sx(a[0], g(a[2])))
    x1, x2 = g(a[0]), g(a[1])
    if op == 'mul': return (x1 * x2) & M
    if op == 'udiv': return x1 // x2 if x2 else M
    if op == 'urem': return x1 % x2 if x2 else x1
    if op == 'shl': return (x1 << x2) & M if x2 < w else 0
    if op == 'lshr': return x1 >> x2 if x2 < w else 0
    if op == 'ashr': return (tm.sx(w, x1) >> min(x2, w - 1)) & M
    if op in ('sdiv', 'srem'):
        if x2 == 0: return 0
        return (tm.sdiv if op == 'sdiv' else tm.srem)(w, x1, x2)
    raise Unsupported('eval ' + op)

_merged = {}

def equiv(w, a, b, pc, timeout):
    """-> (True,None) proved | (False,model) refuted | (None,None)"""
    if a is b: return True, None
    # 1. structural sweep: same-op app nodes with pairwise-equivalent arguments
    env_subst = {}
    r = _sweep(w, a, b, pc, timeout, env_subst)
    return r

def _apps(t, seen, out):
    stack = [t]
    while stack:
        x = stack.pop()
        if x.__class__ is not T or x in seen: continue
        seen.add(x)
        if x.op == 'app': out.append(x)
        stack.extend(children(x))

def _nodes(ts):
    seen = set(); order = []
    stack = [(t, 0) for t in ts if t.__class__ is T]
    while stack:
        x, st = stack.pop()
        if st: order.append(x); continue
        if x in seen: continue
        seen.add(x); stack.append((x, 1))
        for c in children(x):
            if c not in seen: stack.append((c, 0))
    return order

def _sweep(w, a, b, pc, timeout, sub):
    import engine
    rnd = random.Random(12345)
    # simulate: quick refutation (only without path condition) and candidate classes
    sims = []
    for k in range(3):
        env = {}; memo = {}
        evaluate(a, env, memo, rnd) if a.__class__ is T else None
        evaluate(b, env, memo, rnd) if b.__class__ is T else None
        sims.append(memo)
    order = _nodes([a, b])
    cls = {}
    rep = {}       # T -> T representative
    cache = {}
    solver_calls = 0
    if len(order) < 60000:
        for x in order:
            if x.op in ('var',): continue
            if x.op == 'app' or x.w >= 8:
                sig = (x.w,) + tuple(m[x] for m in sims)
                y = cls.get(sig)
                if y is None:
                    cls[sig] = x; continue
                if y is x: continue
                # try to prove x == y after substitution of already merged nodes
                xs = engine.subst(x, rep, cache); ys = engine.subst(y, rep, cache)
                ok = xs is ys
                if not ok and solver_calls < 400:
                    if xs.__class__ is T and ys.__class__ is T and xs.op == 'app' and ys.op == 'app':
                        ok = xs is ys
                    else:
                        solver_calls += 1
                        s = z3.Solver(); s.set('timeout', min(timeout, 3000))
                        cv = Conv()
                        s.add(cv.get(xs, x.w) != cv.get(ys, x.w))
                        ok = s.check() == z3.unsat
                if ok:
                    rep[x] = y; cache = {}
    xa = engine.subst(a, rep, {}) if a.__class__ is T else a
    xb = engine.subst(b, rep, {}) if b.__class__ is T else b
    if xa is xb: return True, None
    e = tm.eq(w, xa, xb)
    if e.__class__ is int and e: return True, None
    s = z3.Solver(); s.set('timeout', timeout)
    cv = Conv()
    ne = tm.ne(w, xa, xb)
    if len(pc) > 8 and ne.__class__ is T and sliced_unsat(pc, ne, timeout): return True, None
    for c in pc:
        s.add(cv.get(c, 1) == 1)
    s.add(cv.get(xa, w) != cv.get(xb, w))
    r = s.check()
    if r == z3.unsat: return True, None
    if r == z3.sat: return False, cv.model(s.model())
    # simulation difference refutes only when there is no path condition
    if not pc:
        for m in sims:
            va = m[a] if a.__class__ is T else a
            vb = m[b] if b.__class__ is T else b
            if va != vb:
                return False, {x.a[0]: m[x] for x in order if x.op == 'var'}
    return None, None


# ---- slicing ----------------------------------------------------------------
_lv = {}
def leaves(t):
    r = _lv.get(t)
    if r is not None: return r
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ('var', 'app'): out.add(x)      # an application is a leaf for the solver
        else: st.extend(children(x))
    r = frozenset(out)
    if len(_lv) > 200000: _lv.clear()
    _lv[t] = r
    return r

_idx = (None, 0, {})      # (pc list, conditions indexed, leaf -> positions)
def slice_pc(pc, c):
    """conditions of pc transitively sharing leaves with c, in order"""
    global _idx
    l, n, ix = _idx
    if l is not pc or n > len(pc): l, n, ix = pc, 0, {}
    for i in range(n, len(pc)):
        for v in leaves(pc[i]): ix.setdefault(v, []).append(i)
    _idx = (pc, len(pc), ix)
    st = list(leaves(c)) if c.__class__ is T else []
    seen = set(st); take = set()
    while st:
        v = st.pop()
        for i in ix.get(v, ()):
            if i not in take:
                take.add(i)
                for u in leaves(pc[i]):
                    if u not in seen: seen.add(u); st.append(u)
    return [pc[i] for i in sorted(take)]

def canon_key(ts):
    """structure of the terms with leaves numbered in order of appearance"""
    num = {}; leaf = {}; out = []
    for t in ts:
        st = [t]
        while st:
            x = st[-1]
            if x in num: st.pop(); continue
            ch = () if x.op in ('var', 'app') else children(x)
            todo = [y for y in ch if y not in num]
            if todo: st.append(todo[0]); continue
            st.pop()
            if x.op in ('var', 'app'):
                k = ('L', x.w, len(leaf)); leaf[x] = k
            else:
                def m(v):
                    if v.__class__ is T: return ('n', num[v])
                    if v.__class__ is tuple: return tuple(m(z) for z in v)
                    return v
                k = (x.op, x.w, m(x.a))
            num[x] = len(out); out.append(k)
        out.append(('root', num[t]))
    return tuple(out)

_verdict = {}
def sliced_check(pc, c, timeout):
    """satisfiability of c with the conditions connected to it: True / False / None (unknown)"""
    if c.__class__ is int: return bool(c)
    sl = slice_pc(pc, c)
    if len(sl) > 400 or 2 * len(sl) > len(pc): return 'no'      # nothing gained over the incremental solver
    key = canon_key([c] + sl)
    r = _verdict.get(key)
    if r is not None: return r
    s = z3.Solver(); s.set('timeout', timeout)
    cv = Conv()
    for x in sl: s.add(cv.get(x, 1) == 1)
    s.add(cv.get(c, 1) == 1)
    q = s.check()
    r = True if q == z3.sat else False if q == z3.unsat else None
    if r is not None and len(_verdict) < 20000: _verdict[key] = r
    return r

def sliced_unsat(pc, c, timeout):
    return sliced_check(pc, c, timeout) is False
