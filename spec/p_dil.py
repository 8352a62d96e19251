"""C11: Dilithium scalar arithmetic and rounding, lifted to polynomials."""
import term as tm
from term import T
from engine import *
from run import Task
from hybrid import inputs, outbuf

P = 'PQCLEAN_DILITHIUM2_CLEAN_'
Q = 8380417
QINV = 58728449
D = 13
G1 = 1 << 17
G2 = (Q - 1) // 88
ALPHA = 2 * G2
BETA = 78
OMEGA = 80
N = 256
def s32(v): return v & 0xffffffff
def s64(v): return v & ((1 << 64) - 1)

def between(w, lo, x, hi):
    """lo <= x <= hi (signed)"""
    M = (1 << w) - 1
    return tm.and_(1, tm.sle(w, lo & M, x), tm.sle(w, x, hi & M))

def rvar(E, name, lo, hi, w=32):
    v = tm.var(name, w)
    E.assume(between(w, lo, v, hi))
    tm.SR[v] = (lo, hi)
    return v

def mod_eq(E, r, a, label):
    """r = a (mod q) for 32-bit signed r, a"""
    d = tm.sub(64, tm.sext(32, 64, a), tm.sext(32, 64, r))
    E.post(tm.eq(64, tm.srem(64, d, Q), 0), label)

# ---- scalar contracts ------------------------------------------------------------------------
def t_mont(E):
    a = rvar(E, 'a', -(Q << 31), (Q << 31) - 1, 64)
    r = E.run(P + 'montgomery_reduce', (a,))
    E.post(between(32, -Q + 1, r, Q - 1), 'montgomery_reduce: result in (-q, q)')
    # r*2^32 = a - k*q  forces k = a/q (mod 2^32); with the ranges above k is one of three values
    k = tm.sext(32, 64, tm.ext(tm.mul(64, a, QINV), 64, 0, 32))
    d = tm.sub(64, a, times32(r))
    ok = 0
    for o in (0, 1 << 32, -(1 << 32)):
        ok = tm.or_(1, ok, tm.eq(64, d, tm.mul(64, tm.add(64, k, s64(o)), Q)))
    E.post(ok, 'montgomery_reduce: 2^32 r = a (mod q)')
    E.cover('done')

def lowbits(t, n):
    """low n bits, distributed over ring operations (sound rewriting)"""
    if t.__class__ is int: return t & ((1 << n) - 1)
    if t.op == 'add':
        r = t.a[0] & ((1 << n) - 1)
        for x, k in t.a[1]: r = tm.add(n, r, tm.mul(n, lowbits(x, n), k & ((1 << n) - 1)))
        return r
    if t.op == 'mul': return tm.mul(n, lowbits(t.a[0], n), lowbits(t.a[1], n))
    if t.op == 'ext' and t.a[1] == 0 and n <= t.w: return lowbits(t.a[0], n)
    if t.op == 'sext' and n <= t.a[0].w: return lowbits(t.a[0], n)
    return tm.ext(t, t.w, 0, n)

def times32(r):
    """2^32 * r; when r is the high half of a term whose low half is identically zero, that term itself"""
    if r.__class__ is T and r.op == 'ext' and r.a[1] == 32 and r.a[2] == 64 and r.a[0].w == 64 and lowbits(r.a[0], 32) == 0: return r.a[0]
    return tm.shl(64, tm.sext(32, 64, r), 32)

def t_reduce32(E):
    a = rvar(E, 'a', -(1 << 31), (1 << 31) - (1 << 22) - 1)
    r = E.run(P + 'reduce32', (a,))
    E.post(between(32, -6283009, r, 6283008), 'reduce32: result in the documented range')
    mod_eq(E, r, a, 'reduce32: result = a (mod q)')
    E.cover('done')

def t_caddq(E):
    a = rvar(E, 'a', -Q + 1, Q - 1)
    r = E.run(P + 'caddq', (a,))
    E.post(between(32, 0, r, Q - 1), 'caddq: result in [0, q)')
    E.same(32, r, tm.ite(32, tm.slt(32, a, 0), tm.add(32, a, Q), a), 'caddq: adds q exactly to negative values')
    E.cover('done')

def t_caddq_any(E):
    a = tm.var('a', 32)
    r = E.run(P + 'caddq', (a,))
    E.same(32, r, tm.ite(32, tm.slt(32, a, 0), tm.add(32, a, Q), a), 'caddq: adds q exactly to negative values')
    E.cover('done')

def t_freeze(E):
    a = rvar(E, 'a', -(1 << 31), (1 << 31) - (1 << 22) - 1)
    r = E.run(P + 'freeze', (a,))
    E.post(between(32, 0, r, Q - 1), 'freeze: result in [0, q)')
    mod_eq(E, r, a, 'freeze: result = a (mod q)')
    E.cover('done')

def t_power2round(E):
    # key generation passes A s1 + s2 after one conditional addition of q, which may lie slightly outside [0, q)
    a = rvar(E, 'a', -4095, 8384512); o = outbuf(E, 'a0', 4)
    r = E.run(P + 'power2round', (Ptr(o, 0), a))
    a0 = E.load(Ptr(o, 0), 4)
    E.post(between(32, -(1 << (D - 1)) + 1, a0, 1 << (D - 1)), 'power2round: low part in (-2^(d-1), 2^(d-1)]')
    E.post(between(32, 0, r, 1023), 'power2round: high part fits 10 bits')
    E.same(32, tm.add(32, tm.mul(32, r, 1 << D), a0), a, 'power2round: a = a1 2^d + a0')
    E.cover('done')

def dec_ok(a, a1, a0):
    """Decompose(a) = (a1, a0) (the unique pair), a in [0,q)"""
    nrm = tm.and_(1, between(32, 0, a1, 43), tm.and_(1, between(32, -G2 + 1, a0, G2), tm.eq(32, tm.add(32, tm.mul(32, a1, ALPHA), a0), a)))
    top = tm.and_(1, tm.eq(32, a1, 0), tm.and_(1, between(32, -G2, a0, -1), tm.eq(32, tm.add(32, a0, Q), a)))
    # the wrapped case belongs exactly to a > q-1-gamma2
    big = tm.slt(32, Q - 1 - G2, a)
    return tm.ite(1, big, top, nrm)

def t_decompose(E):
    a = rvar(E, 'a', 0, Q - 1); o = outbuf(E, 'a0', 4)
    a1 = E.run(P + 'decompose', (Ptr(o, 0), a))
    E.post(dec_ok(a, a1, E.load(Ptr(o, 0), 4)), 'decompose: a = a1 alpha + a0 with the specified ranges and wrap-around case')
    E.cover('done')

def t_make_hint(E):
    a0 = tm.var('a0', 32); a1 = tm.var('a1', 32)
    r = E.run(P + 'make_hint', (a0, a1))
    inside = tm.or_(1, between(32, -G2 + 1, a0, G2), tm.and_(1, tm.eq(32, a0, s32(-G2)), tm.eq(32, a1, 0)))
    E.same(32, r, tm.ite(32, inside, 0, 1), 'make_hint: 0 exactly when the low part does not overflow')
    E.cover('done')

def t_use_hint(E):
    a = rvar(E, 'a', 0, Q - 1); h = tm.var('hint', 32)
    E.assume(tm.ule(32, h, 1))
    o = outbuf(E, 'a0', 4)
    a1 = E.run(P + 'decompose', (Ptr(o, 0), a)); a0 = E.load(Ptr(o, 0), 4)
    r = E.run(P + 'use_hint', (a, h))
    up = tm.ite(32, tm.eq(32, a1, 43), 0, tm.add(32, a1, 1)); dn = tm.ite(32, tm.eq(32, a1, 0), 43, tm.add(32, a1, s32(-1)))
    E.same(32, r, tm.ite(32, tm.eq(32, h, 0), a1, tm.ite(32, tm.slt(32, 0, a0), up, dn)), 'use_hint: high bits moved by one step in the direction of the low part, modulo 44, exactly when hinted')
    E.cover('done')

def t_hint_lemma(E, w1):
    """the hint made from (low part z, high part w1) recovers w1 from w1*alpha + z mod q, for every |z| the signer can produce"""
    z = rvar(E, 'z', -(2 * G2 - BETA - 1), 2 * G2 - BETA - 1)
    # decompose never returns low part -gamma2 with a non-zero high part, nor a high part above 43
    h = E.run(P + 'make_hint', (z, w1))
    v = tm.add(32, w1 * ALPHA, z)
    v = tm.ite(32, tm.slt(32, v, 0), tm.add(32, v, Q), tm.ite(32, tm.sle(32, Q, v), tm.sub(32, v, Q), v))
    r = E.run(P + 'use_hint', (v, h))
    E.same(32, r, w1, 'use_hint(w1 alpha + z, make_hint(z, w1)) = w1')
    E.cover('done')

# ---- polynomial level: each coefficient through the scalar contract -----------------------------------
def poly(E, name, lo, hi, ro=False):
    o = E.obj(name, 4 * N, 'undef', 'arg')
    vs = []
    for i in range(N):
        v = rvar(E, '%s[%d]' % (name, i), lo, hi)
        vs.append(v); E.store(Ptr(o, 4 * i), 4, v)
    o.ro = ro
    return o, vs

def polyout(E, name):
    return E.obj(name, 4 * N, 'undef', 'arg')

def coeffs(E, o): return [E.load(Ptr(o, 4 * i), 4) for i in range(N)]

RED = (-6283009, 6283008)
EQ = 'each coefficient is the scalar operation applied to the corresponding coefficients'

def scalar(E, name, *a):
    """the scalar operation's own body applied to the same arguments (its contract is proved separately)"""
    return E.run(P + name, a)

def elementwise(fname, ranges, spec, outs, alias=None):
    """ranges: (lo,hi) per input polynomial; outs: order of arguments as list of ('out',k)|('in',k); alias: map out k -> in k"""
    def t(E):
        ins = []
        for k, (lo, hi) in enumerate(ranges):
            ins.append(poly(E, 'p%d' % k, lo, hi, ro=True))
        args = []; outobj = {}
        for kind, k in outs:
            if kind == 'in': args.append(Ptr(ins[k][0], 0)); continue
            if alias and k in alias:
                o = ins[alias[k]][0]; o.ro = False
            else: o = polyout(E, 'out%d' % k)
            outobj[k] = o; args.append(Ptr(o, 0))
        r = E.run(P + fname, tuple(args))
        got = {k: coeffs(E, o) for k, o in outobj.items()}
        for i in range(N):
            want = spec(E, *[vs[i] for _, vs in ins])
            if not isinstance(want, tuple): want = (want,)
            for k in got: E.same(32, got[k][i], want[k], '%s: %s' % (fname, EQ), 'coefficient %d' % i)
        E.cover('done')
    return t

def sp_round(name):
    def f(E, a):
        o = E.obj('lo', 4); h = scalar(E, name, Ptr(o, 0), a)
        return h, E.load(Ptr(o, 0), 4)
    return f

ANY = (-(1 << 30), (1 << 30) - 1)
MULR = (-9 * Q, 9 * Q)           # NTT output range times a reduced operand stays below 2^31 q
STD = (0, Q - 1)

def sp_mont(E, a, b): return scalar(E, 'montgomery_reduce', tm.mul(64, tm.sext(32, 64, a), tm.sext(32, 64, b)))

POLYOPS = [
    ('poly_reduce', [(-(1 << 31), (1 << 31) - (1 << 22) - 1)], lambda E, a: scalar(E, 'reduce32', a), [('out', 0)], [{0: 0}]),
    ('poly_caddq', [(-(1 << 31), (1 << 31) - 1)], lambda E, a: scalar(E, 'caddq', a), [('out', 0)], [{0: 0}]),
    ('poly_add', [ANY, ANY], lambda E, a, b: tm.add(32, a, b), [('out', 0), ('in', 0), ('in', 1)], [None, {0: 0}, {0: 1}]),
    ('poly_sub', [ANY, ANY], lambda E, a, b: tm.sub(32, a, b), [('out', 0), ('in', 0), ('in', 1)], [None, {0: 0}, {0: 1}]),
    ('poly_shiftl', [(-(1 << 18) + 1, (1 << 18) - 1)], lambda E, a: tm.mul(32, a, 1 << D), [('out', 0)], [{0: 0}]),
    ('poly_pointwise_montgomery', [MULR, (-9 * Q, 9 * Q)], sp_mont, [('out', 0), ('in', 0), ('in', 1)], [None, {0: 0}, {0: 1}]),
    ('poly_power2round', [(-4095, 8384512)], sp_round('power2round'), [('out', 0), ('out', 1), ('in', 0)], [None, {0: 0}]),
    ('poly_decompose', [STD], sp_round('decompose'), [('out', 0), ('out', 1), ('in', 0)], [None, {0: 0}]),
]

def t_chknorm(E, B):
    o, vs = poly(E, 'a', *RED, ro=True)
    r = E.run(P + 'poly_chknorm', (Ptr(o, 0), B))
    if r.__class__ is int and r == 0:
        for v in vs: E.post(between2(v, B), 'poly_chknorm: accepts only when every coefficient is below the bound')
        E.cover('accept'); return
    import smt
    big = 0
    for v in reversed(vs):
        if r.__class__ is int and r == 1 and smt.sliced_unsat(E.pc, between2(v, B), E.timeout): E.stats.post += 1; E.cover('reject'); return
    for v in vs: big = tm.or_(1, big, tm.not_(1, between2(v, B)))
    E.same(32, r, tm.zext(1, 32, big), 'poly_chknorm: 1 exactly when some coefficient is at or above the bound in absolute value')
    E.cover('accept' if r.__class__ is int and r == 0 else 'reject')

def t_chknorm_any(E, k):
    """arbitrary bound, one arbitrary coefficient"""
    B = rvar(E, 'B', 1, (Q - 1) // 8)
    o = E.obj('a', 4 * N, 'zero', 'arg'); v = rvar(E, 'v', *RED)
    E.store(Ptr(o, 4 * k), 4, v); o.ro = True
    r = E.run(P + 'poly_chknorm', (Ptr(o, 0), B))
    E.same(32, r, tm.ite(32, between2(v, B), 0, 1), 'poly_chknorm: 1 exactly when some coefficient is at or above the bound in absolute value')
    E.cover('done')

def between2(v, B):
    return tm.and_(1, tm.slt(32, tm.neg(32, B), v), tm.slt(32, v, B))

def t_chknorm_big(E):
    B = rvar(E, 'B', (Q - 1) // 8 + 1, (1 << 31) - 1)
    o, vs = poly(E, 'a', *RED, ro=True)
    r = E.run(P + 'poly_chknorm', (Ptr(o, 0), B))
    E.same(32, r, 1, 'poly_chknorm: bounds above (q-1)/8 are refused')
    E.cover('done')

def hint_contracts():
    """make_hint / use_hint through their contracts (the value is a function of the two arguments; proved above)"""
    return {P + 'make_hint': lambda E, a, b: tm.zext(1, 32, tm.app('make_hint', 1, (a, b))), P + 'use_hint': lambda E, a, h: tm.app('use_hint', 32, (a, h))}

def t_poly_hint(E, which, pos=None):
    C = hint_contracts() if pos is None else None
    if pos is None:
        a, av = poly(E, 'a', *(STD if which == 'use' else (-2 * G2, 2 * G2)), ro=True)
        b, bv = poly(E, 'b', *((0, 1) if which == 'use' else (0, 43)), ro=True)
    else:
        E.contracts = {}
        import random
        rnd = random.Random(pos)
        a = E.obj('a', 4 * N); b = E.obj('b', 4 * N); av = []; bv = []
        for i in range(N):
            if i == pos:
                x = rvar(E, 'x', *(STD if which == 'use' else (-2 * G2, 2 * G2))); y = rvar(E, 'y', *((0, 1) if which == 'use' else (0, 43)))
            elif which == 'use': x, y = rnd.randrange(Q), rnd.randrange(2)
            else: x, y = s32(rnd.choice((-G2, G2, G2 + 1, -G2 - 1, 0, rnd.randrange(-2 * G2, 2 * G2)))), rnd.choice((0, 1, 43))
            E.store(Ptr(a, 4 * i), 4, x); E.store(Ptr(b, 4 * i), 4, y); av.append(x); bv.append(y)
        a.ro = b.ro = True
    o = polyout(E, 'out')
    if pos is None and which == 'use': o = a; a.ro = False       # in place, as the verifier does
    r = E.run(P + 'poly_%s_hint' % which, (Ptr(o, 0), Ptr(a, 0), Ptr(b, 0)))
    got = coeffs(E, o); tot = 0
    for i in range(N):
        want = E.call(P + which + '_hint', (av[i], bv[i]))
        E.same(32, got[i], want, 'poly_%s_hint: %s' % (which, EQ), 'coefficient %d' % i)
        tot = tm.add(32, tot, want)
    if which == 'make': E.same(32, r, tot, 'poly_make_hint: returns the number of hints')
    E.cover('done')

def poly_tasks():
    ts = [Task('poly_%s_hint' % w, P + 'poly_%s_hint' % w, t_poly_hint, hint_contracts(), args=(w,), need_cover=('done',), budget=30, fallback=[(w, k) for k in range(0, N, 5)] + [(w, N - 1)]) for w in ('make', 'use')]
    for name, rg, spec, outs, als in POLYOPS:
        for al in als:
            ts.append(Task('%s%s' % (name, '[in place %s]' % al if al else ''), P + name, elementwise(name, rg, spec, outs, al), need_cover=('done',), weight=3))
    return ts + [*[Task('poly_chknorm[%d]' % B, P + 'poly_chknorm', t_chknorm, args=(B,), need_cover=('accept', 'reject'), weight=9, budget=60) for B in (G1 - BETA, G2 - BETA, G2, (Q - 1) // 8)], *[Task('poly_chknorm[any bound, coefficient %d]' % k, P + 'poly_chknorm', t_chknorm_any, args=(k,), need_cover=('done',)) for k in (0, 1, 2, 127, 128, 254, 255)], Task('poly_chknorm[large bound]', P + 'poly_chknorm', t_chknorm_big, need_cover=('done',))]

def scalar_tasks():
    ts = [Task(n, P + n, f, need_cover=('done',), timeout=200000, budget=600, weight=5) for n, f in
          (('montgomery_reduce', t_mont), ('caddq', t_caddq_any), ('reduce32', t_reduce32), ('caddq', t_caddq), ('freeze', t_freeze), ('power2round', t_power2round),
           ('decompose', t_decompose), ('make_hint', t_make_hint), ('use_hint', t_use_hint))]
    ts += [Task('hint lemma[w1=%d]' % w, P + 'use_hint', t_hint_lemma, args=(w,), need_cover=('done',), timeout=200000) for w in range(44)]
    return ts
