"""Vector lifts of the Dilithium polynomial operations (polyvec.c): component i of the result is the operation on component i, for every component.

Elementwise operations are compared with the real scalar function on the same coefficient; transforms, hints and norm checks enter per polynomial through
their contracts (proved in p_dil / p_ntt)."""
import term as tm
from engine import *
from run import Task
from p_dil import P, Q, N, G2, rvar
from p_ntt import c_mont_uf

def vec(E, name, lo, hi, n=4):
    o = E.obj(name, 1024 * n, 'undef', 'arg')
    vs = [[rvar(E, '%s%d[%d]' % (name, k, i), lo, hi) for i in range(N)] for k in range(n)]
    for k in range(n):
        for i in range(N): E.store(Ptr(o, 1024 * k + 4 * i), 4, vs[k][i])
    return o, vs
def get(E, o, k, i): return E.load(Ptr(o, 1024 * k + 4 * i), 4)
def chk(E, o, fn, want, what=''):
    for k in range(4):
        for i in range(N): E.same(32, get(E, o, k, i), want(k, i), '%s: component of the result%s' % (fn, what), 'polynomial %d coefficient %d' % (k, i))

def t_map(E, fn, scalar, lo, hi):
    """in place: every coefficient replaced by scalar(coefficient)"""
    o, v = vec(E, 'v', lo, hi)
    E.run(P + fn, (Ptr(o, 0),))
    chk(E, o, fn, lambda k, i: scalar(E, v[k][i])); E.cover('done')
def t_bin(E, fn, op, alias):
    a, u = vec(E, 'u', -(1 << 30) + 1, (1 << 30) - 1); b, v = vec(E, 'v', -(1 << 30) + 1, (1 << 30) - 1)
    r = (E.obj('w', 4096, 'undef', 'arg'), a, b)[alias]
    for x in (a, b):
        if x is not r: x.ro = True
    E.run(P + fn, (Ptr(r, 0), Ptr(a, 0), Ptr(b, 0)))
    chk(E, r, fn, lambda k, i: op(32, u[k][i], v[k][i])); E.cover('done')
def t_split(E, fn, scalar, lo, hi, alias):
    a, v = vec(E, 'v', lo, hi); h = a if alias else E.obj('h', 4096, 'undef', 'arg'); l = E.obj('l', 4096, 'undef', 'arg'); t = E.obj('t', 4, 'undef', 'arg')
    if not alias: a.ro = True
    E.run(P + fn, (Ptr(h, 0), Ptr(l, 0), Ptr(a, 0)))
    for k in range(4):
        for i in range(N):
            r = E.run(P + scalar, (Ptr(t, 0), v[k][i]))
            E.same(32, get(E, h, k, i), r, fn + ': high part of every coefficient', 'polynomial %d coefficient %d' % (k, i)); E.same(32, get(E, l, k, i), E.load(Ptr(t, 0), 4), fn + ': low part of every coefficient', 'polynomial %d coefficient %d' % (k, i))
    E.cover('done')
def t_chknorm(E, fn):
    """1 exactly when some component is reported"""
    a, v = vec(E, 'v', -Q, Q); a.ro = True; B = rvar(E, 'B', 1, (Q - 1) // 8)
    bits = [tm.var('reject%d' % k, 1) for k in range(4)]
    E.log['cn'] = (a, B, bits, fn)
    r = E.run(P + fn, (Ptr(a, 0), B))
    w = 0
    for b in bits: w = tm.or_(1, w, b)
    E.same(1, tm.ne(32, r, 0), w, fn + ': rejects exactly when some polynomial of the vector is rejected'); E.cover('done')
def c_chknorm(E, p, B):
    a, B0, bits, fn = E.log['cn']
    E.post(1 if p.o is a and p.off in (0, 1024, 2048, 3072) else 0, fn + ': norm check of the vector\'s own polynomials')
    E.same(32, B, B0, fn + ': same bound for every polynomial')
    return tm.zext(1, 32, bits[p.off // 1024])
def t_make(E, fn):
    a, u = vec(E, 'u', -Q, Q); b, v = vec(E, 'v', 0, 43); h = E.obj('h', 4096, 'undef', 'arg'); a.ro = b.ro = True
    r = E.run(P + fn, (Ptr(h, 0), Ptr(a, 0), Ptr(b, 0)))
    n = 0
    for k in range(4):
        for i in range(N):
            w = c_make(E, u[k][i], v[k][i]); n = tm.add(32, n, w)
            E.same(32, get(E, h, k, i), w, fn + ': hint of every coefficient', 'polynomial %d coefficient %d' % (k, i))
    E.same(32, r, n, fn + ': number of hints'); E.cover('done')
def c_make(E, a0, a1): return tm.zext(1, 32, tm.app('make_hint', 1, (a0, a1)))
def t_use(E, fn):
    a, u = vec(E, 'u', 0, Q - 1); h, v = vec(E, 'v', 0, 1); h.ro = True
    E.run(P + fn, (Ptr(a, 0), Ptr(a, 0), Ptr(h, 0)))
    chk(E, a, fn, lambda k, i: c_use(E, u[k][i], v[k][i])); E.cover('done')
def c_use(E, a, h): return tm.app('use_hint', 32, (a, h))
def t_tr(E, fn, sub):
    """transforms: every polynomial transformed once, in place"""
    o = E.obj('v', 4096, 'undef', 'arg'); xs = [tm.var('v[%d]' % i, 32) for i in range(1024)]
    for i, x in enumerate(xs): E.store(Ptr(o, 4 * i), 4, x)
    E.run(P + fn, (Ptr(o, 0),))
    for k in range(4):
        w = tuple(xs[256 * k:256 * k + 256])
        for i in range(N): E.same(32, get(E, o, k, i), tm.app(sub, 32, (w, i)), fn + ': every polynomial is transformed once', 'polynomial %d coefficient %d' % (k, i))
    E.cover('done')
def c_tr(sub):
    def f(E, p):
        w = tuple(E.load(Ptr(p.o, p.off + 4 * i), 4) for i in range(N))
        for i in range(N): E.store(Ptr(p.o, p.off + 4 * i), 4, tm.app(sub, 32, (w, i)))
    return f
def t_pp(E, fn):
    a = E.obj('a', 1024, 'undef', 'arg'); c = [rvar(E, 'c[%d]' % i, -9 * Q, 9 * Q) for i in range(N)]
    for i in range(N): E.store(Ptr(a, 4 * i), 4, c[i])
    b, v = vec(E, 'v', -9 * Q, 9 * Q); a.ro = True; r = E.obj('r', 4096, 'undef', 'arg'); b.ro = True
    E.run(P + fn, (Ptr(r, 0), Ptr(a, 0), Ptr(b, 0)))
    chk(E, r, fn, lambda k, i: c_mont_uf(E, tm.mul(64, tm.sext(32, 64, c[i]), tm.sext(32, 64, v[k][i])))); E.cover('done')
def t_mat(E):
    fn = 'polyvec_matrix_pointwise_montgomery'
    m, A = vec(E, 'A', 0, Q - 1, 16); b, v = vec(E, 'v', -9 * Q, 9 * Q); t = E.obj('t', 4096, 'undef', 'arg'); m.ro = b.ro = True
    E.run(P + fn, (Ptr(t, 0), Ptr(m, 0), Ptr(b, 0)))
    def w(k, i):
        s = 0
        for j in range(4): s = tm.add(32, s, c_mont_uf(E, tm.mul(64, tm.sext(32, 64, A[4 * k + j][i]), tm.sext(32, 64, v[j][i]))))
        return s
    chk(E, t, fn, w); E.cover('done')

def tasks11():
    sc = lambda n: (lambda E, x: E.run(P + n, (x,)))
    HI = (1 << 31) - 1 - (1 << 22)
    ts = []
    def add(name, fn, f, args, C=None): ts.append(Task(name, P + fn, f, {P + k: v for k, v in (C or {}).items()}, args=args, need_cover=('done',)))
    for n in 'lk':
        add('polyvec%s_reduce' % n, 'polyvec%s_reduce' % n, t_map, ('polyvec%s_reduce' % n, sc('reduce32'), -(1 << 31), HI))
        for al in (0, 1): add('polyvec%s_add[%d]' % (n, al), 'polyvec%s_add' % n, t_bin, ('polyvec%s_add' % n, tm.add, al))
        add('polyvec%s_chknorm' % n, 'polyvec%s_chknorm' % n, t_chknorm, ('polyvec%s_chknorm' % n,), {'poly_chknorm': c_chknorm})
    for al in (0, 1): add('polyveck_sub[%d]' % al, 'polyveck_sub', t_bin, ('polyveck_sub', tm.sub, al))
    add('polyveck_caddq', 'polyveck_caddq', t_map, ('polyveck_caddq', sc('caddq'), -Q + 1, Q - 1))
    add('polyveck_shiftl', 'polyveck_shiftl', t_map, ('polyveck_shiftl', lambda E, x: tm.shl(32, x, 13), 0, 1023))
    add('polyveck_power2round', 'polyveck_power2round', t_split, ('polyveck_power2round', 'power2round', 0, Q - 1, True))
    add('polyveck_decompose', 'polyveck_decompose', t_split, ('polyveck_decompose', 'decompose', 0, Q - 1, True))
    add('polyveck_make_hint', 'polyveck_make_hint', t_make, ('polyveck_make_hint',), {'make_hint': c_make})
    add('polyveck_use_hint', 'polyveck_use_hint', t_use, ('polyveck_use_hint',), {'use_hint': c_use})
    return ts
def tasks13():
    ts = []
    for n in 'lk':
        for s in ('ntt', 'invntt_tomont'): ts.append(Task('polyvec%s_%s' % (n, s), P + 'polyvec%s_%s' % (n, s), t_tr, {P + s: c_tr(s)}, args=('polyvec%s_%s' % (n, s), s), need_cover=('done',)))
        ts.append(Task('polyvec%s_pointwise_poly_montgomery' % n, P + 'polyvec%s_pointwise_poly_montgomery' % n, t_pp, {P + 'montgomery_reduce': c_mont_uf}, args=('polyvec%s_pointwise_poly_montgomery' % n,), need_cover=('done',)))
    ts.append(Task('polyvec_matrix_pointwise_montgomery', P + 'polyvec_matrix_pointwise_montgomery', t_mat, {P + 'montgomery_reduce': c_mont_uf}, need_cover=('done',)))
    return ts
