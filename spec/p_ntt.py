"""C13: the NTT as linear forms modulo q with signed interval tracking, executed on the real butterflies.

Every machine value is an integer-linear combination of atoms (input coefficients and results of montgomery_reduce); for each atom the verifier keeps its
linear form over Z_q in the 256 inputs and a signed interval.  Additions must not overflow (obligation), so the machine value equals the integer value and its
residue is the combination of residues.  montgomery_reduce enters through the contract proved in C11: for |x| < 2^31 q it returns r with 2^32 r = x (mod q), |r| < q."""
import numpy as np
import p_dil
import term as tm
from term import T
from engine import *
from run import Task, PyTask
from p_dil import P, Q, N, poly, rvar, s32, lowbits
R = pow(2, 32, Q)
RI = pow(R, -1, Q)
ROOT = 1753

def brv8(i): return int('{:08b}'.format(i)[::-1], 2)

def ntt_matrix():
    """row i: evaluation at root^(2 brv(i) + 1)"""
    m = np.zeros((N, N), dtype=np.int64)
    for i in range(N):
        z = pow(ROOT, 2 * brv8(i) + 1, Q); x = 1
        for j in range(N):
            m[i, j] = x; x = x * z % Q
    return m

def mulmod(a, b):
    """matrix product modulo q without overflow"""
    r = np.zeros((a.shape[0], b.shape[1]), dtype=np.int64)
    for k0 in range(0, a.shape[1], 64):
        x = a[:, k0:k0 + 64]; y = b[k0:k0 + 64]
        hi, lo = x >> 12, x & 4095
        r = (r + (((hi @ y) % Q) << 12) + lo @ y) % Q
    return r

class NTTEngine(Engine):
    def reset_path(self, d):
        Engine.reset_path(self, d)
        self.atom = {}        # T -> (residue vector | None, lo, hi)
        self.hooks = {'nsw': NTTEngine.nsw}
    def val(self, w, t):
        """(vector mod q, lo, hi) of a w-bit machine value read as a signed integer"""
        if t.__class__ is int:
            v = tm.sx(w, t)
            z = np.zeros(self.dim, dtype=np.int64); z[-1] = v % Q     # last component: the constant
            return z, v, v
        a = self.atom.get(t)
        if a is not None: return a
        if t.op == 'sext': return self.val(t.a[0].w, t.a[0])
        if t.op == 'add':
            c = tm.sx(w, t.a[0])
            vec = np.zeros(self.dim, dtype=np.int64); vec[-1] = c % Q
            lo = hi = c
            for x, k in t.a[1]:
                k = tm.sx(w, k)
                if k % Q == 0:         # multiples of q vanish modulo q: only the range matters
                    l, h = tm.srng(w, x); v = 0
                else: v, l, h = self.val(w, x)
                vec = (vec + v * (k % Q)) % Q
                lo += k * l if k >= 0 else k * h; hi += k * h if k >= 0 else k * l
            if not (-(1 << (w - 1)) <= lo and hi < (1 << (w - 1))): raise Undecided('no signed overflow', 'value range [%d,%d] exceeds i%d in %s' % (lo, hi, w, self.where()))
            return vec, lo, hi
        if t.op == 'ext' and t.a[1] == 32 and t.a[2] == 64 and t.a[0].w == 64 and lowbits(t.a[0], 32) == 0:
            # exact division by 2^32 (an inlined reduction)
            v, lo, hi = self.val(64, t.a[0])
            return v * RI % Q, lo >> 32, hi >> 32
        raise Unsupported('value outside the linear domain: ' + tm.show(t))
    def nsw(self, op, w, a, b):
        (_, l1, h1), (_, l2, h2) = self.val(w, a), self.val(w, b)
        if op == 'add': lo, hi = l1 + l2, h1 + h2
        elif op == 'sub': lo, hi = l1 - h2, h1 - l2
        else:
            c = (l1 * l2, l1 * h2, h1 * l2, h1 * h2); lo, hi = min(c), max(c)
        if not (-(1 << (w - 1)) <= lo and hi < (1 << (w - 1))):
            raise Violation('no signed overflow', '%s on ranges [%d,%d] and [%d,%d] (i%d) in %s' % (op, l1, h1, l2, h2, w, self.where()), None)
        return True

def c_mont(E, a):
    v, lo, hi = E.val(64, a)
    E.require(1 if -(Q << 31) <= lo and hi < (Q << 31) else 0, 'montgomery_reduce: argument in range', '[%d,%d]' % (lo, hi))
    r = E.fresh('mont', 32)
    E.atom[r] = (v * RI % Q, -Q + 1, Q - 1)
    return r

def load_poly(E, B):
    E.dim = N + 1
    o = E.obj('a', 4 * N, 'undef', 'arg')
    for i in range(N):
        v = tm.var('a[%d]' % i, 32)
        u = np.zeros(N + 1, dtype=np.int64); u[i] = 1
        E.atom[v] = (u, -B, B); E.store(Ptr(o, 4 * i), 4, v)
    return o

def result(E, o, bound, label, want):
    for i in range(N):
        v, lo, hi = E.val(32, E.load(Ptr(o, 4 * i), 4))
        E.post(1 if -bound <= lo and hi <= bound else 0, label + ': output coefficients stay in the documented range', 'coefficient %d in [%d,%d]' % (i, lo, hi))
        E.post(1 if v[-1] == 0 and bool((v[:N] == want[i]).all()) else 0, label + ': every output coefficient is the specified linear combination of the inputs (mod q)', 'coefficient %d' % i)
    E.cover('done')

def t_ntt(E, B, fn):
    o = load_poly(E, B)
    E.run(P + fn, (Ptr(o, 0),))
    result(E, o, B + 8 * Q, fn, ntt_matrix())

def t_invntt(E, fn):
    o = load_poly(E, Q - 1)
    E.run(P + fn, (Ptr(o, 0),))
    m = ntt_matrix()
    # inverse of the evaluation matrix, times the Montgomery factor
    inv = np.zeros((N, N), dtype=np.int64); ni = pow(N, -1, Q)
    for i in range(N):
        z = pow(ROOT, -(2 * brv8(i) + 1), Q); x = ni * R % Q
        for j in range(N):
            inv[j, i] = x; x = x * z % Q
    result(E, o, Q - 1, fn, inv)
    E.post(1 if bool((mulmod(inv, m) == (np.eye(N, dtype=np.int64) * R) % Q).all()) else 0, 'lemma: the specified inverse is R times the inverse of the specified transform')

def lemma(mod):
    """evaluation at the 256 odd powers of the root is a ring isomorphism from Z_q[X]/(X^256+1): the points are distinct roots of X^256+1"""
    pts = [pow(ROOT, 2 * brv8(i) + 1, Q) for i in range(N)]
    ok = len(set(pts)) == N and all(pow(p, N, Q) == Q - 1 for p in pts) and all(Q % d for d in range(2, 2900))
    return dict(status='proved' if ok else 'violation', label='lemma: evaluation points are the 256 distinct roots of X^256+1 in the field Z_q', detail='', backend='exact arithmetic', obligations=3, discharged=3)

def t_acc(E):
    """polyvecl_pointwise_acc_montgomery: sum over the vector of the pointwise products"""
    u = E.obj('u', 4096, 'undef', 'arg'); v = E.obj('v', 4096, 'undef', 'arg'); w = E.obj('w', 1024, 'undef', 'arg')
    us, vs = {}, {}
    for k in range(4):
        for i in range(N):
            us[k, i] = rvar(E, 'u%d[%d]' % (k, i), 0, Q - 1); vs[k, i] = rvar(E, 'v%d[%d]' % (k, i), -9 * Q, 9 * Q)
            E.store(Ptr(u, 1024 * k + 4 * i), 4, us[k, i]); E.store(Ptr(v, 1024 * k + 4 * i), 4, vs[k, i])
    u.ro = v.ro = True
    E.run(P + 'polyvecl_pointwise_acc_montgomery', (Ptr(w, 0), Ptr(u, 0), Ptr(v, 0)))
    for i in range(N):
        want = 0
        for k in range(4): want = tm.add(32, want, c_mont_uf(E, tm.mul(64, tm.sext(32, 64, us[k, i]), tm.sext(32, 64, vs[k, i]))))
        E.same(32, E.load(Ptr(w, 4 * i), 4), want, 'polyvecl_pointwise_acc_montgomery: sum of the four products', 'coefficient %d' % i)
    E.cover('done')

def c_mont_uf(E, a):
    t = tm.app('montgomery_reduce', 32, (a,))
    tm.SR[t] = (-Q + 1, Q - 1)
    return t

def tasks():
    C = {P + 'montgomery_reduce': c_mont}
    kw = dict(engine_cls=NTTEngine, need_cover=('done',))
    return [Task('ntt[|a| < q]', P + 'ntt', t_ntt, C, args=(Q - 1, 'ntt'), **kw), Task('ntt[|a| <= 2^30]', P + 'ntt', t_ntt, C, args=(1 << 30, 'ntt'), **kw),
            Task('poly_ntt', P + 'poly_ntt', t_ntt, C, args=(Q - 1, 'poly_ntt'), **kw),
            Task('invntt_tomont', P + 'invntt_tomont', t_invntt, C, args=('invntt_tomont',), **kw), Task('poly_invntt_tomont', P + 'poly_invntt_tomont', t_invntt, C, args=('poly_invntt_tomont',), **kw),
            PyTask('evaluation points', 'zetas', lemma),
            Task('pointwise_acc_montgomery', P + 'polyvecl_pointwise_acc_montgomery', t_acc, {P + 'montgomery_reduce': c_mont_uf}, need_cover=('done',))] + [t for t in p_dil.scalar_tasks() if t.name == 'montgomery_reduce'] + [t for t in p_dil.poly_tasks() if 'pointwise' in t.name]
