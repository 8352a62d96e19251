"""C15: Dilithium key generation, signing and verification over ghost ring elements.

A polynomial in memory is a ghost value: an element of Z_q[X]/(X^256+1) written as a polynomial in named ring elements (matrix entries, secrets,
masks, challenge, high bits, ...), the domain it is stored in (coefficients or transform) and a coefficient range.  The polynomial-level functions enter
through exactly the contracts proved in C11-C14; everything above them (polyvec.c, pack_pk/sk, sign.c) is executed from its real body.  The rejection loop
is treated by induction: the attempt counter and everything an attempt changes are arbitrary at its head."""
import term as tm
from term import T
from engine import *
from engine import natural_loops, subst
from run import Task
from hybrid import inputs, outbuf, seq, uf
import shake
from p_dil import P, Q, D, G1, G2, ALPHA, BETA, OMEGA, N
from p_pack import FIELD, size as psize
R = pow(2, 32, Q); RI = pow(R, -1, Q)
RED = (-6283009, 6283008)

# ---- ring expressions ---------------------------------------------------------------------------
_sym = {}; _symrev = []
def sym(*key):
    i = _sym.get(key)
    if i is None:
        i = _sym[key] = len(_symrev); _symrev.append(key)
    return (((i,), 1),)
def radd(a, b, k=1):
    d = dict(a)
    for m, c in b:
        x = (d.get(m, 0) + k * c) % Q
        if x: d[m] = x
        else: d.pop(m, None)
    return tuple(sorted(d.items()))
def rscale(a, k): return tuple((m, c * k % Q) for m, c in a if c * k % Q)
def rmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            x = tuple(sorted(m + n)); d[x] = (d.get(x, 0) + c * e) % Q
    return tuple(sorted((m, c) for m, c in d.items() if c))
def rshow(a): return ' + '.join('%d*%s' % (c, '*'.join(str(_symrev[i][0]) + '#%d' % i for i in m)) for m, c in a) or '0'

class PV:
    __slots__ = ('v', 'dom', 'lo', 'hi', 'cells')
    def __init__(self, v, dom, lo, hi):
        self.v = v; self.dom = dom; self.lo = lo; self.hi = hi
        self.cells = [(self, i) for i in range(1024)]

class DilEngine(Engine):
    loop_hooks = True
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.rej = {}           # (function, header) -> is the rejection loop
        self.havoc = {}         # header key -> set of (object name, cell) changed by an attempt
        self.probing = False
    def descr(self, p, n, what='read'):
        n = self.norm(n)
        if p.__class__ is not Ptr: raise Violation('valid pointer', 'in %s' % self.where(), self.model())
        o = p.o
        if o.cells.__class__ is list: return [('bytes',) + tuple(self.rd(p, conc(self, n, 'length')))]
        off = self.norm(p.off); e = tm.add(64, off, n)
        self.require(tm.and_(1, tm.ule(64, off, e), tm.ule(64, e, o.size)), 'in-bounds access', 'message')
        return [('rd', o.name, off, n)]
    # ---- the rejection loop
    def _is_rej(self, fname, h):
        r = self.rej.get((fname, h))
        if r is None:
            f = self.mod.funcs[fname]; loops = natural_loops(f)
            body = loops[f.order[h]]
            seen = set(); st = [(f, body)]; names = set()
            while st:
                g, bl = st.pop()
                for b in bl:
                    for ins in g.blocks[b]:
                        if ins[0] == 'call' and ins[3][0] == '@':
                            n = ins[3][1:].strip('"')
                            if n not in names:
                                names.add(n)
                                if n in self.mod.funcs: st.append((self.mod.funcs[n], self.mod.funcs[n].order))
            r = self.rej[fname, h] = P + 'poly_uniform_gamma1' in names and P + 'poly_challenge' in names
        return r
    def at_header(self, fname, h, fr, phis, widths):
        if not self._is_rej(fname, h): return None
        key = (fname, h)
        st = fr.get(h)
        live = [o for o in self.objs if o.live and not o.ro and o.cells.__class__ is list]
        if st is None:
            hv = self.havoc.setdefault(key, set())
            v0 = {}; new = []
            for k, (x, w) in enumerate(zip(phis, widths)):
                if w == 0: new.append(x); continue
                y = self.fresh('attempt.%d' % k, w); v0[y] = x; new.append(y)
            for o in live:
                for i, c in enumerate(o.cells):
                    if (o.name, i) in hv:
                        if c.__class__ in (int, T):
                            y = self.fresh('attempt.%s[%d]' % (o.name, i), 8); v0[y] = c; o.cells[i] = y
                        else: o.cells[i] = UNDEF
            fr[h] = dict(v0=v0, phis=tuple(new), snap=[(o, list(o.cells)) for o in live], heap=len([o for o in self.heap if o.live]))
            self.log['loop'] = fr[h]; self.log['y'] = []
            self.cover('attempt')
            return tuple(new)
        # back at the head: the attempt was rejected
        hv = self.havoc[key]; env = {}
        for y, x, w in zip(st['phis'], phis, widths):
            if w == 0:
                if not (x.__class__ is y.__class__ and x.__class__ is Ptr and x.o is y.o and tm.eq(64, x.off, y.off) == 1): raise Unsupported('pointer changed by the rejection loop')
            else: env[y] = x
        for o, snap in st['snap']:
            for i, (a, b) in enumerate(zip(snap, o.cells)):
                if a is b or (a.__class__ is int and a == b): continue
                if a.__class__ is tuple and b.__class__ is tuple and a[0] is b[0] and a[1] == b[1]: continue
                if (o.name, i) in hv:
                    if a.__class__ is T and b.__class__ in (int, T): env[a] = b
                    continue
                if self.probing: hv.add((o.name, i))
                else: raise Unsupported('memory %s+%d changed by the rejection loop' % (o.name, i))
        if not self.probing: self.on_reject(self, env)
        raise PathEnd('next attempt')
    on_reject = staticmethod(lambda E, env: None)
    def rng(self, pv):
        """coefficient range, sharpened by the norm tests passed on this path"""
        lo, hi = pv.lo, pv.hi
        for v, bit, B in self.log.get('chk', ()):
            if v == pv.v and lo >= RED[0] and hi <= RED[1]:
                b = self.norm(bit)
                if b.__class__ is not int and self.feasible(b) is False: b = 0
                if b.__class__ is int and b == 0: lo = max(lo, -B + 1); hi = min(hi, B - 1)
        return lo, hi

def get(E, p, what='operand'):
    cs = E.rdraw(p, 1024)
    c = cs[0]
    if c is UNDEF: raise Violation('polynomials are initialised before use', 'in %s: %s' % (E.where(), what), E.model())
    if c.__class__ is not tuple or c[0].__class__ is not PV: raise Unsupported('not a polynomial in ' + E.where())
    pv = c[0]
    if c[1] != 0 or cs != pv.cells: raise Unsupported('polynomial changed coefficient-wise or misaligned in ' + E.where())
    return pv
def put(E, p, pv): E.wr(p, list(pv.cells))
def req(E, ok, label, detail=''): E.require(1 if ok else 0, label, detail)
def inr(E, pv, lo, hi, what):
    l, h = E.rng(pv)
    req(E, lo <= l and h <= hi, what + ': coefficients in the contract range', '[%d,%d] not within [%d,%d]' % (l, h, lo, hi))
def dom(E, pv, d, what): req(E, pv.dom == d, what + ': operand in the %s domain' % ('coefficient' if d == 't' else 'transform'), rshow(pv.v)[:200])

# ---- contracts of the polynomial layer (C11, C13) -------------------------------------------------
def c_ntt(E, p):
    a = get(E, p); dom(E, a, 't', 'poly_ntt'); inr(E, a, -(1 << 30), 1 << 30, 'poly_ntt')
    l, h = E.rng(a); m = max(-l, h)
    put(E, p, PV(a.v, 'f', -m - 8 * Q, m + 8 * Q))
def c_invntt(E, p):
    a = get(E, p); dom(E, a, 'f', 'poly_invntt_tomont'); inr(E, a, -Q + 1, Q - 1, 'poly_invntt_tomont')
    put(E, p, PV(rscale(a.v, R), 't', -Q + 1, Q - 1))
def c_pointwise(E, c, p, q):
    a, b = get(E, p), get(E, q)
    for x in (a, b): dom(E, x, 'f', 'poly_pointwise_montgomery'); inr(E, x, -9 * Q, 9 * Q, 'poly_pointwise_montgomery')
    put(E, c, PV(rscale(rmul(a.v, b.v), RI), 'f', -Q + 1, Q - 1))
def c_acc(E, w, u, v):
    r = (); us = []
    for i in range(4):
        a, b = get(E, E.gep(u, 1024 * i)), get(E, E.gep(v, 1024 * i))
        dom(E, a, 'f', 'polyvecl_pointwise_acc_montgomery'); dom(E, b, 'f', 'polyvecl_pointwise_acc_montgomery')
        inr(E, a, 0, Q - 1, 'polyvecl_pointwise_acc_montgomery'); inr(E, b, -9 * Q, 9 * Q, 'polyvecl_pointwise_acc_montgomery')
        r = radd(r, rscale(rmul(a.v, b.v), RI))
    put(E, w, PV(r, 'f', -4 * Q + 4, 4 * Q - 4))
def _addsub(k):
    def f(E, c, p, q):
        a, b = get(E, p), get(E, q)
        req(E, a.dom == b.dom, 'poly_add/sub: both operands in the same domain')
        l1, h1 = E.rng(a); l2, h2 = E.rng(b)
        if k < 0: l2, h2 = -h2, -l2
        req(E, -(1 << 31) <= l1 + l2 and h1 + h2 < 1 << 31, 'poly_add/sub: no signed overflow')
        put(E, c, PV(radd(a.v, b.v, k), a.dom, l1 + l2, h1 + h2))
    return f
def c_reduce(E, p):
    a = get(E, p); inr(E, a, -(1 << 31), (1 << 31) - (1 << 22) - 1, 'poly_reduce')
    put(E, p, PV(a.v, a.dom, *RED))
def c_caddq(E, p):
    a = get(E, p); l, h = E.rng(a)
    put(E, p, PV(a.v, a.dom, min(l + Q if l < 0 else l, 0 if h >= 0 else l + Q), max(h, Q - 1 if l < 0 else h)))
def c_shiftl(E, p):
    a = get(E, p); dom(E, a, 't', 'poly_shiftl'); inr(E, a, -(1 << 18) + 1, (1 << 18) - 1, 'poly_shiftl')
    l, h = E.rng(a)
    put(E, p, PV(rscale(a.v, 1 << D), 't', l << D, h << D))
def c_p2r(E, a1, a0, p):
    a = get(E, p); dom(E, a, 't', 'poly_power2round'); inr(E, a, -4095, 8384512, 'poly_power2round')
    l, h = E.rng(a)
    s = sym('T1' if l >= 0 and h < Q else 'T1~', a.v)
    put(E, a1, PV(s, 't', 0, 1023)); put(E, a0, PV(radd(a.v, s, -(1 << D)), 't', -(1 << 12) + 1, 1 << 12))
def c_decompose(E, a1, a0, p):
    a = get(E, p); dom(E, a, 't', 'poly_decompose'); inr(E, a, 0, Q - 1, 'poly_decompose')
    s = sym('HI', a.v)
    put(E, a1, PV(s, 't', 0, 43)); put(E, a0, PV(radd(a.v, s, -ALPHA), 't', -G2, G2))
def hcount(z, w):
    t = tm.app('HCOUNT', 32, (z, w)); tm.SR[t] = (0, 256); return t
def c_make_hint(E, h, p, q):
    a, b = get(E, p), get(E, q)
    dom(E, a, 't', 'poly_make_hint'); dom(E, b, 't', 'poly_make_hint')
    inr(E, a, -(Q - 1) // 2, (Q - 1) // 2, 'poly_make_hint'); inr(E, b, 0, 43, 'poly_make_hint')
    put(E, h, PV(sym('HINT', a.v, b.v), 't', 0, 1))
    t = hcount(a.v, b.v); E.assume(tm.ule(32, t, 256))
    E.log.setdefault('hintrng', {})[a.v] = E.rng(a)
    return t
def c_use_hint(E, b, p, q):
    a, h = get(E, p), get(E, q)
    dom(E, a, 't', 'poly_use_hint'); inr(E, a, 0, Q - 1, 'poly_use_hint'); inr(E, h, 0, 1, 'poly_use_hint')
    put(E, b, PV(use_hint(E, a.v, h.v), 't', 0, 43))
def use_hint(E, a, h):
    # the hint lemma of C11: use_hint(w1 alpha + z, make_hint(z, w1)) = w1 for |z| <= 2 gamma2 - beta - 1
    if len(h) == 1 and h[0][1] == 1 and len(h[0][0]) == 1:
        k = _symrev[h[0][0][0]]
        if k[0] == 'HINT' and radd(rscale(k[2], ALPHA), k[1]) == a:
            lo, hi = E.log.get('hintrng', {}).get(k[1], (-Q, Q))
            if -(2 * G2 - BETA - 1) <= lo and hi <= 2 * G2 - BETA - 1:
                E.cover('hint lemma applied'); return k[2]
    return sym('USEHINT', a, h)
def normge(v, B): return tm.app('NORMGE', 1, (v, B))
def c_chknorm(E, p, B):
    a = get(E, p); dom(E, a, 't', 'poly_chknorm'); inr(E, a, *RED, 'poly_chknorm')
    B = conc(E, B, 'norm bound'); B = tm.sx(32, B)
    if B > (Q - 1) // 8: return 1
    req(E, B > 0, 'poly_chknorm: positive bound')
    bit = normge(a.v, B)
    E.log['chk'] = E.log.get('chk', []) + [(a.v, bit, B)]
    return tm.zext(1, 32, bit)

# ---- samplers (C14) ---------------------------------------------------------------------------------
def u16(E, n):
    n = E.norm(n)
    return n if n.__class__ is not int else n & 0xffff
def c_uniform(E, p, seed, nonce): put(E, p, PV(sym('A', seq(E.rd(seed, 32)), u16(E, nonce)), 'f', 0, Q - 1))
def c_eta(E, p, seed, nonce): put(E, p, PV(sym('S', seq(E.rd(seed, 64)), u16(E, nonce)), 't', -2, 2))
def c_gamma1(E, p, seed, nonce):
    n = u16(E, nonce); E.log.setdefault('y', []).append(n)
    put(E, p, PV(sym('Y', seq(E.rd(seed, 64)), n), 't', -G1 + 1, G1))
def c_challenge(E, p, seed): put(E, p, PV(sym('C', seq(E.rd(seed, 32))), 't', -1, 1))

# ---- encodings (C12) -----------------------------------------------------------------------------------
def krange(kind):
    w, off, mx = FIELD[kind]
    return (0, mx) if off is None else (off - mx, off)
def c_pack(kind):
    def f(E, r, p):
        a = get(E, p); dom(E, a, 't', 'poly%s_pack' % kind); inr(E, a, *krange(kind), 'poly%s_pack' % kind)
        E.wr(r, packbytes(kind, a.v))
    return f
def packbytes(kind, v):
    n = psize(kind); t = tm.app('PACK_' + kind, 8 * n, (v,))
    return [tm.ext(t, 8 * n, 8 * i, 8 * i + 8) for i in range(n)]
def whole(bs, name):
    """the application whose complete byte string bs is, if any"""
    b = bs[0]
    if b.__class__ is T and b.op == 'ext' and b.a[0].op == 'app' and b.a[0].a[0] == name and b.a[0].w == 8 * len(bs):
        t = b.a[0]
        if all(x is tm.ext(t, t.w, 8 * i, 8 * i + 8) for i, x in enumerate(bs)): return t
    return None
def unpackv(kind, bs):
    t = whole(bs, 'PACK_' + kind)
    if t is not None: return t.a[1]           # unpack(pack(a)) = a (C12)
    return sym('UNPACK_' + kind, seq(bs))
def c_unpack(kind):
    def f(E, p, a):
        bs = E.rd(a, psize(kind)); lo, hi = krange(kind)
        if kind == 'eta' and whole(bs, 'PACK_eta') is None: lo = -5        # any 3-bit field
        put(E, p, PV(unpackv(kind, bs), 't', lo, hi))
    return f
def c_pack_sig(E, sig, c, z, h):
    E.wr(sig, E.rd(c, 32))
    for i in range(4): c_pack('z')(E, E.gep(sig, 32 + 576 * i), E.gep(z, 1024 * i))
    hs = []; tot = 0
    for i in range(4):
        a = get(E, E.gep(h, 1024 * i)); dom(E, a, 't', 'pack_sig'); inr(E, a, 0, 1, 'pack_sig'); hs.append(a.v)
        k = _symrev[a.v[0][0][0]] if len(a.v) == 1 and a.v[0][1] == 1 and len(a.v[0][0]) == 1 else None
        if not k or k[0] != 'HINT': raise Unsupported('hint vector of unknown weight in ' + E.where())
        tot = tm.add(32, tot, hcount(k[1], k[2]))
    E.require(tm.ule(32, tot, OMEGA), 'pack_sig: at most omega hints')
    E.wr(E.gep(sig, 32 + 4 * 576), hpack(hs))
def hpack(hs):
    t = tm.app('HPACK', 84 * 8, (tuple(hs),))
    return [tm.ext(t, 84 * 8, 8 * i, 8 * i + 8) for i in range(84)]
def hintok(bs):
    return 1 if whole(bs, 'HPACK') is not None else tm.app('HINTOK', 1, (seq(bs),))
def hintv(bs, i):
    t = whole(bs, 'HPACK')
    return t.a[1][i] if t is not None else sym('HDEC', seq(bs), i)
def c_unpack_sig(E, c, z, h, sig):
    E.wr(c, E.rd(sig, 32))
    for i in range(4): c_unpack('z')(E, E.gep(z, 1024 * i), E.gep(sig, 32 + 576 * i))
    bs = E.rd(E.gep(sig, 32 + 4 * 576), 84)
    ok = hintok(bs)
    if ok.__class__ is int or E.branch(ok):
        for i in range(4): put(E, E.gep(h, 1024 * i), PV(hintv(bs, i), 't', 0, 1))
        return 0
    for i in range(4): E.wr(E.gep(h, 1024 * i), [UNDEF] * 1024)
    r = E.fresh('unpack_sig', 32); E.assume(tm.ne(32, r, 0))
    return r

def contracts():
    C = {'poly_ntt': c_ntt, 'poly_invntt_tomont': c_invntt, 'poly_pointwise_montgomery': c_pointwise, 'polyvecl_pointwise_acc_montgomery': c_acc, 'poly_add': _addsub(1),
         'poly_sub': _addsub(-1), 'poly_reduce': c_reduce, 'poly_caddq': c_caddq, 'poly_shiftl': c_shiftl, 'poly_power2round': c_p2r, 'poly_decompose': c_decompose,
         'poly_make_hint': c_make_hint, 'poly_use_hint': c_use_hint, 'poly_chknorm': c_chknorm, 'poly_uniform': c_uniform, 'poly_uniform_eta': c_eta,
         'poly_uniform_gamma1': c_gamma1, 'poly_challenge': c_challenge, 'pack_sig': c_pack_sig, 'unpack_sig': c_unpack_sig}
    for k in FIELD: C['poly%s_pack' % k] = c_pack(k)
    for k in ('eta', 't1', 't0', 'z'): C['poly%s_unpack' % k] = c_unpack(k)
    C = {P + k: v for k, v in C.items()}
    C.update(shake.inc())
    return C

# ---- specification ----------------------------------------------------------------------------------------
def A(rho, i, j): return sym('A', seq(rho), (i << 8) + j)
def msgpart(mlen): return [('seg', 'm', 0, mlen)]
def message(E):
    mlen = tm.var('mlen', 64); E.assume(tm.ule(64, mlen, 1 << 48))
    return E.obj('m', mlen, 'input', 'arg', True), mlen
def cmpb(E, got, want, label):
    for i, (g, w) in enumerate(zip(got, want)): E.same(8, g, w, label, 'byte %d' % i)
def dot(rho, i, vs):
    r = ()
    for j in range(4): r = radd(r, rmul(A(rho, i, j), vs[j]))
    return r

def verify_spec(pk, sig, mlen):
    """bit: the acceptance condition (given the exact length)"""
    rho = pk[:32]; t1 = [unpackv('t1', pk[32 + 320 * i:352 + 320 * i]) for i in range(4)]
    z = [unpackv('z', sig[32 + 576 * i:608 + 576 * i]) for i in range(4)]; hb = sig[32 + 2304:]
    mu = shake.H(shake.bts(shake.H(shake.bts(pk), 64)) + msgpart(mlen), 64)
    c = sym('C', seq(sig[:32])); w1 = b''
    pkd = []
    for i in range(4):
        w = radd(dot(rho, i, z), rscale(rmul(c, t1[i]), 1 << D), -1)
        pkd += packbytes('w1', sym('USEHINT', w, hintv(hb, i)))
    c2 = shake.H(shake.bts(mu + pkd), 32)
    ok = hintok(hb)
    for v in z: ok = tm.and_(1, ok, tm.not_(1, normge(v, G1 - BETA)))
    for a, b in zip(sig[:32], c2): ok = tm.and_(1, ok, tm.eq(8, a, b))
    return ok

def t_verify(E):
    pk = inputs(E, 'pk', 1312); sig = inputs(E, 'sig', 2420); m, mlen = message(E)
    n = tm.var('siglen', 64)
    r = E.retcode(E.run(P + 'crypto_sign_verify', (Ptr(sig, 0), n, Ptr(m, 0), mlen, Ptr(pk, 0))))
    ok = tm.and_(1, tm.eq(64, n, 2420), verify_spec(list(pk.cells), list(sig.cells), mlen))
    E.same(1, tm.eq(32, r, 0), ok, 'crypto_sign_verify: accepts exactly when the length is exact, the encoding canonical, the response below the bound and the whole challenge recomputes')
    shake.released(E)
    E.cover('accept' if r.__class__ is int and r == 0 else 'reject')

def sign_spec(E, sk, mlen, nonces):
    rho, key, tr = sk[:32], sk[32:64], sk[64:128]
    s1 = [unpackv('eta', sk[128 + 96 * i:224 + 96 * i]) for i in range(4)]; s2 = [unpackv('eta', sk[512 + 96 * i:608 + 96 * i]) for i in range(4)]
    t0 = [unpackv('t0', sk[896 + 416 * i:1312 + 416 * i]) for i in range(4)]
    mu = shake.H(shake.bts(tr) + msgpart(mlen), 64)
    rp = shake.H(shake.bts(key + [0] * 32 + mu), 64)
    y = [sym('Y', seq(rp), n) for n in nonces]
    w = [dot(rho, i, y) for i in range(4)]; w1 = [sym('HI', x) for x in w]
    pkd = []
    for x in w1: pkd += packbytes('w1', x)
    ct = shake.H(shake.bts(mu + pkd), 32); c = sym('C', seq(ct))
    z = [radd(y[i], rmul(c, s1[i])) for i in range(4)]
    r0 = [radd(radd(w[i], w1[i], -ALPHA), rmul(c, s2[i]), -1) for i in range(4)]
    c0 = [rmul(c, x) for x in t0]
    a0 = [radd(a, b) for a, b in zip(r0, c0)]
    cnt = 0
    for a, b in zip(a0, w1): cnt = tm.add(32, cnt, hcount(a, b))
    tests = []
    for v, B, what in ((z, G1 - BETA, 'response below gamma1 - beta'), (r0, G2 - BETA, 'low bits below gamma2 - beta'), (c0, G2, 'hint product below gamma2')):
        f = 0
        for x in v: f = tm.or_(1, f, normge(x, B))
        tests.append((what, f))
    tests.append(('at most omega hints', tm.ult(32, OMEGA, cnt)))
    sig = list(ct)
    for x in z: sig += packbytes('z', x)
    return sig + hpack([sym('HINT', a, b) for a, b in zip(a0, w1)]), tests

def fixnonces(E):
    """the four mask nonces of this attempt, as 16-bit terms"""
    ns = E.log.get('y', [])
    E.post(1 if len(ns) == 4 else 0, 'crypto_sign_signature: four mask polynomials per attempt', '%d sampled' % len(ns))
    return ns

def w16(n): return n if n.__class__ is int or n.w == 16 else tm.ext(n, n.w, 0, 16)

def on_reject(E, env):
    ns = fixnonces(E); v0 = E.log['loop']['v0']
    for i, n in enumerate(ns):
        n = w16(n)
        E.same(16, subst(n, v0, {}) if n.__class__ is T else n, i, 'crypto_sign_signature: the first attempt uses mask nonces 0..3')
        E.same(16, subst(n, env, {}) if n.__class__ is T else n, tm.add(16, n, 4), 'crypto_sign_signature: every further attempt uses the next four mask nonces')
    sk = E.log['sk']
    sig, tests = sign_spec(E, sk, E.log['mlen'], ns)
    fail = 0
    for what, f in tests: fail = tm.or_(1, fail, f)
    E.post(fail, 'crypto_sign_signature: an attempt is repeated only when one of the four tests failed')
    E.post(1 if len([o for o in E.heap if o.live]) == E.log['loop']['heap'] else 0, 'crypto_sign_signature: an abandoned attempt leaves no hash context behind')
    E.cover('reject')

def run_sign(E, sig, sl, m, mlen, sk):
    """real body, rejection loop by induction (the probe pass collects what an attempt changes)"""
    return E.run(P + 'crypto_sign_signature', (Ptr(sig, 0), Ptr(sl, 0), Ptr(m, 0), mlen, Ptr(sk, 0)))

def probed(body):
    def t(E, *a):
        if not E.probing and not getattr(E, 'probed', False):
            E.probing = True; E.lf0 = E.lf
            sub = E
            saved = (E.dec, E.di, E.new, E.todo, E.stats)
            from engine import explore, Stats
            E.stats = Stats()
            todo = [[]]; n = 0; fa = E.fork_after; E.fork_after = 1e9
            while todo and n < 64:
                E.reset_path(list(todo.pop())); n += 1
                try: body(E, *a)
                except (PathEnd, Infeasible, Violation, Undecided): pass
                todo.extend(E.new)
            E.fork_after = fa
            E.probing = False; E.probed = True
            E.stats = saved[4]
            E.reset_path([]); E.todo = saved[3]
        E.on_reject = on_reject
        body(E, *a)
    return t

def b_sign(E):
    sk = inputs(E, 'sk', 2560); m, mlen = message(E); sig = outbuf(E, 'sig', 2420); sl = outbuf(E, 'siglen', 8)
    E.log['sk'] = list(sk.cells); E.log['mlen'] = mlen
    # the secret-key coefficients are those key generation packs (fields 5..7 do not occur)
    r = run_sign(E, sig, sl, m, mlen, sk)
    E.same(32, r, 0, 'crypto_sign_signature: success is 0')
    want, tests = sign_spec(E, E.log['sk'], mlen, fixnonces(E))
    for i, n in enumerate(E.log['y']):
        n = w16(n)
        E.same(16, subst(n, E.log['loop']['v0'], {}) if n.__class__ is T else n, i, 'crypto_sign_signature: the first attempt uses mask nonces 0..3')
    for what, f in tests: E.post(tm.not_(1, f), 'crypto_sign_signature: released only when ' + what)
    cmpb(E, E.rd(Ptr(sig, 0), 2420), want, 'crypto_sign_signature: challenge, packed response and hints of the specified values')
    E.same(64, E.load(Ptr(sl, 0), 8), 2420, 'crypto_sign_signature: reports the exact length')
    shake.released(E)
    E.cover('release')

def keypair_spec(seed):
    sb = shake.H(shake.bts(seed), 128)
    rho, rp, key = sb[:32], sb[32:96], sb[96:]
    s1 = [sym('S', seq(rp), i) for i in range(4)]; s2 = [sym('S', seq(rp), 4 + i) for i in range(4)]
    t = [radd(dot(rho, i, s1), s2[i]) for i in range(4)]
    return rho, key, s1, s2, t

def t_keypair(E):
    seed = inputs(E, 'seed', 32); pk = outbuf(E, 'pk', 1312); sk = outbuf(E, 'sk', 2560)
    r = E.run(P + 'crypto_sign_keypair_seed', (Ptr(pk, 0), Ptr(sk, 0), Ptr(seed, 0)))
    E.same(32, r, 0, 'crypto_sign_keypair_seed: success is 0')
    rho, key, s1, s2, t = keypair_spec(list(seed.cells))
    p = E.rd(Ptr(pk, 0), 1312); s = E.rd(Ptr(sk, 0), 2560)
    cmpb(E, p[:32], rho, 'public key: rho')
    t1 = []
    for i in range(4):
        a = whole(p[32 + 320 * i:352 + 320 * i], 'PACK_t1')
        E.post(1 if a is not None and a.a[1] in (sym('T1', t[i]), sym('T1~', t[i])) else 0, 'public key: t1 is the rounded A s1 + s2', 'row %d' % i)
        t1.append(a.a[1])
    cmpb(E, s[:32] + s[32:64] + s[64:128], rho + key + shake.H(shake.bts(p), 64), 'secret key: rho, key and the hash of the public key')
    for nm, kind, v, off in (('s1', 'eta', s1, 128), ('s2', 'eta', s2, 512), ('t0', 't0', [radd(a, b, -(1 << D)) for a, b in zip(t, t1)], 896)):
        for i in range(4):
            cmpb(E, s[off + psize(kind) * i:off + psize(kind) * (i + 1)], packbytes(kind, v[i]), 'secret key: packed ' + nm)
    E.cover('done')

def b_e2e(E):
    """what the signer releases under a generated key, the verifier accepts"""
    seed = inputs(E, 'seed', 32); pk = outbuf(E, 'pk', 1312); sk = outbuf(E, 'sk', 2560)
    E.run(P + 'crypto_sign_keypair_seed', (Ptr(pk, 0), Ptr(sk, 0), Ptr(seed, 0)))
    pk.ro = sk.ro = True
    m, mlen = message(E); sig = outbuf(E, 'sig', 2420); sl = outbuf(E, 'siglen', 8)
    E.log['sk'] = list(sk.cells); E.log['mlen'] = mlen
    E.post(tm.eq(32, run_sign(E, sig, sl, m, mlen, sk), 0), 'signing reports success')
    sig.ro = True
    r = E.run(P + 'crypto_sign_verify', (Ptr(sig, 0), E.load(Ptr(sl, 0), 8), Ptr(m, 0), mlen, Ptr(pk, 0)))
    E.same(32, r, 0, 'every released signature is accepted under the matching public key')
    E.cover('verified')

def tasks():
    C = contracts()
    kw = dict(engine_cls=DilEngine, weight=8)
    return [Task('crypto_sign_verify', P + 'crypto_sign_verify', t_verify, C, need_cover=('accept', 'reject'), **kw),
            Task('crypto_sign_signature', P + 'crypto_sign_signature', probed(b_sign), C, need_cover=('attempt', 'reject', 'release'), **kw),
            Task('crypto_sign_keypair_seed', P + 'crypto_sign_keypair_seed', t_keypair, C, need_cover=('done',), **kw),
            Task('keypair, sign, verify', P + 'crypto_sign_verify', probed(b_e2e), C, need_cover=('verified', 'hint lemma applied'), **kw)]
