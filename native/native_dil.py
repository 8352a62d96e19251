"""Native replay for the Dilithium properties C11..C15: the compiled real code against an independent Python reference."""
import sys, hashlib, ctypes as C, struct, os
import numpy as np
from nlib import *
which, work = sys.argv[1], sys.argv[2]
PX = 'PQCLEAN_DILITHIUM2_CLEAN_'
Q = 8380417; N = 256; G1 = 1 << 17; G2 = (Q - 1) // 88; K = L = 4; OM = 80; BETA = 78; TAU = 39
sz = C.c_size_t

def PB(v=None): return Buf(1024, struct.pack('<256i', *v) if v is not None else rb(1024))
def PG(b): return list(struct.unpack('<256i', b.get()))
def VB(vs): return Buf(1024 * len(vs), b''.join(struct.pack('<256i', *v) for v in vs))
def VG(b, n=4): d = b.get(); return [list(struct.unpack('<256i', d[1024 * i:1024 * i + 1024])) for i in range(n)]
def f(L, n): return getattr(L, PX + n)
def rv(lo, hi, edge=.15): return [(rng.choice((lo, hi, lo + 1, hi - 1)) if rng.random() < edge else rng.randint(lo, hi)) for _ in range(N)]
def oneat(i, x, base=0):
    v = [base] * N; v[i] = x; return v

# ---- reference ----
def polymul(a, b):
    a = np.array([x % Q for x in a], dtype=np.int64); b = np.array([x % Q for x in b], dtype=np.int64)
    r = np.zeros(N, dtype=np.int64)
    for i in range(N):
        if a[i] == 0: continue
        t = np.empty(N, dtype=np.int64); t[i:] = b[:N - i]; t[:i] = -b[N - i:] if i else 0
        r = (r + a[i] * t) % Q
    return [int(x) for x in r]
def padd(a, b): return [(x + y) % Q for x, y in zip(a, b)]
def cent(x): x %= Q; return x - Q if x > Q // 2 else x
def dec(a):
    r = a % (2 * G2)
    if r > G2: r -= 2 * G2
    return (0, r - 1) if a - r == Q - 1 else ((a - r) // (2 * G2), r)
def bits(vals, w):
    x = 0
    for i, v in enumerate(vals): x |= v << (w * i)
    return x.to_bytes(len(vals) * w // 8, 'little')
def unbits(b, w):
    x = int.from_bytes(b, 'little'); return [(x >> (w * i)) & ((1 << w) - 1) for i in range(len(b) * 8 // w)]
S128 = lambda m, n: hashlib.shake_128(m).digest(n)
S256 = lambda m, n: hashlib.shake_256(m).digest(n)
def nb(n): return struct.pack('<H', n & 0xffff)
def r_uniform(s):
    out = []
    for i in range(0, len(s) - 2, 3):
        t = (s[i] | s[i + 1] << 8 | s[i + 2] << 16) & 0x7fffff
        if t < Q: out.append(t)
        if len(out) == N: return out
def r_eta(s):
    out = []
    for b in s:
        for x in (b & 15, b >> 4):
            if x < 15 and len(out) < N: out.append(2 - x % 5)
        if len(out) == N: return out
def r_gamma1(s): return [G1 - x for x in unbits(s[:576], 18)]
def r_challenge(s):
    sg = int.from_bytes(s[:8], 'little'); c = [0] * N; p = 8
    for i in range(N - TAU, N):
        while s[p] > i: p += 1
        b = s[p]; p += 1
        c[i] = c[b]; c[b] = 1 - 2 * (sg & 1); sg >>= 1
    return c
def mat(rho): return [[r_uniform(S128(rho + nb((i << 8) + j), 168 * 12)) for j in range(L)] for i in range(K)]
# the library treats the expanded matrix as being in its transformed (bit-reversed evaluation) domain
def brv(i): return int('{:08b}'.format(i)[::-1], 2)
ZE = [pow(1753, 2 * brv(i) + 1, Q) for i in range(N)]
VAND = None
def ntt(a):
    """evaluations in the library's order: position i holds a(root_i)"""
    global VAND
    if VAND is None: VAND = np.array([[pow(z, j, Q) for j in range(N)] for z in ORD], dtype=np.int64)
    a = np.array([x % Q for x in a], dtype=np.int64)
    return [int(x) for x in ((VAND * a) % Q).sum(axis=1) % Q]
def order():
    # butterfly order of the standard Dilithium transform: splitting X^2n - z^2 into X^n - z, X^n + z
    res = [None] * N
    def go(lo, n, e):  # polynomial X^n - r^e on positions lo..lo+n
        if n == 1: res[lo] = pow(1753, e, Q); return
        go(lo, n // 2, e // 2); go(lo + n // 2, n // 2, e // 2 + 256)
    go(0, N, 256)
    return res
ORD = order()
IV = None
def intt(a):
    """inverse of ntt (by Lagrange: X^256+1 roots are closed under odd powers)"""
    global IV
    if IV is None:
        ninv = pow(256, Q - 2, Q)
        IV = np.array([[pow(pow(z, Q - 2, Q), j, Q) * ninv % Q for z in ORD] for j in range(N)], dtype=np.int64)
    a = np.array([x % Q for x in a], dtype=np.int64)
    return [int(x) for x in ((IV * a) % Q).sum(axis=1) % Q]
def mvec(A, v):
    vh = [ntt(x) for x in v]
    out = []
    for i in range(K):
        acc = [0] * N
        for j in range(L): acc = [(x + y * w) % Q for x, y, w in zip(acc, A[i][j], vh[j])]
        out.append(intt(acc))
    return out
def hint_ok(hb):
    """decoded hint vector or None"""
    k = 0; h = [[0] * N for _ in range(K)]
    for i in range(K):
        c = hb[OM + i]
        if c < k or c > OM: return None
        for j in range(k, c):
            if j > k and hb[j] <= hb[j - 1]: return None
            h[i][hb[j]] = 1
        k = c
    if any(hb[k:OM]): return None
    return h
def r_verify(sig, m, pk):
    if len(sig) != 2420: return False
    c = sig[:32]; z = [[G1 - x for x in unbits(sig[32 + 576 * i:608 + 576 * i], 18)] for i in range(L)]
    h = hint_ok(sig[32 + 576 * 4:])
    if h is None: return False
    if any(abs(x) >= G1 - BETA for p in z for x in p): return False
    mu = S256(S256(pk, 64) + m, 64)
    cp = r_challenge(S256(c, 136 * 8))
    t1 = [unbits(pk[32 + 320 * i:352 + 320 * i], 10) for i in range(K)]
    w = mvec(mat(pk[:32]), z); buf = b''
    for i in range(K):
        ct = polymul(cp, [x << 13 for x in t1[i]]); row = []
        for x, y, hh in zip(w[i], ct, h[i]):
            hi, lo = dec((x - y) % Q)
            row.append((hi + (1 if lo > 0 else 43)) % 44 if hh else hi)
        buf += bits(row, 6)
    return S256(mu + buf, 32) == c
def sk_parts(sk):
    o = 128; s1 = []; s2 = []; t0 = []
    for i in range(L): s1.append([2 - x for x in unbits(sk[o:o + 96], 3)]); o += 96
    for i in range(K): s2.append([2 - x for x in unbits(sk[o:o + 96], 3)]); o += 96
    for i in range(K): t0.append([4096 - x for x in unbits(sk[o:o + 416], 13)]); o += 416
    return sk[:32], sk[32:64], sk[64:128], s1, s2, t0
def r_sign(sk, m, limit=60):
    rho, key, tr, s1, s2, t0 = sk_parts(sk)
    mu = S256(tr + m, 64); rp = S256(key + bytes(32) + mu, 64); A = mat(rho)
    for kappa in range(limit):
        y = [r_gamma1(S256(rp + nb(L * kappa + i), 576)) for i in range(L)]
        w = mvec(A, y)
        d = [[dec(x) for x in p] for p in w]
        c = S256(mu + b''.join(bits([x[0] for x in p], 6) for p in d), 32); cp = r_challenge(S256(c, 136 * 8))
        z = [[cent(a + b) for a, b in zip(polymul(cp, s1[i]), y[i])] for i in range(L)]
        if any(abs(x) >= G1 - BETA for p in z for x in p): continue
        w0 = [[cent(a[1] - b) for a, b in zip(d[i], polymul(cp, s2[i]))] for i in range(K)]
        if any(abs(x) >= G2 - BETA for p in w0 for x in p): continue
        ct0 = [[cent(x) for x in polymul(cp, t0[i])] for i in range(K)]
        if any(abs(x) >= G2 for p in ct0 for x in p): continue
        h = [[int(a + b > G2 or a + b < -G2 or (a + b == -G2 and e[0] != 0)) for a, b, e in zip(w0[i], ct0[i], d[i])] for i in range(K)]
        if sum(map(sum, h)) > OM: continue
        hb = bytearray(OM + K); k = 0
        for i in range(K):
            for j in range(N):
                if h[i][j]: hb[k] = j; k += 1
            hb[OM + i] = k
        return c + b''.join(bits([G1 - x for x in p], 18) for p in z) + bytes(hb)

# ---- C11 ----
def arith(about):
    Lb = compile_so(work, 'sw.so', [os.path.join(HERE, 'dil_sweep.c')], cflags=('-O2',))
    import threading
    about('scalar sweeps'); res = []
    def one(w):
        msg = C.create_string_buffer(500)
        if Lb.sweep(w, msg, C.c_uint64(SEED)): res.append(msg.value.decode())
    ts = [threading.Thread(target=one, args=(w,)) for w in range(8)]
    for t in ts: t.start()
    for t in ts: t.join()
    if res: fail(' ; '.join(res))
    polys(about)
def polys(about):
    L = compile_so(work, 'all.so', cflags=('-ftrapv',))
    HI = 2**31 - 1 - (1 << 22)
    for it in range(260):
        i = it % N
        about('polynomial functions, iteration %d' % it)
        for nm, lo, hi, ref in (('reduce', -2**31, HI, None), ('caddq', -Q + 1, Q - 1, lambda x: x + Q if x < 0 else x), ('shiftl', 0, 1023, lambda x: x << 13)):
            v = rv(lo, hi) if it % 2 else oneat(i, rng.choice((lo, hi)), rng.randint(lo, hi)); b = PB(v); f(L, 'poly_' + nm)(b.p); o = PG(b)
            for x, y in zip(v, o):
                if (ref and y != ref(x)) or (not ref and ((x - y) % Q or not -6283009 <= y <= 6283008)): fail('poly_%s maps coefficient %d to %d' % (nm, x, y))
        a = rv(-2**30, 2**30); b = rv(-2**30 + 1, 2**30 - 1)
        for nm, g in (('add', lambda x, y: x + y), ('sub', lambda x, y: x - y)):
            for alias in (0, 1, 2):
                A, B, Cc = PB(a), PB(b), PB(); Cc = (Cc, A, B)[alias]; f(L, 'poly_' + nm)(Cc.p, A.p, B.p)
                if PG(Cc) != [g(x, y) for x, y in zip(a, b)]: fail('poly_%s is wrong (operands %s ...)' % (nm, list(zip(a, b))[:4]))
        v = rv(0, Q - 1) if it % 2 else [rng.choice((Q - 1, 0, G2, G2 + 1, 87 * G2, 87 * G2 + 1, 4096, 4097)) for _ in range(N)]
        A0, A1 = PB(), PB(); f(L, 'poly_power2round')(A1.p, A0.p, PB(v).p)
        for x, h, l in zip(v, PG(A1), PG(A0)):
            if h * 8192 + l != x or not -4096 < l <= 4096: fail('poly_power2round of %d gives (%d, %d)' % (x, h, l))
        for al in (0, 1):
            A0, A1 = PB(), PB(); V = PB(v); A1 = V if al else A1; f(L, 'poly_decompose')(A1.p, A0.p, V.p)
            if list(zip(PG(A1), PG(A0))) != [dec(x) for x in v]: fail('poly_decompose is wrong on %s' % v)
        h = [rng.choice((0, 1)) for _ in range(N)]; B = PB(); f(L, 'poly_use_hint')(B.p, PB(v).p, PB(h).p)
        for x, hh, o in zip(v, h, PG(B)):
            hi, lo = dec(x); w = (hi + (1 if lo > 0 else 43)) % 44 if hh else hi
            if o != w: fail('poly_use_hint(%d, %d) = %d, specified %d' % (x, hh, o, w))
        a0 = [rng.choice((G2, G2 + 1, -G2, -G2 - 1, 0, -G2 + 1, rng.randint(-2 * G2, 2 * G2))) for _ in range(N)]; a1 = [rng.choice((0, 0, 1, 43, rng.randint(0, 43))) for _ in range(N)]
        w = [int(x > G2 or x < -G2 or (x == -G2 and y != 0)) for x, y in zip(a0, a1)]; B = PB(); n = f(L, 'poly_make_hint')(B.p, PB(a0).p, PB(a1).p)
        if PG(B) != w or n != sum(w): fail('poly_make_hint is wrong: count %d for %d hints' % (n, sum(w)))
        for bd in (G1 - BETA, G2 - BETA, G2, 1, (Q - 1) // 8):
            for x in (bd, -bd, bd - 1, 1 - bd, Q - 1 if bd == G2 else bd + 1, -(Q - 1)):
                v = oneat(i, x); r = f(L, 'poly_chknorm')(PB(v).p, C.c_int32(bd))
                if bool(r) != (abs(x) >= bd): fail('poly_chknorm with bound %d and coefficient %d = %d returns %d' % (bd, i, x, r))
        if f(L, 'poly_chknorm')(PB([0] * N).p, C.c_int32((Q - 1) // 8 + 1)) == 0: fail('poly_chknorm accepts a bound above (q-1)/8')
        k = it % 4; bd = (G1 - BETA, G2)[it % 2]
        for nm in ('polyvecl', 'polyveck'):
            vs = [[0] * N for _ in range(4)]; vs[k][i] = rng.choice((bd, -bd))
            if not f(L, nm + '_chknorm')(VB(vs).p, C.c_int32(bd)): fail('%s_chknorm misses coefficient %d of polynomial %d at the bound' % (nm, i, k))
            vs[k][i] = bd - 1
            if f(L, nm + '_chknorm')(VB(vs).p, C.c_int32(bd)): fail('%s_chknorm rejects a vector below the bound' % nm)
    vecs(about, L)
def vecs(about, L):
    for it in range(12):
        about('vector functions')
        for n in ('l', 'k'):
            a = [rv(-2**30, 2**30) for _ in range(4)]; b = [rv(-2**30 + 1, 2**30 - 1) for _ in range(4)]
            A = VB(a); f(L, 'polyvec%s_reduce' % n)(A.p)
            for x, y in zip(sum(a, []), sum(VG(A), [])):
                if (x - y) % Q or not -6283009 <= y <= 6283008: fail('polyvec%s_reduce maps %d to %d' % (n, x, y))
            A = VB(a); f(L, 'polyvec%s_add' % n)(A.p, A.p, VB(b).p)
            if VG(A) != [[x + y for x, y in zip(p, q)] for p, q in zip(a, b)]: fail('polyvec%s_add is wrong' % n)
        A = VB(a); f(L, 'polyveck_sub')(A.p, A.p, VB(b).p)
        if VG(A) != [[x - y for x, y in zip(p, q)] for p, q in zip(a, b)]: fail('polyveck_sub is wrong')
        a = [rv(-Q + 1, Q - 1) for _ in range(4)]; A = VB(a); f(L, 'polyveck_caddq')(A.p)
        if VG(A) != [[x + Q if x < 0 else x for x in p] for p in a]: fail('polyveck_caddq is wrong')
        a = [rv(0, 1023) for _ in range(4)]; A = VB(a); f(L, 'polyveck_shiftl')(A.p)
        if VG(A) != [[x << 13 for x in p] for p in a]: fail('polyveck_shiftl is wrong')
        a = [rv(0, Q - 1) for _ in range(4)]; A = VB(a); B = Buf(4096); f(L, 'polyveck_decompose')(A.p, B.p, A.p)
        if [list(zip(x, y)) for x, y in zip(VG(A), VG(B))] != [[dec(x) for x in p] for p in a]: fail('polyveck_decompose is wrong')
        A = VB(a); B = Buf(4096); f(L, 'polyveck_power2round')(A.p, B.p, A.p)
        for p, h, l in zip(a, VG(A), VG(B)):
            for x, y, z in zip(p, h, l):
                if y * 8192 + z != x or not -4096 < z <= 4096: fail('polyveck_power2round of %d gives (%d, %d)' % (x, y, z))
        h = [[rng.choice((0, 1)) for _ in range(N)] for _ in range(4)]; B = VB(a); f(L, 'polyveck_use_hint')(B.p, B.p, VB(h).p)
        for p, hh, o in zip(a, h, VG(B)):
            for x, y, z in zip(p, hh, o):
                hi, lo = dec(x); w = (hi + (1 if lo > 0 else 43)) % 44 if y else hi
                if z != w: fail('polyveck_use_hint(%d, %d) = %d' % (x, y, z))
        a0 = [[rng.choice((G2, G2 + 1, -G2, -G2 - 1, 0, rng.randint(-2 * G2, 2 * G2))) for _ in range(N)] for _ in range(4)]; a1 = [[rng.choice((0, 1, 43)) for _ in range(N)] for _ in range(4)]
        w = [[int(x > G2 or x < -G2 or (x == -G2 and y != 0)) for x, y in zip(p, q)] for p, q in zip(a0, a1)]; B = Buf(4096); n = f(L, 'polyveck_make_hint')(B.p, VB(a0).p, VB(a1).p)
        if VG(B) != w or n != sum(map(sum, w)): fail('polyveck_make_hint is wrong (count %d, %d hints)' % (n, sum(map(sum, w))))

# ---- C12 ----
KINDS = {'polyeta': (-2, 2, 3, lambda x: 2 - x, 96), 'polyt1': (0, 1023, 10, lambda x: x, 320), 'polyt0': (-4095, 4096, 13, lambda x: 4096 - x, 416), 'polyz': (-(G1 - 1), G1, 18, lambda x: G1 - x, 576)}
def packing(about):
    L = compile_so(work, 'all.so')
    for it in range(520):
        for nm, (lo, hi, w, enc, n) in KINDS.items():
            v = rv(lo, hi) if it % 2 else oneat(it // 2 % N, rng.choice((lo, hi)), rng.randint(lo, hi)); o = Buf(n, rb(n)); about('%s_pack' % nm); f(L, nm + '_pack')(o.p, PB(v).p)
            if o.get() != bits([enc(x) for x in v], w): fail('%s_pack of %s is wrong' % (nm, v))
            d = rb(n) if nm != 'polyeta' else o.get(); r = PB(); f(L, nm + '_unpack')(r.p, Buf(n, d, ro=True).p)
            inv = [enc(x) for x in unbits(d, w)]
            if PG(r) != inv: fail('%s_unpack of %s is wrong' % (nm, d.hex()))
        v = rv(0, 43); o = Buf(192); f(L, 'polyw1_pack')(o.p, PB(v).p)
        if o.get() != bits(v, 6): fail('polyw1_pack of %s is wrong' % v)
    for it in range(20):
        about('vector packing')
        v = [rv(0, 43) for _ in range(4)]; o = Buf(768); f(L, 'polyveck_pack_w1')(o.p, VB(v).p)
        if o.get() != b''.join(bits(p, 6) for p in v): fail('polyveck_pack_w1 is wrong')
        rho, key, tr = rb(32), rb(32), rb(64); t1 = [rv(0, 1023) for _ in range(4)]; t0 = [rv(-4095, 4096) for _ in range(4)]; s1 = [rv(-2, 2) for _ in range(4)]; s2 = [rv(-2, 2) for _ in range(4)]
        pk = Buf(1312); f(L, 'pack_pk')(pk.p, Buf(32, rho).p, VB(t1).p); e = rho + b''.join(bits(p, 10) for p in t1)
        if pk.get() != e: fail('pack_pk is wrong')
        r, t = Buf(32), Buf(4096); f(L, 'unpack_pk')(r.p, t.p, pk.p)
        if r.get() != rho or VG(t) != t1: fail('unpack_pk does not invert pack_pk')
        sk = Buf(2560); f(L, 'pack_sk')(sk.p, Buf(32, rho).p, Buf(64, tr).p, Buf(32, key).p, VB(t0).p, VB(s1).p, VB(s2).p)
        if sk.get() != rho + key + tr + b''.join(bits([2 - x for x in p], 3) for p in s1 + s2) + b''.join(bits([4096 - x for x in p], 13) for p in t0): fail('pack_sk is wrong')
        R, TR, KY, A, B, D = Buf(32), Buf(64), Buf(32), Buf(4096), Buf(4096), Buf(4096); f(L, 'unpack_sk')(R.p, TR.p, KY.p, A.p, B.p, D.p, sk.p)
        if (R.get(), TR.get(), KY.get(), VG(A), VG(B), VG(D)) != (rho, tr, key, t0, s1, s2): fail('unpack_sk does not invert pack_sk')
    for it in range(4000):
        tot = rng.choice((0, 1, 2, 79, 80, 80, rng.randint(0, 80))); cuts = sorted(rng.randint(0, tot) for _ in range(3)) + [tot]
        if rng.random() < .3: cuts = sorted(rng.choice((0, tot)) for _ in range(3)) + [tot]
        hb = bytearray(84); k = 0
        for i, c in enumerate(cuts):
            pos = sorted(rng.sample(range(256), c - k)) if rng.random() < .7 else list(range(256 - (c - k), 256))
            hb[k:c] = bytes(pos); hb[80 + i] = c; k = c
        mut = rng.randrange(9)
        if mut == 1 and tot > 1: a = rng.randrange(tot - 1); hb[a], hb[a + 1] = hb[a + 1], hb[a]
        elif mut == 2 and tot > 1: a = rng.randrange(tot - 1); hb[a + 1] = hb[a]
        elif mut == 3 and tot < 80: hb[rng.choice((tot, 79, rng.randrange(tot, 80)))] = rng.choice((1, 255, 128))
        elif mut == 4: hb[80 + rng.randrange(4)] = rng.choice((81, 255, 80, 128))
        elif mut == 5: a = 80 + rng.randrange(4); hb[a] = max(0, hb[a] - 1)
        elif mut == 6: a = 80 + rng.randrange(4); hb[a] = min(255, hb[a] + 1)
        elif mut == 7: hb[rng.randrange(84)] = rng.randrange(256)
        c, z = rb(32), rb(576 * 4); sig = c + z + bytes(hb); about('unpack_sig with hint section %s' % hb.hex())
        cb, zb, hbuf = Buf(32), Buf(4096), Buf(4096, rb(4096)); r = f(L, 'unpack_sig')(cb.p, zb.p, hbuf.p, Buf(2420, sig, ro=True).p); ref = hint_ok(hb)
        if (r == 0) != (ref is not None): fail('unpack_sig returns %d for the hint section %s (canonical: %s)' % (r, hb.hex(), ref is not None))
        if r == 0:
            if VG(hbuf) != ref or cb.get() != c or VG(zb) != [[G1 - x for x in unbits(z[576 * i:576 * i + 576], 18)] for i in range(4)]: fail('unpack_sig decodes the hint section %s wrongly' % hb.hex())
            o = Buf(2420); f(L, 'pack_sig')(o.p, cb.p, zb.p, hbuf.p)
            if o.get() != sig: fail('packing the decoded signature does not give the same bytes; hint section %s' % hb.hex())
        if mut == 0 and r: fail('unpack_sig rejects the canonical hint section %s' % hb.hex())

# ---- C13 ----
def transform(about):
    L = compile_so(work, 'all.so', cflags=('-ftrapv',))
    R = pow(2, 32, Q)
    for it in range(120):
        hi = (Q - 1, 8 * Q, 3 * Q // 2, G1, 2)[it % 5]; hi = min(hi, Q * 8)
        a = rv(-Q + 1, Q - 1, .5) if it % 3 else [rng.choice((-Q + 1, Q - 1)) for _ in range(N)]
        if it < 20: a = oneat(it * 12 % N, Q - 1)
        b = PB(a); about('poly_ntt of %s' % a); f(L, 'poly_ntt')(b.p); o = PG(b)
        if [x % Q for x in o] != ntt(a): fail('poly_ntt of %s is not its evaluation at the roots of unity' % a)
        if any(abs(x) >= 9 * Q for x in o): fail('poly_ntt of %s leaves a coefficient beyond the bound' % a)
        b = PB(a); about('poly_invntt_tomont of %s' % a); f(L, 'poly_invntt_tomont')(b.p); o = PG(b)
        if [x % Q for x in o] != [x * R % Q for x in intt(a)]: fail('poly_invntt_tomont of %s is not the inverse transform times 2^32' % a)
        if any(abs(x) >= Q for x in o): fail('poly_invntt_tomont of %s leaves a coefficient not below q' % a)
        y = rv(-Q + 1, Q - 1, .5); A, B, Cc = PB(a), PB(y), PB(); about('product'); f(L, 'poly_ntt')(A.p); f(L, 'poly_ntt')(B.p); f(L, 'poly_pointwise_montgomery')(Cc.p, A.p, B.p); f(L, 'poly_invntt_tomont')(Cc.p)
        if [x % Q for x in PG(Cc)] != polymul(a, y): fail('transform, pointwise product, inverse transform of %s and %s is not their product' % (a, y))
    for it in range(10):
        u = [rv(-Q + 1, Q - 1) for _ in range(4)]; v = [rv(-9 * Q + 1, 9 * Q - 1) for _ in range(4)]; w = PB(); Ri = pow(R, Q - 2, Q); about('pointwise_acc')
        f(L, 'polyvecl_pointwise_acc_montgomery')(w.p, VB(u).p, VB(v).p)
        if [x % Q for x in PG(w)] != [sum(u[k][i] * v[k][i] for k in range(4)) * Ri % Q for i in range(N)]: fail('polyvecl_pointwise_acc_montgomery is wrong')
        M = [[rv(0, Q - 1) for _ in range(4)] for _ in range(4)]; T = Buf(4096); f(L, 'polyvec_matrix_pointwise_montgomery')(T.p, VB(sum(M, [])).p, VB(v).p)
        if [[x % Q for x in p] for p in VG(T)] != [[sum(M[r][k][i] * v[k][i] for k in range(4)) * Ri % Q for i in range(N)] for r in range(4)]: fail('polyvec_matrix_pointwise_montgomery is wrong')
        for n in 'lk':
            T = Buf(4096); c = rv(-9 * Q + 1, 9 * Q - 1); f(L, 'polyvec%s_pointwise_poly_montgomery' % n)(T.p, PB(c).p, VB(u).p)
            if [[x % Q for x in p] for p in VG(T)] != [[c[i] * u[k][i] * Ri % Q for i in range(N)] for k in range(4)]: fail('polyvec%s_pointwise_poly_montgomery is wrong' % n)
            T = VB(u); f(L, 'polyvec%s_ntt' % n)(T.p)
            if [[x % Q for x in p] for p in VG(T)] != [ntt(p) for p in u]: fail('polyvec%s_ntt is wrong' % n)
            T = VB(u); f(L, 'polyvec%s_invntt_tomont' % n)(T.p)
            if [[x % Q for x in p] for p in VG(T)] != [[x * R % Q for x in intt(p)] for p in u]: fail('polyvec%s_invntt_tomont is wrong' % n)

# ---- C14 ----
def streams(kind):
    """adversarial SHAKE output streams"""
    p = rng.choice((0, 0, .02, .1, .3, .5, .7, .9)); n = 4096
    bad = [rng.random() < p for _ in range(n)]
    mode = rng.randrange(4)
    if mode == 1:
        a = rng.choice((250, 260, 272, 278, 279, 280, 135, 136, 137, 134, 56)); w = rng.randint(1, 40)
        for i in range(a, a + w): bad[i] = True
    if mode == 2:
        j = rng.randint(1, 300); bad[:j] = [True] * j
    out = bytearray()
    if kind == 'uniform':
        for i in range(n):
            t = rng.choice((Q, Q + 1, 0x7fffff, rng.randint(Q, 0x7fffff))) if bad[i] else rng.choice((0, 1, Q - 1, rng.randrange(Q), rng.randrange(Q)))
            out += (t | rng.choice((0, 1)) << 23).to_bytes(3, 'little')
    elif kind == 'eta':
        for i in range(n // 2): out.append((15 if bad[2 * i] else rng.randrange(15)) | (15 if bad[2 * i + 1] else rng.randrange(15)) << 4)
    else:
        out += rng.randbytes(n)
        if kind == 'challenge':
            for i in range(8, n): out[i] = rng.randrange(218, 256) if bad[i] else rng.choice((rng.randrange(256), rng.randrange(217, 256), 255, 217, out[i - 1], 0))
    return bytes(out)
def sampling(about):
    L = compile_so(work, 'ms.so', [os.path.join(HERE, 'mocks_shake.c')], muldefs=True)
    g = lambda n, t=C.c_int: t.in_dll(L, n)
    ms = (C.c_ubyte * (1 << 17)).in_dll(L, 'ms_stream'); mi = (C.c_ubyte * (1 << 16)).in_dll(L, 'ms_in')
    for it in range(900):
        for kind, fn, sl, fam, ref in (('uniform', 'poly_uniform', 32, 128, r_uniform), ('eta', 'poly_uniform_eta', 64, 256, r_eta), ('gamma1', 'poly_uniform_gamma1', 64, 256, r_gamma1), ('challenge', 'poly_challenge', 32, 256, r_challenge)):
            s = streams(kind); want = ref(s)
            if want is None: continue
            C.memmove(ms, s, len(s)); seed = rb(sl); nonce = rng.choice((0, 1, 255, 256, 0xffff, rng.randrange(65536))); a = PB(); g('ms_live').value = 0; g('ms_bad').value = 0
            about('%s nonce %d stream %s' % (fn, nonce, s[:1200].hex()))
            if kind == 'challenge': f(L, fn)(a.p, Buf(32, seed, ro=True).p); exp = seed
            else: f(L, fn)(a.p, Buf(sl, seed, ro=True).p, C.c_uint16(nonce)); exp = seed + nb(nonce)
            if PG(a) != want:
                j = [x == y for x, y in zip(PG(a), want)].index(False); fail('%s: coefficient %d is %d, the specification gives %d for the SHAKE stream %s' % (fn, j, PG(a)[j], want[j], s[:1400].hex()))
            if bytes(mi[:g('ms_inlen', sz).value]) != exp or g('ms_kind').value != fam or g('ms_bad').value: fail('%s hashes other bytes than seed and nonce' % fn)
            if g('ms_live').value: fail('%s leaves %d hash contexts' % (fn, g('ms_live').value))
    L = compile_so(work, 'all.so')
    for it in range(20):
        about('vector samplers')
        rho = rb(32); M = Buf(16384); f(L, 'polyvec_matrix_expand')(M.p, Buf(32, rho).p)
        if VG(M, 16) != sum(mat(rho), []): fail('polyvec_matrix_expand of %s is wrong' % rho.hex())
        sd = rb(64); n = rng.choice((0, 4, 255, 16382, rng.randrange(16000)))
        for nm in 'lk':
            V = Buf(4096); f(L, 'polyvec%s_uniform_eta' % nm)(V.p, Buf(64, sd).p, C.c_uint16(n))
            if VG(V) != [r_eta(S256(sd + nb(n + i), 136 * 8)) for i in range(4)]: fail('polyvec%s_uniform_eta with nonce %d, seed %s is wrong' % (nm, n, sd.hex()))
        V = Buf(4096); f(L, 'polyvecl_uniform_gamma1')(V.p, Buf(64, sd).p, C.c_uint16(n))
        if VG(V) != [r_gamma1(S256(sd + nb(4 * n + i), 576)) for i in range(4)]: fail('polyvecl_uniform_gamma1 with nonce %d, seed %s is wrong' % (n, sd.hex()))

# ---- C15 ----
def scheme(about):
    L = compile_so(work, 'all.so')
    for it in range(6):
        seed = rb(32); pk, sk = Buf(1312), Buf(2560); about('keypair from seed %s' % seed.hex())
        if f(L, 'crypto_sign_keypair_seed')(pk.p, sk.p, Buf(32, seed, ro=True).p): fail('key generation fails for seed %s' % seed.hex())
        PK, SK = pk.get(), sk.get(); e = S256(seed, 128); rho, rp, key = e[:32], e[32:96], e[96:]
        r, k2, tr, s1, s2, t0 = sk_parts(SK); t1 = [unbits(PK[32 + 320 * i:352 + 320 * i], 10) for i in range(K)]
        if (r, k2, tr, PK[:32]) != (rho, key, S256(PK, 64), rho): fail('key pair of seed %s: rho, key or tr is wrong' % seed.hex())
        if s1 != [r_eta(S256(rp + nb(i), 136 * 8)) for i in range(4)] or s2 != [r_eta(S256(rp + nb(4 + i), 136 * 8)) for i in range(4)]: fail('key pair of seed %s: short vectors are wrong' % seed.hex())
        w = mvec(mat(rho), s1)
        for i in range(K):
            for x, y, a, b in zip(w[i], s2[i], t1[i], t0[i]):
                if (x + y - a * 8192 - b) % Q or not -4096 < b <= 4096: fail('key pair of seed %s: t1 * 2^13 + t0 is not A s1 + s2' % seed.hex())
        hon = []
        for ml in (0, 1, 64, 33, 300):
            m = rb(ml); sg = Buf(2420, rb(2420)); n = sz(7); about('signature of the %d-byte message %s under seed %s' % (ml, m.hex(), seed.hex()))
            r = f(L, 'crypto_sign_signature')(sg.p, C.byref(n), Buf(ml, m, ro=True).p, sz(ml), Buf(2560, SK, ro=True).p)
            if r or n.value != 2420: fail('signing returns %d with length %d' % (r, n.value))
            if sg.get() != r_sign(SK, m): fail('the signature of the message %s under the key of seed %s is not the specified one' % (m.hex(), seed.hex()))
            hon.append((m, sg.get()))
            if f(L, 'crypto_sign_verify')(sg.p, sz(2420), Buf(ml, m, ro=True).p, sz(ml), pk.p): fail('the honest signature of %s under seed %s is refused' % (m.hex(), seed.hex()))
        def ver(s, m, p, what):
            about('verify: ' + what); r = f(L, 'crypto_sign_verify')(Buf(len(s), s, ro=True).p, sz(len(s)), Buf(len(m), m, ro=True).p, sz(len(m)), Buf(1312, p, ro=True).p)
            if (r == 0) != r_verify(s, m, p): fail('verification returns %d for %s; signature %s message %s key %s' % (r, what, s.hex(), m.hex(), p.hex()))
        for rep in range(60):
            m, s = rng.choice(hon); sb = bytearray(s); k = rng.randrange(8); mm = m; p = PK; what = 'an honest signature'
            if k == 0: sb[rng.randrange(32)] ^= 1 << rng.randrange(8); what = 'a changed challenge'
            elif k == 1: sb[32 + rng.randrange(2304)] ^= 1 << rng.randrange(8); what = 'a changed response'
            elif k == 2: sb[2336 + rng.randrange(84)] ^= 1 << rng.randrange(8); what = 'a changed hint'
            elif k == 3: sb = sb[:-1]; what = 'a truncated signature'
            elif k == 4 and m: mm = bytearray(m); mm[rng.choice((0, len(m) - 1))] ^= 128; mm = bytes(mm); what = 'a changed message'
            elif k == 5: mm = m + b'\0'; what = 'an extended message'
            elif k == 6: p = bytearray(PK); p[rng.randrange(1312)] ^= 1; p = bytes(p); what = 'a changed key'
            elif k == 7: sb = sb + b'\0'; what = 'an extended signature'
            ver(bytes(sb), mm, p, what)
    for it in range(25000):
        m = rng.randbytes(8)
        if it == 0: S1 = Buf(2420); MB = Buf(8); SKB = Buf(2560, SK, ro=True); n = sz(0); about('many signatures')
        MB.set(m); f(L, 'crypto_sign_signature')(S1.p, C.byref(n), MB.p, sz(8), SKB.p)
        hb = S1.get()[2336:]
        if hb[83] > 80 or (it % 16 == 0 and hint_ok(hb) is None): fail('the signature of %s under the key of seed %s has the malformed hint section %s' % (m.hex(), seed.hex(), hb.hex()))
    # signatures forged with the secret key so that exactly one acceptance condition fails
    r, k2, tr, s1, s2, t0 = sk_parts(SK); A = mat(r); cnt = 0
    for it in range(108):
        m = rb(20); mu = S256(tr + m, 64); y = [rv(-G1 + 1, G1, 0) for _ in range(4)]
        big = it % 4
        if big == 0:
            for p in y:
                for i in range(N): p[i] = rng.randint(-G1 + 300, G1 - 300)
            y[rng.randrange(4)][rng.choice((0, 255, rng.randrange(256)))] = rng.choice((1, -1)) * (G1 - rng.randint(0, 160))
        else:
            for p in y:
                for i in range(N): p[i] = rng.randint(-G1 + 300, G1 - 300)
        w = mvec(A, y); d = [[dec(x) for x in p] for p in w]
        c = S256(mu + b''.join(bits([x[0] for x in p], 6) for p in d), 32)
        if it >= 40: c = bytearray(c); c[31 - (it - 40) % 32] ^= 1 << rng.randrange(8); c = bytes(c)      # a challenge other than the recomputed one, used consistently
        cp = r_challenge(S256(c, 136 * 8))
        z = [[cent(a + b) for a, b in zip(polymul(cp, s1[i]), y[i])] for i in range(4)]
        if any(not -G1 < x <= G1 for p in z for x in p): continue
        hb = bytearray(84); k = 0; ok = True
        for i in range(4):
            cs2 = polymul(cp, s2[i]); ct0 = polymul(cp, t0[i])
            for j in range(N):
                v = (w[i][j] - cs2[j] + ct0[j]) % Q
                if dec(v)[0] != d[i][j][0]:
                    hi, lo = dec(v)
                    if (hi + (1 if lo > 0 else 43)) % 44 != d[i][j][0] or k >= 80: ok = False; break
                    hb[k] = j; k += 1
            hb[80 + i] = k
        if not ok: continue
        s = c + b''.join(bits([G1 - x for x in p], 18) for p in z) + bytes(hb); cnt += 1
        about('verify of a signature with large response'); rr = f(L, 'crypto_sign_verify')(Buf(2420, s, ro=True).p, sz(2420), Buf(20, m).p, sz(20), Buf(1312, PK).p)
        if (rr == 0) != r_verify(s, m, PK): fail('verification returns %d for a signature whose largest response coefficient is %d (bound %d); signature %s message %s key %s' % (rr, max(abs(x) for p in z for x in p), G1 - BETA, s.hex(), m.hex(), PK.hex()))
        if k and k < 80:
            h2 = bytearray(hb)
            if big == 1: h2[79] = 1
            elif big == 2 and k < 79:   # repeat the last position
                h2[k] = h2[k - 1]; h2[83] = k + 1
            elif big == 3 and k > 1: h2[0], h2[1] = h2[1], h2[0]
            s2_ = s[:2336] + bytes(h2); rr = f(L, 'crypto_sign_verify')(Buf(2420, s2_, ro=True).p, sz(2420), Buf(20, m).p, sz(20), Buf(1312, PK).p)
            if (rr == 0) != r_verify(s2_, m, PK): fail('verification returns %d for a non-canonical hint encoding %s' % (rr, h2.hex()))
RUN = {'C11': [arith], 'C12': [packing], 'C13': [transform], 'C14': [sampling], 'C15': [scheme, packing, sampling, transform, polys]}
for fn in RUN[which]:
    if guarded(fn): sys.exit(1)
print('no failing input found')
