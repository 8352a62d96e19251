"""Native replay for tweetnacl.c: Ed25519 and SHA-512 (C18), field/group/scalar arithmetic (C19), boxes (C20), against Python references."""
import sys, hashlib, ctypes as C
from nlib import *
which, work = sys.argv[1], sys.argv[2]
P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P
I = pow(2, (P - 1) // 4, P)
u64 = C.c_ulonglong; i64 = C.c_longlong
WR = '''
#include "%s"
void v_M(i64*o,i64*a,i64*b){M(o,a,b);}
void v_S(i64*o,i64*a){S(o,a);}
void v_pack25519(u8*o,i64*n){pack25519(o,n);}
void v_unpack25519(i64*o,u8*n){unpack25519(o,n);}
void v_inv(i64*o,i64*a){inv25519(o,a);}
void v_pow(i64*o,i64*a){pow2523(o,a);}
void v_reduce(u8*r){reduce(r);}
void v_modL(u8*r,i64*x){modL(r,x);}
void v_add(i64*p,i64*q){add((gf*)p,(gf*)q);}
void v_scalarmult(i64*p,i64*q,u8*s){scalarmult((gf*)p,(gf*)q,s);}
void v_scalarbase(i64*p,u8*s){scalarbase((gf*)p,s);}
void v_pack(u8*r,i64*p){pack(r,(gf*)p);}
int v_unpackneg(i64*r,u8*p){return unpackneg((gf*)r,p);}
'''
def lib():
    src = os.path.join(work, 'wrap.c'); t = os.path.join(REPO, 'tweetnacl/tweetnacl.c')
    lines = WR.split('\n')
    open(src, 'w').write(WR % t)
    try: return compile_so(work, 'w.so', [src], skip=('tweetnacl/tweetnacl.c',))
    except Exception as e:
        # a helper may have been renamed: keep the wrappers that still compile
        keep = [l for l in lines[:2]]
        for l in lines[2:]:
            if not l: continue
            open(src, 'w').write('\n'.join(keep + [l]) % t)
            if subprocess.run(['gcc', '-w', '-fsyntax-only', '-Werror=implicit-function-declaration', src], capture_output=True).returncode == 0: keep.append(l)
        open(src, 'w').write('\n'.join(keep) % t)
        return compile_so(work, 'w2.so', [src], skip=('tweetnacl/tweetnacl.c',))
def has(Lb, n):
    try: getattr(Lb, n); return True
    except AttributeError: return False

# ---- reference ----
def inv(x): return pow(x, P - 2, P)
def padd(p, q):
    x1, y1 = p; x2, y2 = q; m = D * x1 * x2 * y1 * y2 % P
    return (x1 * y2 + x2 * y1) * inv(1 + m) % P, (y1 * y2 + x1 * x2) * inv(1 - m) % P
def smul(n, p):
    X, Y, Z, T = 0, 1, 1, 0; q = (p[0], p[1], 1, p[0] * p[1] % P)
    def ad(a, b):
        A = (a[1] - a[0]) * (b[1] - b[0]) % P; B = (a[1] + a[0]) * (b[1] + b[0]) % P; c = 2 * a[3] * b[3] * D % P; d = 2 * a[2] * b[2] % P
        e, f, g, h = B - A, d - c, d + c, B + A
        return e * f % P, g * h % P, f * g % P, e * h % P
    r = (0, 1, 1, 0)
    while n:
        if n & 1: r = ad(r, q)
        q = ad(q, q); n >>= 1
    z = inv(r[2])
    return r[0] * z % P, r[1] * z % P
def recover(y, sign):
    u, v = (y * y - 1) % P, (D * y * y + 1) % P
    x = u * pow(v, 3, P) * pow(u * pow(v, 7, P), (P - 5) // 8, P) % P
    if (v * x * x - u) % P: x = x * I % P
    if (v * x * x - u) % P: return None
    if x & 1 != sign: x = (P - x) % P
    return x
def enc(p): return (p[1] | (p[0] & 1) << 255).to_bytes(32, 'little')
B = (recover(4 * inv(5) % P, 0), 4 * inv(5) % P)
def decode(b):
    y = int.from_bytes(b, 'little'); s = y >> 255; y = (y & (2 ** 255 - 1)) % P
    x = recover(y, s)
    return None if x is None else (x, y)
H = lambda b: hashlib.sha512(b).digest()
def clamp(h): b = bytearray(h[:32]); b[0] &= 248; b[31] &= 127; b[31] |= 64; return int.from_bytes(b, 'little')
def ed_pub(seed): return enc(smul(clamp(H(seed)), B))
def ed_sign(sk, m):
    h = H(sk[:32]); r = int.from_bytes(H(h[32:] + m), 'little') % L; R = enc(smul(r, B))
    k = int.from_bytes(H(R + sk[32:] + m), 'little') % L
    return R + ((r + k * clamp(h)) % L).to_bytes(32, 'little')
def ed_ok(pk, sig, m):
    A = decode(pk)
    if A is None: return False
    k = int.from_bytes(H(sig[:32] + pk + m), 'little') % L; S = int.from_bytes(sig[32:], 'little')
    return enc(padd(smul(S, B), smul(k, ((P - A[0]) % P, A[1])))) == sig[:32]

# ---- C18 ----
def sha(about):
    Lb = lib(); f = Lb.crypto_hash_sha512_tweet
    for n in list(range(0, 400)) + [511, 512, 513, 639, 640, 895, 896, 897, 1000, 4096, 70000]:
        m = rb(n); o = Buf(64, bytes(64)); about('sha512 length %d' % n)
        f(o.p, Buf(n, m, ro=True).p, u64(n))
        if o.get() != H(m): fail('crypto_hash of the %d-byte message %s is wrong' % (n, m[:200].hex()))
    for n in range(0, 520, 40):
        for _ in range(4):
            m = bytes([rng.choice([0, 255, 128, 1])]) * n; o = Buf(64, bytes(64)); f(o.p, Buf(n, m).p, u64(n))
            if o.get() != H(m): fail('crypto_hash of %d bytes %s is wrong' % (n, m[:1].hex()))
def open_(Lb, sm, pk, cap=None):
    m = Buf(max(len(sm), 1), rb(max(len(sm), 1))); before = m.get(); ml = C.c_ulonglong(12345)
    r = Lb.crypto_sign_ed25519_tweet_open(m.p, C.byref(ml), Buf(len(sm), sm, ro=True).p, u64(len(sm)), Buf(32, pk, ro=True).p)
    return r, ml.value, m.get(), before
def ed(about):
    Lb = lib()
    keys = []
    for _ in range(6):
        seed = rb(32); pk = Buf(32); sk = Buf(64); about('keypair_seed %s' % seed.hex())
        r = Lb.crypto_sign_ed25519_keypair_seed(pk.p, sk.p, Buf(32, seed, ro=True).p)
        if r or pk.get() != ed_pub(seed) or sk.get() != seed + ed_pub(seed): fail('key pair from seed %s is wrong' % seed.hex())
        keys.append((sk.get(), pk.get()))
    sigs = []
    for n in [0, 1, 2, 15, 16, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 80, 95, 96, 97, 111, 112, 127, 128, 129, 191, 192, 193, 200, 256, 300, 5000, 70000]:
        sk, pk = keys[n % len(keys)]; m = rb(n); sm = Buf(n + 64, rb(n + 64)); ln = C.c_ulonglong(0); about('sign %d bytes' % n)
        r = Lb.crypto_sign_ed25519_tweet(sm.p, C.byref(ln), Buf(n, m, ro=True).p, u64(n), Buf(64, sk, ro=True).p)
        w = ed_sign(sk, m) + m
        if r or ln.value != n + 64 or sm.get() != w: fail('signature of the %d-byte message %s under secret key %s is wrong' % (n, m.hex(), sk.hex()))
        sigs.append((w, pk, n)); about('open %d' % n)
        r, ml, got, _ = open_(Lb, w, pk)
        if r or ml != n or got[:n] != m: fail('honest signed message of %d bytes rejected or altered: %s' % (n, w.hex()))
    def refuse(w, pk, why):
        r, ml, got, before = open_(Lb, w, pk); n = max(len(w) - 64, 0)
        ok = len(w) >= 64 and ed_ok(pk, w[:64], w[64:])
        if (r == 0) != ok: fail('%s: open returns %d, specified %s: pk %s sm %s' % (why, r, 'accept' if ok else 'reject', pk.hex(), w.hex()))
        if r and ml != 2 ** 64 - 1: fail('%s: failed open sets the message length to %d' % (why, ml))
        if r and n and got[:n] != before[:n] and any(got[:n]): fail('%s: failed open leaves bytes in the message buffer' % why)
    for i in range(64):
        for w, pk, n in sigs[3 * (i % 6):3 * (i % 6) + 2]:
            b = bytearray(w); b[i] ^= 1 << rng.randrange(8); about('flip byte %d' % i); refuse(bytes(b), pk, 'byte %d of the signature changed' % i)
    for i in range(32):
        w, pk, n = sigs[i % len(sigs)]; b = bytearray(pk); b[i] ^= 1 << rng.randrange(8); about('flip pk %d' % i); refuse(w, bytes(b), 'byte %d of the public key changed' % i)
    for w, pk, n in sigs[1:]:
        b = bytearray(w); b[64 + rng.randrange(n)] ^= 1 << rng.randrange(8); about('flip message'); refuse(bytes(b), pk, 'message changed'); refuse(w[:-1], pk, 'message truncated'); refuse(w + b'\0', pk, 'message extended')
    for k in range(64): about('short %d' % k); refuse(sigs[0][0][:k], sigs[0][1], 'input of %d bytes' % k)
    # special public keys and scalars
    sp = [x.to_bytes(32, 'little') for x in (0, 1, 2, P - 1, P, P + 1, P + 2, 2 ** 255 - 1, 2 ** 255, 2 ** 255 + 1, 2 ** 256 - 1)]
    for pk in sp:
        for S in (0, 1, L - 1, L, L + 1, 8 * L, 2 ** 252, 2 ** 253 - 1, 2 ** 256 - 1):
            for Rr in (enc(smul(S % (8 * L), B)), enc((0, 1))):
                refuse(Rr + S.to_bytes(32, 'little') + rb(5), pk, 'special key and scalar')
    w, pk, n = sigs[4]; S = int.from_bytes(w[32:64], 'little')
    for kk in (1, 2, 7): refuse(w[:32] + (S + kk * L).to_bytes(32, 'little') + w[64:], pk, 'scalar plus a multiple of the order')

# ---- C19 ----
def gfv(l): return sum(int(x) << (16 * i) for i, x in enumerate(l))
def G(l): return (i64 * len(l))(*l)
def limbs_of(v): return [v >> (16 * i) & 65535 for i in range(15)] + [v >> 240]
def edge_gf(b):
    k = rng.randrange(7)
    if k == 0: return [rng.randrange(-b, b + 1) for _ in range(16)]
    if k == 1: return [rng.choice([-b, b]) for _ in range(16)]
    if k == 2: return limbs_of(rng.choice([0, 1, 18, 19, 20, P - 1, P, P + 1, P + 18, P + 19, 2 * P - 1, 2 * P, 2 * P + 1, 2 ** 255 - 1, 2 ** 256 - 1, 2 ** 255, P - 19, rng.randrange(2 ** 256)]))
    if k == 3: return [rng.choice([0, 1, -1, 65535, 65536, -65536, 65537, 32767, 32768]) for _ in range(16)]
    if k == 4: l = limbs_of(rng.randrange(2 ** 256)); l[rng.randrange(16)] += rng.choice([-65536, 65536, -1, 1]); return l
    if k == 5: return [b if i == rng.randrange(16) else 0 for i in range(16)]
    return limbs_of((rng.choice([0, P, 2 * P]) + rng.randrange(-40, 41)) % 2 ** 256)
def field(about):
    Lb = lib(); o = (i64 * 16)()
    for it in range(6000):
        a, b = edge_gf(1 << 26), edge_gf(1 << 26); about('M %s %s' % (a, b))
        if has(Lb, 'v_M'):
            Lb.v_M(o, G(a), G(b))
            if (gfv(o) - gfv(a) * gfv(b)) % P: fail('M(%s, %s) is not the product modulo 2^255-19' % (a, b))
            if any(abs(x) > 1 << 17 for x in o): fail('M(%s, %s) leaves a limb out of range: %s' % (a, b, list(o)))
        a = edge_gf(1 << 20); by = (C.c_ubyte * 32)()
        if has(Lb, 'v_pack25519'):
            Lb.v_pack25519(by, G(a))
            if int.from_bytes(bytes(by), 'little') != gfv(a) % P: fail('pack25519(%s) is not the canonical encoding' % a)
        v = rng.choice([rng.randrange(2 ** 256), P, P + 1, 2 ** 255, 2 ** 256 - 1, 2 ** 255 - 1])
        if has(Lb, 'v_unpack25519'):
            Lb.v_unpack25519(o, (C.c_ubyte * 32)(*v.to_bytes(32, 'little')))
            if gfv(o) != v & (2 ** 255 - 1): fail('unpack25519 of %x is wrong' % v)
        x = rng.choice([rng.randrange(2 ** 512), rng.randrange(2 ** 260), 2 ** 512 - 1, max(0, rng.randrange(2 ** 260) * L + rng.randrange(-3, 4)), rng.randrange(16) * L + rng.choice([0, 1, L - 1]), L << rng.randrange(250), (L << rng.randrange(250)) - 1])
        if has(Lb, 'v_reduce'):
            r = (C.c_ubyte * 64)(*x.to_bytes(64, 'little')); Lb.v_reduce(r)
            if int.from_bytes(bytes(r), 'little') != x % L: fail('reduce of %x is %x' % (x, int.from_bytes(bytes(r), 'little')))
        if has(Lb, 'v_modL'):
            kk = rng.randrange(3); hi = rng.choice([1, 255])
            h = [rng.randrange(256) if kk else 255 for _ in range(32)]; d = [rng.randrange(256) if kk > 1 else 255 for _ in range(32)]; rr = [rng.randrange(256) for _ in range(32)]
            xs = [0] * 64
            for i in range(32): xs[i] += rr[i]
            for i in range(32):
                for j in range(32): xs[i + j] += h[i] * d[j]
            r = (C.c_ubyte * 32)(); Lb.v_modL(r, G(xs)); v = sum(t << (8 * i) for i, t in enumerate(xs))
            if int.from_bytes(bytes(r), 'little') != v % L: fail('modL of %x is wrong' % v)
    for it in range(30):
        a = edge_gf(1 << 17)
        for f, e in (('v_inv', P - 2), ('v_pow', 2 ** 252 - 3)):
            if has(Lb, f):
                about('%s %s' % (f, a)); getattr(Lb, f)(o, G(a))
                if (gfv(o) - pow(gfv(a), e, P)) % P: fail('%s(%s) is wrong' % (f, a))
def rpt():
    z = rng.randrange(1, P); p = smul(rng.randrange(L), B) if rng.random() < .8 else rng.choice([(0, 1), (0, P - 1), (I, 0), (P - I, 0)])
    return p, [x * z % P for x in (p[0], p[1], 1, p[0] * p[1])]
def lim4(c): return [l for x in c for l in limbs_of(x)]
def aff(o): z = inv(gfv(o[32:48]) % P); return gfv(o[0:16]) * z % P, gfv(o[16:32]) * z % P
def group(about):
    Lb = lib()
    for it in range(200):
        (p, c1), (q, c2) = rpt(), rpt()
        if it % 5 == 0: q, c2 = p, c1
        a = G(lim4(c1)); b = G(lim4(c2)); about('add')
        if has(Lb, 'v_add'):
            Lb.v_add(a, b)
            if aff(a) != padd(p, q): fail('add of points %s and %s is wrong' % (p, q))
            if (gfv(a[48:64]) * gfv(a[32:48]) - gfv(a[0:16]) * gfv(a[16:32])) % P: fail('add of points %s and %s breaks T = XY/Z' % (p, q))
            a = G(lim4(c1)); Lb.v_add(a, a)
            if aff(a) != padd(p, p): fail('doubling of the point %s is wrong' % (p,))
        by = (C.c_ubyte * 32)()
        if has(Lb, 'v_pack'):
            Lb.v_pack(by, G(lim4(c1)))
            if bytes(by) != enc(p): fail('pack of the point %s is wrong' % (p,))
        e = bytearray(enc(p)); 
        if it % 3 == 0: e = bytearray(rb(32))
        if it % 7 == 0: e = bytearray(rng.choice([0, 1, P - 1, P, P + 1, 2 ** 255 - 1]).to_bytes(32, 'little'))
        if rng.random() < .5: e[31] ^= 128
        if has(Lb, 'v_unpackneg'):
            r = (i64 * 64)(); ret = Lb.v_unpackneg(r, (C.c_ubyte * 32)(*e)); w = decode(bytes(e))
            if (ret == 0) != (w is not None): fail('unpackneg of %s returns %d' % (bytes(e).hex(), ret))
            if w and (aff(r) != ((P - w[0]) % P, w[1]) or (gfv(r[48:64]) - gfv(r[0:16]) * gfv(r[16:32])) % P): fail('unpackneg of %s gives a wrong point' % bytes(e).hex())
        if it < 60:
            n = rng.choice([0, 1, 2, 3, 8, L - 1, L, L + 1, 2 ** 256 - 1, 2 ** 255, 1 << rng.randrange(256), rng.randrange(2 ** 256), rng.randrange(2 ** 256)]); s = (C.c_ubyte * 32)(*n.to_bytes(32, 'little')); r = (i64 * 64)()
            if has(Lb, 'v_scalarmult'):
                Lb.v_scalarmult(r, G(lim4(c1)), s)
                if aff(r) != smul(n, p): fail('scalarmult of %s by %x is wrong' % (p, n))
            if has(Lb, 'v_scalarbase'):
                Lb.v_scalarbase(r, s)
                if aff(r) != smul(n, B): fail('scalarbase of %x is wrong' % n)
def x_ref(n, u):
    k = bytearray(n); k[0] &= 248; k[31] &= 127; k[31] |= 64; k = int.from_bytes(k, 'little'); u = (int.from_bytes(u, 'little') & (2 ** 255 - 1)) % P
    x1, x2, z2, x3, z3, s = u, 1, 0, u, 1, 0
    for t in range(254, -1, -1):
        b = k >> t & 1; s ^= b
        if s: x2, x3, z2, z3 = x3, x2, z3, z2
        s = b; A = x2 + z2; AA = A * A % P; Bb = x2 - z2; BB = Bb * Bb % P; E = AA - BB; Cc = x3 + z3; Dd = x3 - z3; DA = Dd * A % P; CB = Cc * Bb % P
        x3 = (DA + CB) ** 2 % P; z3 = x1 * (DA - CB) ** 2 % P; x2 = AA * BB % P; z2 = E * (AA + 121665 * E) % P
    if s: x2, x3, z2, z3 = x3, x2, z3, z2
    return (x2 * inv(z2) % P).to_bytes(32, 'little')
def x25519(about):
    Lb = lib()
    for it in range(60):
        n = rng.choice([bytes(32), b'\xff' * 32, rb(32), rb(32), rb(32)]); u = rng.choice([rb(32), rb(32), rb(32)] + [x.to_bytes(32, 'little') for x in (0, 1, 9, P - 1, P, P + 1, 2 ** 255 - 1, 2 ** 256 - 1)])
        q = Buf(32); about('X25519 %s %s' % (n.hex(), u.hex()))
        Lb.crypto_scalarmult_curve25519_tweet(q.p, Buf(32, n, ro=True).p, Buf(32, u, ro=True).p)
        if q.get() != x_ref(n, u): fail('X25519 of scalar %s and point %s is %s' % (n.hex(), u.hex(), q.get().hex()))
        Lb.crypto_scalarmult_curve25519_tweet_base(q.p, Buf(32, n).p)
        if q.get() != x_ref(n, (9).to_bytes(32, 'little')): fail('X25519 of scalar %s and the base point is wrong' % n.hex())

# ---- C20 ----
def rotl(x, c): return ((x << c) | (x >> (32 - c))) & 0xffffffff
def salsa(key, inp, h=False):
    w = lambda b: [int.from_bytes(b[4 * i:4 * i + 4], 'little') for i in range(len(b) // 4)]
    c, kk, n = w(b'expand 32-byte k'), w(key), w(inp)
    x = [c[0]] + kk[:4] + [c[1]] + n + [c[2]] + kk[4:] + [c[3]]; y = x[:]
    def qr(a, b, c, d):
        x[b] ^= rotl((x[a] + x[d]) & 0xffffffff, 7); x[c] ^= rotl((x[b] + x[a]) & 0xffffffff, 9); x[d] ^= rotl((x[c] + x[b]) & 0xffffffff, 13); x[a] ^= rotl((x[d] + x[c]) & 0xffffffff, 18)
    for _ in range(10):
        for q in ((0, 4, 8, 12), (5, 9, 13, 1), (10, 14, 2, 6), (15, 3, 7, 11), (0, 1, 2, 3), (5, 6, 7, 4), (10, 11, 8, 9), (15, 12, 13, 14)): qr(*q)
    if h: return b''.join(x[i].to_bytes(4, 'little') for i in (0, 5, 10, 15, 6, 7, 8, 9))
    return b''.join(((a + b) & 0xffffffff).to_bytes(4, 'little') for a, b in zip(x, y))
def s20(key, n8, ln, c0=0):
    return b''.join(salsa(key, n8 + (c0 + i).to_bytes(8, 'little')) for i in range((ln + 63) // 64))[:ln]
def xs20(key, n24, ln): return s20(salsa(key, n24[:16], True), n24[16:], ln)
def poly(m, key):
    r = int.from_bytes(key[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff; s = int.from_bytes(key[16:], 'little'); h = 0
    for i in range(0, len(m), 16): h = (h + int.from_bytes(m[i:i + 16] + b'\1', 'little')) * r % (2 ** 130 - 5)
    return ((h + s) % 2 ** 128).to_bytes(16, 'little')
def xor(a, b): return bytes(x ^ y for x, y in zip(a, b))
def box(about):
    Lb = lib(); PF = 'crypto_secretbox_xsalsa20poly1305_tweet'
    for it in range(300):
        k, n = rb(32), rb(16); o = Buf(64); about('core')
        Lb.crypto_core_salsa20_tweet(o.p, Buf(16, n).p, Buf(32, k).p, Buf(16, b'expand 32-byte k').p)
        if o.get() != salsa(k, n): fail('Salsa20 core of key %s input %s is wrong' % (k.hex(), n.hex()))
        o = Buf(32); Lb.crypto_core_hsalsa20_tweet(o.p, Buf(16, n).p, Buf(32, k).p, Buf(16, b'expand 32-byte k').p)
        if o.get() != salsa(k, n, True): fail('HSalsa20 of key %s input %s is wrong' % (k.hex(), n.hex()))
    LN = list(range(0, 70)) + [127, 128, 129, 191, 192, 200, 255, 256, 257, 320, 1000, 16384, 16385, 16640, 20000]
    for ln in LN:
        k, n8, n24, m = rb(32), rb(8), rb(24), rb(ln); about('stream %d' % ln)
        for nm, w, nn, hasm in (('crypto_stream_salsa20_tweet', s20(k, n8, ln), n8, 0), ('crypto_stream_salsa20_tweet_xor', xor(m, s20(k, n8, ln)), n8, 1), ('crypto_stream_xsalsa20_tweet', xs20(k, n24, ln), n24, 0), ('crypto_stream_xsalsa20_tweet_xor', xor(m, xs20(k, n24, ln)), n24, 1)):
            o = Buf(ln, rb(ln)); a = [o.p] + ([Buf(ln, m, ro=True).p] if hasm else []) + [u64(ln), Buf(len(nn), nn).p, Buf(32, k).p]
            getattr(Lb, nm)(*a)
            if o.get() != w: fail('%s of %d bytes with key %s nonce %s is wrong' % (nm, ln, k.hex(), nn.hex()))
    for it in range(3000):
        ln = rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 48, 64, rng.randrange(200)]); m = rb(ln) if it % 3 else bytes([rng.choice([255, 0, 251, 252])]) * ln
        k = rb(32) if it % 4 else rng.choice([b'\1' + bytes(15) + b'\xff' * 16, b'\2' + bytes(31), b'\xff' * 32, b'\4' + bytes(15) + rb(16)])
        if it % 5 == 0 and ln >= 16: m = (2 ** 128 - rng.randrange(1, 8)).to_bytes(16, 'little') + m[16:]
        o = Buf(16); about('poly1305 %d' % ln); Lb.crypto_onetimeauth_poly1305_tweet(o.p, Buf(ln, m, ro=True).p, u64(ln), Buf(32, k, ro=True).p)
        if o.get() != poly(m, k): fail('Poly1305 of %s under key %s is %s' % (m.hex(), k.hex(), o.get().hex()))
        t = bytearray(poly(m, k)); 
        if it % 2: t[rng.randrange(16)] ^= 1 << rng.randrange(8)
        r = Lb.crypto_onetimeauth_poly1305_tweet_verify(Buf(16, t).p, Buf(ln, m).p, u64(ln), Buf(32, k).p)
        if (r == 0) != (bytes(t) == poly(m, k)): fail('Poly1305 verification of tag %s returns %d' % (bytes(t).hex(), r))
    for ln in list(range(0, 140)) + [200, 300, 1000]:
        k, n, m = rb(32), rb(24), rb(ln); d = ln + 32; about('secretbox %d' % ln)
        s = xs20(k, n, d); c = xor(m, s[32:]); w = bytes(16) + poly(c, s[:32]) + c
        o = Buf(d, rb(d)); r = getattr(Lb, PF)(o.p, Buf(d, bytes(32) + m).p, u64(d), Buf(24, n).p, Buf(32, k).p)
        if r or o.get() != w: fail('secretbox of the %d-byte message %s under key %s nonce %s is wrong' % (ln, m.hex(), k.hex(), n.hex()))
        o = Buf(d, rb(d)); r = getattr(Lb, PF + '_open')(o.p, Buf(d, w, ro=True).p, u64(d), Buf(24, n).p, Buf(32, k).p)
        if r or o.get() != bytes(32) + m: fail('secretbox_open rejects or alters an honest box of %d bytes' % ln)
        for i in list(range(16, 32)) + ([32 + rng.randrange(ln)] if ln else []):
            b = bytearray(w); b[i] ^= 1 << rng.randrange(8); o = Buf(d, b'\x55' * d); r = getattr(Lb, PF + '_open')(o.p, Buf(d, b).p, u64(d), Buf(24, n).p, Buf(32, k).p)
            if r == 0: fail('secretbox_open accepts a box with byte %d changed: %s' % (i, bytes(b).hex()))
            if o.get() != b'\x55' * d: fail('secretbox_open writes plaintext although the tag is wrong')
    for d in range(32):
        for f in ('', '_open'):
            o = Buf(32, b'\x55' * 32); r = getattr(Lb, PF + f)(o.p, Buf(32, bytes(32)).p, u64(d), Buf(24, rb(24)).p, Buf(32, rb(32)).p)
            if r == 0 or o.get() != b'\x55' * 32: fail('secretbox%s accepts a length of %d' % (f, d))
    BX = 'crypto_box_curve25519xsalsa20poly1305_tweet'
    for it in range(12):
        y, x, n = rb(32), rb(32), rb(24); kk = salsa(x_ref(x, y), bytes(16), True); o = Buf(32); about('box')
        getattr(Lb, BX + '_beforenm')(o.p, Buf(32, y).p, Buf(32, x).p)
        if o.get() != kk: fail('box_beforenm of public %s secret %s is wrong' % (y.hex(), x.hex()))
        ln = rng.randrange(80); m = rb(ln); d = ln + 32; s = xs20(kk, n, d); c = xor(m, s[32:]); w = bytes(16) + poly(c, s[:32]) + c
        for f, last in (('', [Buf(32, y).p, Buf(32, x).p]), ('_afternm', [Buf(32, kk).p])):
            o = Buf(d, rb(d)); r = getattr(Lb, BX + f)(o.p, Buf(d, bytes(32) + m).p, u64(d), Buf(24, n).p, *last)
            if r or o.get() != w: fail('box%s of %s is wrong' % (f, m.hex()))
            g = '_open' + f
            o = Buf(d, rb(d)); r = getattr(Lb, BX + g)(o.p, Buf(d, w).p, u64(d), Buf(24, n).p, *last)
            if r or o.get() != bytes(32) + m: fail('box%s of an honest box is wrong' % g)
            b = bytearray(w); b[16 + rng.randrange(16 + ln)] ^= 1; o = Buf(d, b'\x55' * d); r = getattr(Lb, BX + g)(o.p, Buf(d, b).p, u64(d), Buf(24, n).p, *last)
            if r == 0 or o.get() != b'\x55' * d: fail('box%s accepts a forged box' % g)

GO = {'C18': [sha, ed], 'C19': [field, group, x25519, ed], 'C20': [box]}[which]
for g in GO:
    r = guarded(g)
    if r == 1: sys.exit(1)
    if r: print('replay part %s ended with status %d' % (g.__name__, r))
print('no failing input found among the inputs tried')
