"""Native replay: seed expander (C07), component randomness failures (C08), random source (C09), hashing (C10), combined interfaces (C17), wasm wrappers (C22)."""
import sys, hashlib, ctypes as C
from nlib import *
which, work = sys.argv[1], sys.argv[2]
sz = C.c_size_t
H = hashlib
ONE = {'sha3_256': (136, 32, H.sha3_256), 'sha3_384': (104, 48, H.sha3_384), 'sha3_512': (72, 64, H.sha3_512)}
XOF = {'shake128': (168, H.shake_128), 'shake256': (136, H.shake_256)}

def lens(r, k=40):
    base = sorted({max(0, q * r + d) for q in (0, 1, 2, 3, 5) for d in (-9, -8, -1, 0, 1, 7, 8, 9)})
    return base + [rng.randrange(4 * r) for _ in range(k)]

def expander(about):
    L = compile_so(work, 'all.so')
    for sl in [32, 33, 63, 64, 96, 135, 136, 137, 200, 272] + [rng.randrange(32, 400) for _ in range(30)]:
        for ol in [sl + 1, sl + 2, sl + 7, sl + 8, 2 * sl + 3, sl + 136, sl + 137] + [sl + rng.randrange(1, 500) for _ in range(4)]:
            s = rb(sl); o = Buf(ol, rb(ol), front=rng.random() < .3)
            about('seedexpander_wrapper seedlen %d outlen %d' % (sl, ol))
            r = L.seedexpander_wrapper(Buf(sl, s, ro=True).p, sz(sl), o.p, sz(ol))
            if r: fail('seed expander refuses legal lengths %d, %d' % (sl, ol))
            if o.get() != H.shake_256(s + b'\x02').digest(ol): fail('seed expander output differs from SHAKE256(seed || 2) for seed length %d, output length %d, seed %s' % (sl, ol, s.hex()))
    for sl, ol in [(x, 64) for x in range(32)] + [(32, x) for x in (0, 1, 31, 32)] + [(64, 64), (64, 63), (200, 100), (2**63, 2**62)]:
        o = Buf(min(ol, 300), bytes(min(ol, 300))); s = Buf(min(sl, 300), bytes(min(sl, 300)))
        about('seedexpander_wrapper seedlen %d outlen %d' % (sl, ol))
        if L.seedexpander_wrapper(s.p, sz(sl), o.p, sz(ol)) == 0: fail('seed expander accepts seed length %d with output length %d' % (sl, ol))
        if any(o.get()): fail('refused expansion (lengths %d, %d) wrote output' % (sl, ol))
    for a, b in ((0, 1), (1, 0), (0, 0)):
        about('null pointers')
        if L.seedexpander_wrapper(Buf(64, rb(64)).p if a else None, sz(64), Buf(128).p if b else None, sz(128)) == 0: fail('seed expander accepts a null pointer')

def hashes(about):
    L = compile_so(work, 'all.so')
    for fn, (r, d, ref) in ONE.items():
        for n in lens(r):
            m = rb(n); o = Buf(d, rb(d)); about('%s length %d' % (fn, n))
            getattr(L, fn)(o.p, Buf(n, m, ro=True).p, sz(n))
            if o.get() != ref(m).digest(): fail('%s of the %d-byte message %s is wrong' % (fn, n, m.hex()))
    for fn, (r, ref) in XOF.items():
        for n in lens(r):
            for k in [rng.choice(lens(r)) for _ in range(3)] + [32]:
                m = rb(n); o = Buf(k, rb(k)); about('%s length %d output %d' % (fn, n, k))
                getattr(L, fn)(o.p, sz(k), Buf(n, m, ro=True).p, sz(n))
                if o.get() != ref(m).digest(k): fail('%s output of %d bytes for the %d-byte message %s is wrong' % (fn, k, n, m.hex()))
            c = Buf(8, bytes(8)); m = rb(n); about('%s_absorb length %d' % (fn, n))
            getattr(L, fn + '_absorb')(c.p, Buf(n, m).p, sz(n))
            c2 = Buf(8, bytes(8)); getattr(L, fn + '_ctx_clone')(c2.p, c.p)
            out = b''
            for nb in (1, 0, 2, 3):
                o = Buf(nb * r); getattr(L, fn + '_squeezeblocks')(o.p, sz(nb), c.p); out += o.get()
            if out != ref(m).digest(len(out)): fail('%s absorb/squeezeblocks of a %d-byte message is wrong' % (fn, n))
            o = Buf(2 * r); getattr(L, fn + '_squeezeblocks')(o.p, sz(2), c2.p)
            if o.get() != ref(m).digest(2 * r): fail('%s clone of a context gives a different stream (message length %d)' % (fn, n))
            getattr(L, fn + '_ctx_release')(c.p); getattr(L, fn + '_ctx_release')(c2.p)
        for n in (0, 5, 200):
            m = rb(max(n, 300)); b = Buf(len(m), m); getattr(L, fn)(b.p, sz(300), b.p, sz(n))
            if b.get()[:300] != ref(m[:n]).digest(300): fail('%s in place is wrong for length %d' % (fn, n))
    for fn in list(ONE) + list(XOF):
        x = fn in XOF; r = (XOF if x else ONE)[fn][0]; ref = (XOF if x else ONE)[fn][-1]
        for rep in range(400):
            parts = [rng.choice([0, 1, 2, 7, 8, r - 1, r, r + 1, 2 * r, rng.randrange(3 * r)]) for _ in range(rng.randrange(1, 6))]
            c = Buf(8, bytes(8)); about('%s incremental absorb %s' % (fn, parts)); getattr(L, fn + '_inc_init')(c.p); m = b''
            cut = rng.randrange(len(parts) + 1); cl = None
            for i, k in enumerate(parts):
                if i == cut:
                    cl = Buf(8, bytes(8)); getattr(L, fn + '_inc_ctx_clone')(cl.p, c.p); clm = m
                d = rb(k); m += d; getattr(L, fn + '_inc_absorb')(c.p, Buf(k, d, ro=True).p, sz(k))
            for ctx, msg in [(c, m)] + ([(cl, clm)] if cl else []):
                if x:
                    getattr(L, fn + '_inc_finalize')(ctx.p); out = b''
                    op = [rng.choice([0, 1, 7, 8, r - 1, r, r + 1, 2 * r, rng.randrange(3 * r)]) for _ in range(rng.randrange(1, 6))]
                    about('%s incremental absorb %s squeeze %s' % (fn, parts, op))
                    for k in op:
                        o = Buf(k); getattr(L, fn + '_inc_squeeze')(o.p, sz(k), ctx.p); out += o.get()
                    if out != ref(msg).digest(len(out)): fail('incremental %s: message split %s, output split %s gives wrong bytes; message %s' % (fn, parts, op, msg.hex()))
                    getattr(L, fn + '_inc_ctx_release')(ctx.p)
                else:
                    o = Buf(ONE[fn][1]); getattr(L, fn + '_inc_finalize')(o.p, ctx.p)
                    if o.get() != ref(msg).digest(): fail('incremental %s: message split %s gives a wrong digest; message %s' % (fn, parts, msg.hex()))

def randsrc(about):
    L = compile_so(work, 'rnd.so', [os.path.join(HERE, 'mocks_rand.c')], muldefs=True)
    g = lambda n, t=C.c_int: t.in_dll(L, n)
    sc = (C.c_long * 64).in_dll(L, 'script')
    def one(n, s):
        b = Buf(n, bytes(n)); g('gbuf', C.c_void_p).value = b.addr; g('gn', sz).value = n; g('gdone', sz).value = 0; g('calls').value = 0; g('bad').value = 0
        for i, v in enumerate(s): sc[i] = v
        g('nscript').value = len(s)
        about('randombytes(%d) with kernel results %s' % (n, s))
        r = L.randombytes(b.p, sz(n))
        d = 'request of %d bytes, kernel results %s (positive: short read, negative: -errno, then full reads)' % (n, s)
        done = g('gdone', sz).value
        # what should happen
        tot = 0; hard = False
        for v in list(s) + [0] * 4096:
            if tot >= n: break
            if v < 0 and v != -4: hard = True; break
            if v == -4: continue
            tot += min(n - tot, v if v > 0 else 33554431)
        if g('bad').value: fail(d + ': asks the kernel for bytes outside the remaining buffer')
        if hard and r == 0: fail(d + ': hard error reported as success')
        if not hard and r != 0: fail(d + ': returns %d although no hard error occurred' % r)
        if r == 0 and done < n: fail(d + ': success although only %d bytes were filled' % done)
    for n in (0, 1, 2, 31, 32, 40, 160, 255, 256, 257, 300, 4096, 70000):
        one(n, []); one(n, [-4]); one(n, [-4, -4, 1]); one(n, [1]); one(n, [1, 1, -4, 2]); one(n, [-5]); one(n, [1, -5]); one(n, [-11]); one(n, [1, 2, 3, -38]); one(n, [256]); one(n, [255, 1])
    one(33554431 + 77, []); one(2 * 33554431 + 5, [33554431, -4, 100]); one(33554432, [33554431, -5])
    for _ in range(400):
        one(rng.choice([1, 2, 5, 32, 40, 160, 500, 5000]), [rng.choice([1, 2, 3, 7, 31, 32, 100, 256, 0, -4, -4, -4, -5, -22, -1]) for _ in range(rng.randrange(1, 9))])

D, S = 'PQCLEAN_DILITHIUM2_CLEAN_crypto_sign', 'PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign'
def uf(name, n, *a): return H.shake_256(name.encode() + b''.join(len(x).to_bytes(8, 'little') + x for x in a)).digest(n)
def at(p, n): return C.string_at(p, n) if n else b''
def mocked():
    L = compile_so(work, 'mock.so', [os.path.join(HERE, 'mocks.c')], muldefs=True)
    st = dict(ok=set(), fail=False, rand=[])
    F5 = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p, C.c_void_p, sz, C.c_void_p); FV = C.CFUNCTYPE(C.c_int, C.c_void_p, sz, C.c_void_p, sz, C.c_void_p)
    F3 = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p, C.c_void_p); FR = C.CFUNCTYPE(C.c_int, C.c_void_p, sz)
    def mks(n, sk):
        def f(sg, sl, m, k, key):
            C.memmove(sl, n.to_bytes(8, 'little'), 8)
            if st['fail']: return -1
            C.memmove(sg, uf('SIG', n, at(key, sk), at(m, k)), n); return 0
        return f
    def mkv(n, pkn):
        def f(sg, sl, m, k, pk): return 0 if sl == n and (at(sg, n), at(m, k), at(pk, pkn)) in st['ok'] else -1
        return f
    def rnd(b, n):
        if st['fail']: return -1
        d = rb(n); C.memmove(b, d, n); st['rand'].append(d); return 0
    def kp(pkn, skn, sn):
        def f(p, s, seed):
            d = at(seed, sn); C.memmove(p, uf('PK', pkn, d), pkn); C.memmove(s, uf('SK', skn, d), skn); return 0
        return f
    keep = []
    for nm, T, f in (('dil_sign', F5, mks(2420, 2560)), ('spx_sign', F5, mks(49856, 128)), ('dil_verify', FV, mkv(2420, 1312)), ('spx_verify', FV, mkv(49856, 64)), ('rand', FR, rnd),
                     ('dil_kp', F3, kp(1312, 2560, 32)), ('spx_kp', F3, kp(64, 128, 96)), ('ed_kp', F3, kp(32, 64, 32))):
        cb = T(f); keep.append(cb); C.c_void_p.in_dll(L, 'cb_' + nm).value = C.cast(cb, C.c_void_p).value
    st['keep'] = keep
    return L, st

def combined(about):
    L, st = mocked()
    for base, SIG, PKB, SKB in ((D, 2420, 1312, 2560), (S, 49856, 64, 128)):
        for n in [0, 1, 2, 31, 32, 33, 64, 100, 2419, 2420, 2421, 5000] + [rng.randrange(3000) for _ in range(20)]:
            m, sk, pk = rb(n), rb(SKB), rb(PKB)
            sm, sl = Buf(SIG + n), Buf(8, rb(8)); about('%s message length %d' % (base, n))
            st['fail'] = False
            r = getattr(L, base)(sm.p, sl.p, Buf(n, m, ro=True).p, sz(n), Buf(SKB, sk, ro=True).p)
            if r or sm.get() != uf('SIG', SIG, sk, m) + m or int.from_bytes(sl.get(), 'little') != SIG + n: fail('%s of a %d-byte message: wrong result' % (base, n))
            if base == S:
                st['fail'] = True
                if getattr(L, base)(sm.p, sl.p, Buf(n, m).p, sz(n), Buf(SKB, sk).p) == 0: fail(base + ': signing failure reported as success')
                st['fail'] = False
            s = rb(SIG)
            for good in (1, 0):
                st['ok'].clear()
                if good: st['ok'].add((s, m, pk))
                pre, prel = rb(n), rb(8); o, ol = Buf(n, pre), Buf(8, prel); b = Buf(SIG + n, s + m, ro=True); about('%s_open %s length %d' % (base, 'accept' if good else 'reject', n))
                r = getattr(L, base + '_open')(o.p, ol.p, b.p, sz(SIG + n), Buf(PKB, pk, ro=True).p)
                if (r == 0) != bool(good): fail('%s_open of a %d-byte message returns %d although the component %s' % (base, n, r, 'accepts' if good else 'rejects'))
                if good and (o.get() != m or int.from_bytes(ol.get(), 'little') != n): fail('%s_open returns a wrong message or length (%d bytes)' % (base, n))
                if not good and o.get() != pre: fail('%s_open writes the message buffer on rejection (%d bytes)' % (base, n))
                b = Buf(SIG + n, s + m); about('%s_open in place' % base)
                r = getattr(L, base + '_open')(b.p, ol.p, b.p, sz(SIG + n), Buf(PKB, pk).p)
                if (r == 0) != bool(good) or good and b.get()[:n] != m: fail('%s_open in place is wrong (%d bytes)' % (base, n))
            if base == D:
                b = Buf(SIG + n, m + rb(SIG)); r = getattr(L, base)(b.p, sl.p, b.p, sz(n), Buf(SKB, sk).p)
                if r or b.get() != uf('SIG', SIG, sk, m) + m: fail('%s in place is wrong (%d bytes)' % (base, n))
        for n in [0, 1, 2, 31, SIG - 1, SIG - 2, SIG // 2]:
            pre = rb(64); o, ol = Buf(64, pre), Buf(8); about('%s_open short input %d' % (base, n))
            for x in (n,):
                if getattr(L, base + '_open')(o.p, ol.p, Buf(0).p, sz(x), Buf(PKB, rb(PKB)).p) == 0: fail('%s_open accepts %d bytes' % (base, x))
            if o.get() != pre: fail('%s_open writes the message buffer on a short input (%d)' % (base, n))

def comp_rand(about):
    L, st = mocked()
    for fn, pkn, skn, sn in ((D + '_keypair', 1312, 2560, 32), (S + '_keypair', 64, 128, 96), ('crypto_sign_ed25519_tweet_keypair', 32, 64, 32)):
        if not hasattr(L, fn): continue
        for f in (False, True):
            st['fail'] = f; st['rand'].clear(); p, s = Buf(pkn, rb(pkn)), Buf(skn, rb(skn)); about('%s, random source %s' % (fn, 'fails' if f else 'works'))
            r = getattr(L, fn)(p.p, s.p)
            if f and r == 0: fail('%s reports success although the random source fails' % fn)
            if not f:
                d = b''.join(st['rand'])
                if r or len(d) != sn: fail('%s returns %d after drawing %d random bytes' % (fn, r, len(d)))
                if p.get() != uf('PK', pkn, d) or s.get() != uf('SK', skn, d): fail('%s does not use exactly the bytes it drew' % fn)
    fn = 'crypto_box_curve25519xsalsa20poly1305_tweet_keypair'
    if hasattr(L, fn):
        st['fail'] = True; about(fn)
        if getattr(L, fn)(Buf(32).p, Buf(32).p) == 0: fail(fn + ' reports success although the random source fails')
        st['fail'] = False; st['rand'].clear(); x = Buf(32, rb(32)); getattr(L, fn)(Buf(32).p, x.p)
        if x.get() != b''.join(st['rand']): fail(fn + ' secret key is not the fresh bytes')
    # SPHINCS+ signing itself: only the random source replaced
    src = os.path.join(work, 'rnd1.c')
    open(src, 'w').write('#include <stddef.h>\nint fail_rand; size_t drawn; int randombytes(void *b, size_t n) { drawn += n; if (fail_rand) return -1; for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = i * 7; return 0; }\n')
    L2 = compile_so(work, 'spx.so', [src], muldefs=True)
    for f in (1, 0):
        C.c_int.in_dll(L2, 'fail_rand').value = f; sl = Buf(8); about('SPHINCS+ signature, random source %s' % ('fails' if f else 'works'))
        r = getattr(L2, S + '_signature')(Buf(49856).p, sl.p, Buf(5, rb(5)).p, sz(5), Buf(128, rb(128)).p)
        if (r == 0) == bool(f): fail('SPHINCS+ signature returns %d although the random source %s' % (r, 'fails' if f else 'works'))
        r = getattr(L2, S)(Buf(49856 + 5).p, sl.p, Buf(5, rb(5)).p, sz(5), Buf(128, rb(128)).p)
        if (r == 0) == bool(f): fail('SPHINCS+ crypto_sign returns %d although the random source %s' % (r, 'fails' if f else 'works'))

def wasm(about):
    L = compile_so(work, 'wasm.so', [os.path.join(HERE, 'mocks_wasm.c')], muldefs=True, cflags=['-Dmalloc=v_malloc', '-Dfree=v_free'])
    g = lambda n, t=C.c_int: t.in_dll(L, n)
    rec = (C.c_ulonglong * 8).in_dll(L, 'rec')
    fns = {'dp_sign_keypair_seed': (1, 3), 'dp_sign_keypair': (2, 2), 'dp_sign': (3, 5), 'dp_sign_verify': (4, 5), 'dp_sign_seedexpander': (5, 2), 'dp_randombytes': (6, 2), 'dp_seedexpander_wrapper': (7, 4)}
    for fn, (w, n) in fns.items():
        for rc in (0, 1, -1, -2, -8, 5, -100, 256, -256):
            for rep in range(6):
                a = [rng.randrange(1 << 40) if rep else 0 for _ in range(n)]
                g('rc').value = rc; g('ncalls').value = 0; about('%s%r' % (fn, a))
                r = getattr(L, fn)(*[C.c_ulonglong(x) for x in a])
                if g('ncalls').value != 1 or g('which').value != w: fail('%s%r does not make exactly the wrapped call' % (fn, a))
                if list(rec[:n]) != a: fail('%s%r passes %r on' % (fn, a, list(rec[:n])))
                if r != rc: fail('%s returns %d instead of %d' % (fn, r, rc))
    pool = (C.c_ubyte * (1 << 20)).in_dll(L, 'pool')
    for n in [0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 255, 256, 4064, 65535, 65536, 65537, 1 << 20] + [rng.randrange(1 << 16) for _ in range(30)]:
        C.memset(pool, 0xa5, n) if n else None
        g('pooln', C.c_ulonglong).value = n; g('nfree').value = 0; about('mem_free(%d)' % n)
        L.mem_free(pool, sz(n))
        if g('nfree').value != 1 or g('freed', C.c_void_p).value != C.addressof(pool): fail('mem_free(%d) does not release the block exactly once' % n)
        if g('dirty').value: fail('mem_free(%d) releases memory that is not wiped' % n)
    for fn in ('mem_alloc', 'mem_alloc_long_long'):
        for n in (0, 1, 8, 100, 1 << 33):
            g('rc').value = 0; g('nalloc').value = 0; f = getattr(L, fn); f.restype = C.c_void_p; p = f(sz(n))
            if g('nalloc').value != 1 or g('asked', C.c_ulonglong).value != n or p != C.addressof(pool): fail('%s(%d) does not return an allocation of that size' % (fn, n))

GO = {'C07': [expander], 'C08': [comp_rand], 'C09': [randsrc], 'C10': [hashes], 'C17': [combined], 'C22': [wasm]}[which]
for g in GO:
    r = guarded(g)
    if r == 1: sys.exit(1)
print('no failing input found among the inputs tried')
