"""Native replay of the hybrid layer: the real hybrid.c, component schemes replaced by programmable stand-ins."""
import sys, hashlib, ctypes as C
from nlib import *
which, work = sys.argv[1], sys.argv[2]
L = compile_so(work, 'hyb.so', [os.path.join(HERE, 'mocks.c')], muldefs=True)
u8p = C.c_void_p
def uf(name, n, *a): return hashlib.shake_256(name.encode() + b''.join(len(x).to_bytes(8, 'little') + x for x in a)).digest(n)
DPK, DSK, DSIG, SSIG = 1312, 2560, 2420, 49856
PK, SK = 1408, 4064
acc = dict(ed=set(), dil=set(), spx=set())
honest = [False]
fails = set()
rand_log = []
def at(p, n): return C.string_at(p, n) if n else b''
def ok(kind, pk, sig, m): return (pk, sig, m) in acc[kind]
F5 = C.CFUNCTYPE(C.c_int, u8p, u8p, u8p, C.c_ulonglong, u8p)
FV = C.CFUNCTYPE(C.c_int, u8p, C.c_size_t, u8p, C.c_size_t, u8p)
F3 = C.CFUNCTYPE(C.c_int, u8p, u8p, u8p)
FR = C.CFUNCTYPE(C.c_int, u8p, C.c_size_t)
def ed_sign(sm, sl, m, n, sk):
    msg = at(m, n); d = uf('EDSIG', 64, at(sk, 64), msg) + msg
    C.memmove(sm, d, len(d)); C.memmove(sl, (n + 64).to_bytes(8, 'little'), 8)
    if honest[0]: acc['ed'].add((at(sk, 64)[32:], d[:64], msg))
    return -1 if 'ed_sign' in fails else 0
def ed_open(m, ml, sm, n, pk):
    if n < 64:
        C.memmove(ml, b'\xff' * 8, 8); return -1
    s = at(sm, n)
    good = ok('ed', at(pk, 32), s[:64], s[64:])
    C.memmove(m, s if not good else s[64:], n if not good else n - 64)
    C.memmove(ml, (n - 64).to_bytes(8, 'little') if good else b'\xff' * 8, 8)
    return 0 if good else -1
def ed_kp(pk, sk, seed):
    s = at(seed, 32); p = uf('EDKP', 32, s); C.memmove(pk, p, 32); C.memmove(sk, s + p, 64)
    return -1 if 'ed_kp' in fails else 0
def dil_kp(pk, sk, seed):
    s = at(seed, 32); C.memmove(pk, uf('DPK', DPK, s), DPK); C.memmove(sk, uf('DSK', DSK, s), DSK)
    return -1 if 'dil_kp' in fails else 0
def spx_kp(pk, sk, seed):
    s = at(seed, 96); r = uf('ROOT', 32, s[:32] + s[64:]); C.memmove(pk, s[64:] + r, 64); C.memmove(sk, s + r, 128)
    return -1 if 'spx_kp' in fails else 0
dpk_of = {}
def dil_sign(sg, sl, m, n, sk):
    msg = at(m, n); k = at(sk, DSK); d = uf('DSIG', DSIG, k, msg); C.memmove(sg, d, DSIG); C.memmove(sl, DSIG.to_bytes(8, 'little'), 8)
    if honest[0] and k in dpk_of: acc['dil'].add((dpk_of[k], d, msg))
    return -1 if 'dil_sign' in fails else 0
def dil_verify(sg, sl, m, n, pk):
    if sl != DSIG: return -1
    return 0 if ok('dil', at(pk, DPK), at(sg, DSIG), at(m, n)) else -1
optrand = [0]
def spx_sign(sg, sl, m, n, sk):
    if 'spx_sign' in fails: return -1
    optrand[0] += 1
    msg = at(m, n); k = at(sk, 128); d = uf('SSIG', SSIG, k, msg, bytes([optrand[0] & 255])); C.memmove(sg, d, SSIG); C.memmove(sl, SSIG.to_bytes(8, 'little'), 8)
    if honest[0]: acc['spx'].add((k[64:], d, msg))
    return 0
def spx_verify(sg, sl, m, n, pk):
    if sl != SSIG: return -1
    return 0 if ok('spx', at(pk, 64), at(sg, SSIG), at(m, n)) else -1
def rand_(b, n):
    if 'rand' in fails: return -1
    d = rb(n); C.memmove(b, d, n) if n else None; rand_log.append(d); return 0
keep = []
for nm, T, f in (('ed_sign', F5, ed_sign), ('ed_open', F5, ed_open), ('ed_kp', F3, ed_kp), ('dil_kp', F3, dil_kp), ('spx_kp', F3, spx_kp), ('dil_sign', F5, dil_sign),
                 ('dil_verify', FV, dil_verify), ('spx_sign', F5, spx_sign), ('spx_verify', FV, spx_verify), ('rand', FR, rand_)):
    cb = T(f); keep.append(cb); C.c_void_p.in_dll(L, 'cb_' + nm).value = C.cast(cb, C.c_void_p).value
ul = C.c_ulonglong
def name(full, what):
    c = '' if full else 'compact_'
    return {'open': 'crypto_sign_%sdilithium_ed25519_sphincs_open' % c, 'verify': 'crypto_verify_%sdilithium_ed25519_sphincs' % c, 'sign': 'crypto_sign_%sdilithium_ed25519_sphincs' % c}[what]
def flen(full, n): return 2 + 64 + n + DSIG + SSIG if full else 2 + 64 + DSIG + 40 + n
def sha3(b): return hashlib.sha3_512(b).digest()
def split(full, sm, n, pk):
    """(ed triple, dil triple, spx triple or None, message)"""
    if full:
        msg = sm[66:66 + n]
        return (pk[:32], sm[2:66], msg), (pk[32:32 + DPK], sm[66 + n:66 + n + DSIG], msg), (pk[32 + DPK:], sm[66 + n + DSIG:], msg), msg
    b = 66 + DSIG; msg = sm[b + 40:]
    h = sha3(sm[b:b + 40] + msg + pk[32 + DPK:])
    return (pk[:32], sm[2:66], h), (pk[32:32 + DPK], sm[66:66 + DSIG], h), None, msg
def spec_open(full, sm, pk):
    n = len(sm) - flen(full, 0)
    if not 1 <= n <= 64 or sm[0] != (2 if full else 1) or sm[1] != n: return None
    e, d, s, msg = split(full, sm, n, pk)
    if e in acc['ed'] and d in acc['dil'] and (s is None or s in acc['spx']): return msg
    return None
def try_open(about, full, sm, pk, what):
    n = len(sm)
    about('%s open, %s, length %d' % ('full' if full else 'compact', what, n))
    e = n - flen(full, 0)
    cap = e if 1 <= e <= 64 else 64
    pre = rb(cap); prel = rb(8)
    m = Buf(cap, pre); ml = Buf(8, prel); s = Buf(n, sm, ro=True); p = Buf(PK, pk, ro=True)
    r = getattr(L, name(full, 'open'))(m.p, ml.p, s.p, ul(n), p.p)
    want = spec_open(full, sm, pk)
    d = '%s-mode open: %s; message length field %d, supplied length %d' % ('full' if full else 'compact', what, sm[1] if n > 1 else -1, n)
    if (r == 0) != (want is not None): fail('%s: returned %d but %s' % (d, r, 'every condition holds' if want is not None else 'a condition is violated'))
    if want is not None:
        if m.get()[:len(want)] != want or int.from_bytes(ml.get(), 'little') != len(want): fail(d + ': wrong message or length returned')
    elif m.get() != pre or ml.get() != prel: fail(d + ': outputs modified by a failing call')
    for delta in (None, 'same', 'flip', 'short', 'long'):
        emb = want if want is not None else rb(min(max(e, 1), 64))
        if delta == 'flip':
            k = rng.randrange(len(emb)); mm = emb[:k] + bytes([emb[k] ^ (1 << rng.randrange(8))]) + emb[k + 1:]
        elif delta == 'short': mm = emb[:-1]
        elif delta == 'long': mm = emb + b'\0'
        else: mm = emb
        b = Buf(len(mm), mm, ro=True)
        about('%s verify, %s, message %s' % ('full' if full else 'compact', what, delta))
        r = getattr(L, name(full, 'verify'))(b.p, ul(len(mm)), s.p, ul(n), p.p)
        w = want is not None and want == mm
        if (r == 0) != w: fail('%s-mode verify: %s, caller message %s: returned %d, specified %s' % ('full' if full else 'compact', what, delta, r, 'accept' if w else 'reject'))
def mk(full, n):
    pk = rb(PK); sm = bytearray(rb(flen(full, n))); sm[0] = 2 if full else 1; sm[1] = n
    return bytes(sm), pk
def accept_all(full, sm, pk):
    for k in acc: acc[k].clear()
    e, d, s, _ = split(full, sm, len(sm) - flen(full, 0), pk)
    acc['ed'].add(e); acc['dil'].add(d)
    if s: acc['spx'].add(s)
def opens(full):
    def go(about):
        for n in range(1, 65):
            sm, pk = mk(full, n); accept_all(full, sm, pk)
            try_open(about, full, sm, pk, 'all components accept')
            e, d, s, _ = split(full, sm, n, pk)
            for mask in range(1, 8 if full else 4):
                for k in acc: acc[k].clear()
                if not mask & 1: acc['ed'].add(e)
                if not mask & 2: acc['dil'].add(d)
                if s and not mask & 4: acc['spx'].add(s)
                try_open(about, full, sm, pk, 'components rejecting (1 Ed25519, 2 Dilithium, 4 SPHINCS+): %d' % mask)
            accept_all(full, sm, pk)
            for x in (0, 1, 2, 3, 255):
                try_open(about, full, bytes([x]) + sm[1:], pk, 'id byte %d' % x)
            for x in range(256) if n in (1, 7, 63, 64) else (0, n - 1, n + 1, 64, 65, 255, n ^ 128, n ^ 64, n ^ 1):
                try_open(about, full, sm[:1] + bytes([x & 255]) + sm[2:], pk, 'length byte %d' % x)
            for x in list(range(0, 130)) + [flen(full, 0) - 1, flen(full, 0), flen(full, 65), flen(full, 66)] if n == 5 else []:
                try_open(about, full, (sm + rb(200))[:x], pk, 'length')
            k = len(sm)
            small = list(range(2, min(k, 200))) + list(range(max(0, k - 120), k))
            for x in rng.sample(small, 10) + [rng.randrange(k) for _ in range(8)]:
                try_open(about, full, sm[:x] + bytes([sm[x] ^ (1 << rng.randrange(8))]) + sm[x + 1:], pk, 'signature byte %d changed' % x)
            for x in [rng.randrange(PK) for _ in range(4)] + [rng.randrange(PK - 64, PK) for _ in range(4)] + [rng.randrange(32)]:
                try_open(about, full, sm, pk[:x] + bytes([pk[x] ^ (1 << rng.randrange(8))]) + pk[x + 1:], 'public key byte %d changed' % x)
        sm, pk = mk(full, 9); accept_all(full, sm, pk)
        for bit in range(1 if full else 1, 1 << (4)):
            m, ml, s, p = Buf(64, bytes(64)), Buf(8, bytes(8)), Buf(len(sm), sm), Buf(PK, pk)
            a = [x.p for x in (m, ml, s, p)]
            for k in range(4):
                if bit >> k & 1: a[k] = None
            about('open with null pointer mask %d' % bit)
            if getattr(L, name(full, 'open'))(a[0], a[1], a[2], ul(len(sm)), a[3]) == 0: fail('open with null pointer mask %d succeeds' % bit)
        about('extreme lengths')
        for n in (0, 1, 2, flen(full, 0), flen(full, 65), 2**31, 2**32, 2**32 + len(sm), 2**63, 2**64 - 1, 2**64 - 2420):
            m, ml = Buf(64, bytes(64)), Buf(8, bytes(8)); p = Buf(PK, pk); s = Buf(min(n, 60000), (sm + bytes(60000))[:min(n, 60000)])
            about('open with supplied length %d' % n)
            if getattr(L, name(full, 'open'))(m.p, ml.p, s.p, ul(n), p.p) == 0: fail('open with supplied length %d succeeds' % n)
            b = Buf(9, sm[66:75] if full else sm[-9:])
            about('verify with supplied length %d' % n)
            if getattr(L, name(full, 'verify'))(b.p, ul(9), s.p, ul(n), p.p) == 0: fail('verify with supplied length %d succeeds' % n)
        for n in (0, 65, 2**32 + 9, 2**64 - 1, 256 + 9):
            b = Buf(min(n, 400), bytes(min(n, 400))); s = Buf(len(sm), sm); p = Buf(PK, pk)
            about('verify with message length %d' % n)
            if getattr(L, name(full, 'verify'))(b.p, ul(n), s.p, ul(len(sm)), p.p) == 0: fail('verify with message length %d succeeds' % n)
        if not full:
            for n in range(1, 65):
                for k in acc: acc[k].clear()
                msg = rb(n); sg = rb(DSIG); pk2 = rb(DPK)
                for good in (0, 1):
                    if good: acc['dil'].add((pk2, sg, msg))
                    about('crypto_verify_dilithium')
                    r = L.crypto_verify_dilithium(Buf(n, msg).p, ul(n), Buf(DSIG, sg).p, ul(DSIG), Buf(DPK, pk2).p)
                    if (r == 0) != bool(good): fail('crypto_verify_dilithium returned %d although the component %s (message length %d)' % (r, 'accepts' if good else 'rejects', n))
            for sl in (0, DSIG - 1, DSIG + 1):
                r = L.crypto_verify_dilithium(Buf(n, msg).p, ul(n), Buf(sl, (sg + b'0')[:sl]).p, ul(sl), Buf(DPK, pk2).p)
                if r == 0: fail('crypto_verify_dilithium accepts signature length %d' % sl)
    return go
def signs(full):
    def go(about):
        for n in range(1, 65):
            for rep in range(3):
                sk = rb(SK); msg = rb(n); k = flen(full, n)
                sm = Buf(k, rb(k)); sl = Buf(8, rb(8)); s = Buf(SK, sk, ro=True); m = Buf(n, msg, ro=True)
                for f in ((), ('ed_sign',), ('dil_sign',), ('spx_sign',), ('rand',)):
                    fails.clear(); fails.update(f); rand_log.clear(); o0 = optrand[0]
                    about('sign full=%d length %d failing=%s' % (full, n, f))
                    r = getattr(L, name(full, 'sign'))(sm.p, sl.p, m.p, ul(n), s.p)
                    relevant = bool(f) and not (full and f[0] == 'rand') and not (not full and f[0] == 'spx_sign')
                    if relevant:
                        if r == 0: fail('%s signing reports success although %s fails' % ('full' if full else 'compact', f[0]))
                        continue
                    if r != 0: fail('%s signing of a %d-byte message fails with %d' % ('full' if full else 'compact', n, r))
                    if full:
                        w = bytes([2, n]) + uf('EDSIG', 64, sk[:64], msg) + msg + uf('DSIG', DSIG, sk[64:64 + DSK], msg) + uf('SSIG', SSIG, sk[-128:], msg, bytes([optrand[0] & 255]))
                    else:
                        nonce = b''.join(rand_log)
                        if len(nonce) != 40: fail('compact signing draws %d random bytes instead of 40' % len(nonce))
                        h = sha3(nonce + msg + sk[-64:])
                        w = bytes([1, n]) + uf('EDSIG', 64, sk[:64], h) + uf('DSIG', DSIG, sk[64:64 + DSK], h) + nonce + msg
                    g = sm.get()
                    if g != w:
                        i = next(i for i in range(k) if g[i] != w[i]); fail('%s signature of a %d-byte message differs from the documented layout at byte %d; message %s' % ('full' if full else 'compact', n, i, msg.hex()))
                    if int.from_bytes(sl.get(), 'little') != k: fail('reported signature length %d instead of %d' % (int.from_bytes(sl.get(), 'little'), k))
        fails.clear()
        for n in (0, 65, 66, 255, 256, 257, 300, 2**32, 2**32 + 5, 2**63, 2**64 - 1):
            sm, sl, s, m = Buf(60000, bytes(60000)), Buf(8, b'a' * 8), Buf(SK, rb(SK)), Buf(min(n, 4096), bytes(min(n, 4096)))
            about('sign full=%d with message length %d' % (full, n))
            r = getattr(L, name(full, 'sign'))(sm.p, sl.p, m.p, ul(n), s.p)
            if r == 0: fail('signing a message of length %d succeeds' % n)
            if sm.get() != bytes(60000) or sl.get() != b'a' * 8: fail('refused signing (length %d) wrote output' % n)
        for bit in range(1, 16):
            sm, sl, m, s = Buf(60000, bytes(60000)), Buf(8, b'a' * 8), Buf(9, bytes(9)), Buf(SK, rb(SK))
            a = [x.p for x in (sm, sl, m, s)]
            for k in range(4):
                if bit >> k & 1: a[k] = None
            about('sign full=%d with null pointer mask %d' % (full, bit))
            r = getattr(L, name(full, 'sign'))(a[0], a[1], a[2], ul(9), a[3])
            if r == 0: fail('signing with null pointer mask %d succeeds' % bit)
            if sm.get() != bytes(60000) or sl.get() != b'a' * 8: fail('refused signing (null mask %d) wrote output' % bit)
    return go
def keys(seed):
    e = uf('EDKP', 32, seed[:32]); dp = uf('DPK', DPK, seed[32:64]); ds = uf('DSK', DSK, seed[32:64]); r = uf('ROOT', 32, seed[64:96] + seed[128:])
    return e + dp + seed[128:] + r, seed[:32] + e + ds + dp + seed[64:] + r
def kps(about):
    for rep in range(200):
        f = rng.choice(((), (), ('ed_kp',), ('dil_kp',), ('spx_kp',), ('rand',)))
        fails.clear(); fails.update(f); rand_log.clear()
        seeded = rng.random() < .5
        pk, sk = Buf(PK, rb(PK), front=rep % 2), Buf(SK, rb(SK), front=rep % 2)
        about('key generation')
        if seeded:
            seed = rb(160); r = L.crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk.p, sk.p, Buf(160, seed, ro=True).p)
            if f == ('rand',): f = ()
        else:
            r = L.crypto_sign_dilithium_ed25519_sphincs_keypair(pk.p, sk.p); seed = b''.join(rand_log)
        if f:
            if r == 0: fail('key generation (%s) reports success although %s fails' % ('seeded' if seeded else 'random', f[0]))
            continue
        if r != 0: fail('key generation fails with %d' % r)
        if len(seed) != 160: fail('key generation draws %d random bytes' % len(seed))
        p, s = keys(seed)
        for nm, g, w in (('public', pk.get(), p), ('secret', sk.get(), s)):
            if g != w: fail('%s key differs from the documented layout at byte %d for seed %s' % (nm, next(i for i in range(len(w)) if g[i] != w[i]), seed.hex()))
    for bit in range(1, 8):
        a = [x.p for x in (Buf(PK, rb(PK)), Buf(SK, rb(SK)), Buf(160, rb(160)))]
        for k in range(3):
            if bit >> k & 1: a[k] = None
        about('keypair_seed null mask %d' % bit)
        if L.crypto_sign_dilithium_ed25519_sphincs_keypair_seed(*a) == 0: fail('keypair_seed with null mask %d succeeds' % bit)
        if bit & 3:
            about('keypair null mask %d' % bit)
            if L.crypto_sign_dilithium_ed25519_sphincs_keypair(*a[:2]) == 0: fail('keypair with null mask %d succeeds' % bit)
def rts(about):
    honest[0] = True; fails.clear()
    for full in (0, 1):
        for n in range(1, 65):
            for k in acc: acc[k].clear()
            seed = rb(160); pk, sk = Buf(PK), Buf(SK)
            L.crypto_sign_dilithium_ed25519_sphincs_keypair_seed(pk.p, sk.p, Buf(160, seed).p)
            kp = keys(seed); dpk_of.clear(); dpk_of[uf('DSK', DSK, seed[32:64])] = uf('DPK', DPK, seed[32:64])
            k = flen(full, n); sm = Buf(k); sl = Buf(8); msg = rb(n); m = Buf(n, msg)
            about('round trip length %d' % n)
            r = getattr(L, name(full, 'sign'))(sm.p, sl.p, m.p, ul(n), sk.p)
            if r: fail('signing fails (%d)' % r)
            q = int.from_bytes(sl.get(), 'little'); o = Buf(64, rb(64)); ol = Buf(8)
            r = getattr(L, name(full, 'open'))(o.p, ol.p, sm.p, ul(q), pk.p)
            tag = '%s mode, %d-byte message %s, seed %s' % ('full' if full else 'compact', n, msg.hex(), seed.hex())
            if r: fail('open refuses (%d) what signing produced: %s' % (r, tag))
            if o.get()[:n] != msg or int.from_bytes(ol.get(), 'little') != n: fail('open returns a different message: ' + tag)
            if getattr(L, name(full, 'verify'))(m.p, ul(n), sm.p, ul(q), pk.p): fail('verify refuses what signing produced: ' + tag)
            if getattr(L, name(not full, 'open'))(o.p, ol.p, sm.p, ul(q), pk.p) == 0: fail('the other mode opens it: ' + tag)
            if getattr(L, name(not full, 'verify'))(m.p, ul(n), sm.p, ul(q), pk.p) == 0: fail('the other mode verifies it: ' + tag)
def expands(about):
    for rep in range(300):
        seed = bytearray(rb(96)); o = Buf(160, rb(160), front=rep % 2)
        about('seed expansion ' + seed.hex())
        r = L.crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(Buf(96, seed, ro=True).p, o.p)
        if r: fail('seed expansion fails (%d) for %s' % (r, seed.hex()))
        for first in (bytes(seed[:64]), bytes(seed[i] if i % 2 == 0 else 0 for i in range(64))):
            x = hashlib.shake_256(first + b'\x02').digest(128) if 0 else None
        g = o.get()
        if g[32:64] != bytes(seed[64:]): fail('expanded seed bytes 32..63 are not input bytes 64..95 for %s' % seed.hex())
        exp = Buf(128); 
        good = False
        for first in (bytes(seed[:64]), bytes(seed[i] if i % 2 == 0 else 0 for i in range(64))):
            L.seedexpander_wrapper(Buf(64, first).p, C.c_size_t(64), exp.p, C.c_size_t(128)); x = exp.get()
            good |= g == x[:32] + bytes(seed[64:]) + x[32:]
        if not good: fail('expanded seed is not the specified layout for %s' % seed.hex())
GO = {'C01': [opens(True)], 'C02': [opens(False)], 'C03': [signs(True), signs(False)], 'C04': [rts], 'C06': [kps], 'C07': [expands],
      'C05': [opens(True), opens(False), signs(True), signs(False), kps], 'C08': [signs(False), signs(True), kps]}[which]
for g in GO:
    r = guarded(g)
    if r == 1: sys.exit(1)
print('no failing input found among the inputs tried')
