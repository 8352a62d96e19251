"""C03, C04, C06, C07 (hybrid part), C08 (hybrid part): obligations on the real sign / key-generation functions."""
import term as tm
from engine import Ptr, Violation, Infeasible
from run import Task
from hybrid import *
from p_hybrid_open import mode, c_open

ED, DIL, SPX = 'crypto_sign_ed25519_tweet', 'PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature', 'PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature'
FAILING = dict(CONTRACTS)
for k, w in ((ED, 'Ed25519 signing'), (DIL, 'Dilithium signing'), ('crypto_sign_ed25519_keypair_seed', 'Ed25519 key generation'),
             ('PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed', 'Dilithium key generation'),
             ('PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair', 'SPHINCS+ key generation'), ('seedexpander_wrapper', 'seed expander')):
    FAILING[k] = may_fail(CONTRACTS[k], w)

def bad(E):
    return E.log.get('failed') or E.log.get('spx_failed') or E.log.get('rand_failed')

def eqbytes(E, got, want, label):
    if len(got) != len(want): raise Violation(label, 'length %d vs %d' % (len(got), len(want)))
    for i, (a, b) in enumerate(zip(got, want)): E.same(8, a, b, label, 'byte %d' % i)

def full_sig(k, msg, optrand):
    return ([FULL_ID, len(msg)] + ufbytes('EDSIG', 64, seq(k[:64]), seq(msg)) + msg +
            ufbytes('DILSIG', DSIG, seq(k[64:64 + DSK]), seq(msg)) +
            ufbytes('SPXSIG', SSIG, seq(k[64 + DSK + DPK:]), seq(msg), optrand))

def compact_sig(k, msg, nonce):
    h = ufbytes('SHA3_512', 64, seq(nonce + msg + k[64 + DSK + DPK + 64:]))
    return ([COMPACT_ID, len(msg)] + ufbytes('EDSIG', 64, seq(k[:64]), seq(h)) + ufbytes('DILSIG', DSIG, seq(k[64:64 + DSK]), seq(h)) + nonce + msg)

def rand(i, n):
    return [tm.var('rand[%d]' % j, 8) for j in range(i, i + n)]

def t_sign(E, full, L):
    n = full_len(L) if full else compact_len(L)
    sm = outbuf(E, 'sm', n); sl = outbuf(E, 'smlen', 8)
    m = inputs(E, 'm', L); sk = inputs(E, 'sk', SK)
    r = E.run(F_SIGN if full else C_SIGN, (Ptr(sm, 0), Ptr(sl, 0), Ptr(m, 0), L, Ptr(sk, 0)))
    if bad(E):
        E.cover('failure')
        E.post(tm.ne(32, r, 0), 'a failing component or random source is reported')
        return
    E.cover('success')
    E.same(32, r, 0, 'signing succeeds when every component succeeds')
    eqbytes(E, sl.cells, le64(n), 'reported signature length')
    if full:
        want = full_sig(list(sk.cells), list(m.cells), E.log['optrand'])
    else:
        want = compact_sig(list(sk.cells), list(m.cells), rand(0, 40))
    eqbytes(E, sm.cells, want, 'signature layout')
    E.post(1 if E.log.get('rand', 0) == (0 if full else 40) else 0, 'exactly the documented number of fresh random bytes is used')

def t_sign_bad(E, full):
    mlen = tm.var('mlen', 64)
    case = E.fork(16)
    if case == 0:
        E.assume(tm.or_(1, tm.eq(64, mlen, 0), tm.ult(64, 64, mlen)))
        m = inputs(E, 'm', mlen)
    else:
        m = inputs(E, 'm', mlen)
    sm = outbuf(E, 'sm', 8); sl = outbuf(E, 'smlen', 8); sk = inputs(E, 'sk', SK)
    s1, s2 = snapshot(sm), snapshot(sl)
    a = [Ptr(sm, 0), Ptr(sl, 0), Ptr(m, 0), Ptr(sk, 0)]
    for k in range(4):
        if case >> k & 1: a[k] = 0
    r = E.run(F_SIGN if full else C_SIGN, (a[0], a[1], a[2], mlen, a[3]))
    E.post(tm.ne(32, r, 0), 'signing refuses illegal lengths and missing pointers')
    unchanged(E, sm, s1, 'signature buffer untouched on refusal'); unchanged(E, sl, s2, 'signature length untouched on refusal')
    E.cover('refused')

def keys(seed):
    e = ufbytes('EDKP_PK', 32, seq(seed[:32]))
    dp = ufbytes('DILKP_PK', DPK, seq(seed[32:64])); ds = ufbytes('DILKP_SK', DSK, seq(seed[32:64]))
    root = ufbytes('SPXROOT', 32, seq(seed[64:96] + seed[128:160]))
    sp = seed[128:160] + root; ss = seed[64:160] + root
    return e + dp + sp, seed[:32] + e + ds + dp + ss

def t_kpseed(E):
    pk = outbuf(E, 'pk', PK); sk = outbuf(E, 'sk', SK); seed = inputs(E, 'seed', 160)
    r = E.run(KP_SEED, (Ptr(pk, 0), Ptr(sk, 0), Ptr(seed, 0)))
    if bad(E):
        E.cover('failure')
        E.post(tm.ne(32, r, 0), 'failure of a component key generation is reported'); return
    E.cover('success')
    E.same(32, r, 0, 'key generation succeeds')
    p, s = keys(list(seed.cells))
    eqbytes(E, pk.cells, p, 'public key layout'); eqbytes(E, sk.cells, s, 'secret key layout')
    E.post(1 if not E.log.get('rand') else 0, 'seeded key generation draws no randomness')

def t_kp(E):
    pk = outbuf(E, 'pk', PK); sk = outbuf(E, 'sk', SK)
    r = E.run(KP, (Ptr(pk, 0), Ptr(sk, 0)))
    if bad(E):
        E.cover('failure')
        E.post(tm.ne(32, r, 0), 'failure of the random source or a component is reported'); return
    E.cover('success')
    E.same(32, r, 0, 'key generation succeeds')
    p, s = keys(rand(0, 160))
    eqbytes(E, pk.cells, p, 'public key layout'); eqbytes(E, sk.cells, s, 'secret key layout')
    E.post(1 if E.log.get('rand') == 160 else 0, 'exactly 160 fresh random bytes are used')

def t_kp_null(E, which):
    pk = outbuf(E, 'pk', PK); sk = outbuf(E, 'sk', SK); seed = inputs(E, 'seed', 160)
    a = [Ptr(pk, 0), Ptr(sk, 0), Ptr(seed, 0)][:2 if which == KP else 3]
    nulls = E.fork((1 << len(a)) - 1) + 1
    for k in range(len(a)):
        if nulls >> k & 1: a[k] = 0
    s1, s2 = snapshot(pk), snapshot(sk)
    r = E.run(which, tuple(a))
    E.post(tm.ne(32, r, 0), 'key generation refuses missing pointers')
    unchanged(E, pk, s1, 'public key untouched'); unchanged(E, sk, s2, 'secret key untouched')
    E.cover('refused')

def t_expand(E):
    """C07; the recorded finding (bytes 1,3,..,63 of the seed are ignored) is recognised exactly and reported as such"""
    seed = inputs(E, 'seed', 96); out = outbuf(E, 'out', 160)
    r = E.run(EXPAND, (Ptr(seed, 0), Ptr(out, 0)))
    if bad(E):
        E.cover('failure'); E.post(tm.ne(32, r, 0), 'failure of the expander is reported'); return
    E.cover('success')
    E.same(32, r, 0, 'seed expansion succeeds')
    s = list(seed.cells)
    def want(first):
        x = ufbytes('SHAKE_EXPAND', 128, seq(first))
        return x[:32] + s[64:] + x[32:]
    w = want(s[:64])
    kf = want([s[i] if i % 2 == 0 else 0 for i in range(64)])
    E.post(1, 'seed expansion')
    if out.cells[0] is kf[0]:
        E.cover('KNOWN-FINDING:seed-expander-odd-bytes')
        w = kf
    eqbytes(E, out.cells, w, 'expanded seed layout')
    E.post(1 if not E.log.get('rand') else 0, 'seed expansion draws no randomness')

# ---- C04: sign then open over one real execution ---------------------------------------
def honest(seedname):
    """component contracts extended with `a component accepts its own honest signature` (assumption of C04)"""
    C = dict(CONTRACTS)
    def ed_open(E, m, mlen, sm, n, pk):
        n = conc(E, n, 'signed message length')
        if n >= 64:
            s = E.rd(sm, n); p = E.rd(pk, EDPK); sd = E.log['seed']
            hp = ufbytes('EDKP_PK', 32, seq(sd[:32]))
            if p == hp and s[:64] == ufbytes('EDSIG', 64, seq(sd[:32] + hp), seq(s[64:])):
                E.assume(bit('EDOK', seq(p), seq(s[:64]), seq(s[64:])))
        return c_ed_open(E, m, mlen, sm, n, pk)
    def dil_verify(E, sig, siglen, m, n, pk):
        n = conc(E, n, 'message length')
        if siglen == DSIG:
            s = E.rd(sig, DSIG); msg = E.rd(m, n); p = E.rd(pk, DPK); sd = E.log['seed']
            if p == ufbytes('DILKP_PK', DPK, seq(sd[32:64])) and s == ufbytes('DILSIG', DSIG, seq(ufbytes('DILKP_SK', DSK, seq(sd[32:64]))), seq(msg)):
                E.assume(bit('DILOK', seq(p), seq(s), seq(msg)))
        return c_dil_verify(E, sig, siglen, m, n, pk)
    def spx_verify(E, sig, siglen, m, n, pk):
        n = conc(E, n, 'message length')
        if siglen == SSIG:
            s = E.rd(sig, SSIG); msg = E.rd(m, n); p = E.rd(pk, SPK); sd = E.log['seed']
            root = ufbytes('SPXROOT', 32, seq(sd[64:96] + sd[128:160]))
            if p == sd[128:160] + root and s == ufbytes('SPXSIG', SSIG, seq(sd[64:160] + root), seq(msg), E.log['optrand']):
                E.assume(bit('SPXOK', seq(p), seq(s), seq(msg)))
        return c_spx_verify(E, sig, siglen, m, n, pk)
    C['crypto_sign_ed25519_tweet_open'] = ed_open
    C['PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify'] = dil_verify
    C['PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify'] = spx_verify
    return C

def t_roundtrip(E, full, L):
    pk = E.obj('pk', PK); sk = E.obj('sk', SK); seed = inputs(E, 'seed', 160)
    E.log['seed'] = list(seed.cells)
    r = E.run(KP_SEED, (Ptr(pk, 0), Ptr(sk, 0), Ptr(seed, 0)))
    E.same(32, r, 0, 'key generation succeeds')
    n = full_len(L) if full else compact_len(L)
    sm = E.obj('sm', n); sl = outbuf(E, 'smlen', 8); m = inputs(E, 'm', L)
    r = E.run(F_SIGN if full else C_SIGN, (Ptr(sm, 0), Ptr(sl, 0), Ptr(m, 0), L, Ptr(sk, 0)))
    if E.branch(tm.ne(32, r, 0)):
        E.post(1 if bad(E) else 0, 'signing fails only when a component or the random source fails')
        return
    pk.ro = True; sm.ro = True
    out = outbuf(E, 'out', 64); ol = outbuf(E, 'outlen', 8)
    smlen = E.load(Ptr(sl, 0), 8)
    r = E.run(F_OPEN if full else C_OPEN, (Ptr(out, 0), Ptr(ol, 0), Ptr(sm, 0), smlen, Ptr(pk, 0)))
    E.same(32, r, 0, 'open accepts what signing produced')
    eqbytes(E, ol.cells, le64(L), 'opened length'); eqbytes(E, out.cells[:L], m.cells, 'opened message')
    r = E.run(F_VERIFY if full else C_VERIFY, (Ptr(m, 0), L, Ptr(sm, 0), smlen, Ptr(pk, 0)))
    E.same(32, r, 0, 'verify accepts what signing produced')
    s1, s2 = snapshot(out), snapshot(ol)
    r = E.run(C_OPEN if full else F_OPEN, (Ptr(out, 0), Ptr(ol, 0), Ptr(sm, 0), smlen, Ptr(pk, 0)))
    E.post(tm.ne(32, r, 0), 'the other mode refuses it (open)')
    unchanged(E, out, s1, 'message untouched by the other mode'); unchanged(E, ol, s2, 'length untouched by the other mode')
    r = E.run(C_VERIFY if full else F_VERIFY, (Ptr(m, 0), L, Ptr(sm, 0), smlen, Ptr(pk, 0)))
    E.post(tm.ne(32, r, 0), 'the other mode refuses it (verify)')
    E.cover('roundtrip')

def sign_tasks(full):
    nm = 'full' if full else 'compact'; f = F_SIGN if full else C_SIGN
    ts = [Task('%s.sign[len=%d]' % (nm, L), f, t_sign, FAILING, args=(full, L), need_cover=('success', 'failure')) for L in range(1, 65)]
    ts.append(Task('%s.sign[refusals]' % nm, f, t_sign_bad, FAILING, args=(full,), need_cover=('refused',)))
    return ts

def kp_tasks():
    return [Task('keypair_seed', KP_SEED, t_kpseed, FAILING, need_cover=('success', 'failure')),
            Task('keypair', KP, t_kp, FAILING, need_cover=('success', 'failure')),
            Task('keypair_seed[null]', KP_SEED, t_kp_null, FAILING, args=(KP_SEED,), need_cover=('refused',)),
            Task('keypair[null]', KP, t_kp_null, FAILING, args=(KP,), need_cover=('refused',))]

def expand_tasks():
    return [Task('seed_expander', EXPAND, t_expand, FAILING, need_cover=('success', 'failure'))]

def roundtrip_tasks():
    ts = []
    for full in (True, False):
        for L in range(1, 65):
            ts.append(Task('%s.roundtrip[len=%d]' % ('full' if full else 'compact', L), 'sign/open', t_roundtrip, honest('seed'), args=(full, L), need_cover=('roundtrip',)))
    return ts
