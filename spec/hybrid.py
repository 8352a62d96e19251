"""Contracts of the component schemes as the hybrid layer sees them, and the specification of the hybrid layer.

The component operations are uninterpreted functions of exactly the bytes they are specified to depend on:
  EDSIG(sk,m)   64 bytes      EDOK(pk,sig,m)   1 bit
  DILSIG(sk,m)  2420 bytes    DILOK(pk,sig,m)
  SPXSIG(sk,m,rand) 49856     SPXOK(pk,sig,m)
  SHA3_512(m)   64 bytes
so that proving `accept == EDOK(..) & DILOK(..) & SPXOK(..)` for uninterpreted symbols proves it for the real ones.
"""
import term as tm
from engine import Ptr, Violation, Unsupported, conc

EDPK, EDSK, EDSIG = 32, 64, 64
DPK, DSK, DSIG = 1312, 2560, 2420
SPK, SSK, SSIG = 64, 128, 49856
PK = EDPK + DPK + SPK
SK = EDSK + DSK + DPK + SSK
NONCE = 40
FULL_ID, COMPACT_ID = 2, 1
MAXM = 64

NEG1 = (1 << 32) - 1

def seq(bs):
    """canonical hashable form of a byte sequence (runs of consecutive bytes of one wide term are compressed)"""
    out = []
    i = 0; n = len(bs)
    while i < n:
        b = bs[i]
        if b.__class__ is tm.T and b.op == 'ext' and b.a[1] % 8 == 0 and b.w == 8 and b.a[0].op == 'app':
            base = b.a[0]; k = b.a[1] // 8; j = i
            while j < n and bs[j].__class__ is tm.T and bs[j].op == 'ext' and bs[j].a[0] is base and bs[j].a[1] == 8 * (k + j - i) and bs[j].w == 8:
                j += 1
            out.append(('run', base, k, j - i)); i = j; continue
        out.append(b); i += 1
    return tuple(out)

def uf(name, n, *args):
    """n-byte uninterpreted function value"""
    return tm.app(name, 8 * n, args)

def ufbytes(name, n, *args):
    t = uf(name, n, *args)
    return [tm.ext(t, 8 * n, 8 * i, 8 * i + 8) for i in range(n)] if n > 1 else [t]

def bit(name, *args):
    return tm.app(name, 1, args)

def le64(v):
    return [(v >> (8 * i)) & 255 for i in range(8)]

def note(E, what):
    E.stats.assumed.add(what)

# ---- contracts used at call sites in the hybrid layer ----------------------------------
def c_ed_sign(E, sm, smlen, m, n, sk):
    n = conc(E, n, 'message length')
    msg = E.rd(m, n); k = E.rd(sk, EDSK)
    E.wr(smlen, le64(n + 64))
    E.wr(sm, ufbytes('EDSIG', 64, seq(k), seq(msg)) + msg)
    return 0

def c_ed_open(E, m, mlen, sm, n, pk):
    n = conc(E, n, 'signed message length')
    s = E.rd(sm, n); p = E.rd(pk, EDPK)
    E._off(mlen, 8, 'write')
    E.log.setdefault('calls', []).append('ed')
    if n < 64:
        E.wr(mlen, [255] * 8)
        return NEG1
    E._off(m, n, 'write')
    ok = bit('EDOK', seq(p), seq(s[:64]), seq(s[64:]))
    E.wr(m, [E.fresh('edopen', 8) for _ in range(n)])
    if E.branch(ok):
        if n > 64: E.wr(m, s[64:])
        E.wr(mlen, le64(n - 64))
        return 0
    E.wr(mlen, [255] * 8)
    return NEG1

def c_ed_keypair_seed(E, pk, sk, seed):
    s = E.rd(seed, 32)
    E.wr(pk, ufbytes('EDKP_PK', 32, seq(s)))
    E.wr(sk, s + ufbytes('EDKP_PK', 32, seq(s)))
    return 0

def c_dil_keypair_seed(E, pk, sk, seed):
    s = E.rd(seed, 32)
    E.wr(pk, ufbytes('DILKP_PK', DPK, seq(s)))
    E.wr(sk, ufbytes('DILKP_SK', DSK, seq(s)))
    return 0

def c_spx_keypair_seed(E, pk, sk, seed):
    s = E.rd(seed, 96)
    root = ufbytes('SPXROOT', 32, seq(s[:32] + s[64:96]))
    E.wr(pk, s[64:96] + root)
    E.wr(sk, s + root)
    return 0

def c_dil_sign(E, sig, siglen, m, n, sk):
    n = conc(E, n, 'message length')
    msg = E.rd(m, n); k = E.rd(sk, DSK)
    E.wr(sig, ufbytes('DILSIG', DSIG, seq(k), seq(msg)))
    E.wr(siglen, le64(DSIG))
    return 0

def c_dil_verify(E, sig, siglen, m, n, pk):
    E.log.setdefault('calls', []).append('dil')
    if siglen.__class__ is tm.T and E.branch(tm.ne(64, siglen, DSIG)): return NEG1
    siglen = conc(E, siglen, 'signature length')
    if siglen != DSIG: return NEG1
    n = conc(E, n, 'message length')
    s = E.rd(sig, DSIG); msg = E.rd(m, n); p = E.rd(pk, DPK)
    return 0 if E.branch(bit('DILOK', seq(p), seq(s), seq(msg))) else NEG1

def c_spx_sign(E, sig, siglen, m, n, sk):
    """may fail when the random source fails"""
    n = conc(E, n, 'message length')
    msg = E.rd(m, n); k = E.rd(sk, SSK)
    E._off(sig, SSIG, 'write'); E._off(siglen, 8, 'write')
    if E.fork(2, 'sphincs sign fails') == 1:
        E.log['spx_failed'] = True
        return NEG1
    E.fresh_n += 1
    r = tm.var('optrand#%d' % E.fresh_n, 256)
    E.log['optrand'] = r
    E.wr(sig, ufbytes('SPXSIG', SSIG, seq(k), seq(msg), r))
    E.wr(siglen, le64(SSIG))
    return 0

def c_spx_verify(E, sig, siglen, m, n, pk):
    E.log.setdefault('calls', []).append('spx')
    siglen = conc(E, siglen, 'signature length')
    if siglen != SSIG: return NEG1
    n = conc(E, n, 'message length')
    s = E.rd(sig, SSIG); msg = E.rd(m, n); p = E.rd(pk, SPK)
    return 0 if E.branch(bit('SPXOK', seq(p), seq(s), seq(msg))) else NEG1

def c_sha3_512(E, out, m, n):
    n = conc(E, n, 'message length')
    msg = E.rd(m, n)
    E.wr(out, ufbytes('SHA3_512', 64, seq(msg)))

def c_randombytes(E, buf, n):
    """fills all n bytes and returns 0, or returns -1 having written any of them"""
    n = conc(E, n, 'length')
    if n: E._off(buf, n, 'write')
    k = E.log.get('rand', 0)
    if n and E.fork(2, 'random source fails') == 1:
        E.log['rand_failed'] = True
        E.wr(buf, [tm.var('unfilled[%d]' % (k + i), 8) for i in range(n)])
        return NEG1
    E.log['rand'] = k + n
    if n: E.wr(buf, [tm.var('rand[%d]' % (k + i), 8) for i in range(n)])
    return 0

def may_fail(c, what):
    """the same contract with an additional failing outcome (non-zero return, outputs arbitrary)"""
    def f(E, *a):
        if E.fork(2, what) == 1:
            E.log['failed'] = what
            c(E, *a)
            r = E.fresh('rc', 32); E.assume(tm.ne(32, r, 0))
            return r
        return c(E, *a)
    return f

def c_seedexpander_wrapper(E, seed, seedlen, out, outlen):
    seedlen = conc(E, seedlen, 'seed length'); outlen = conc(E, outlen, 'output length')
    if seed == 0 or out == 0: return NEG1
    if seedlen < 32: return NEG1 - 1
    if outlen <= seedlen: return NEG1 - 2
    s = E.rd(seed, seedlen)
    E.wr(out, ufbytes('SHAKE_EXPAND', outlen, seq(s)))
    return 0

CONTRACTS = {
    'crypto_sign_ed25519_tweet': c_ed_sign,
    'crypto_sign_ed25519_tweet_open': c_ed_open,
    'crypto_sign_ed25519_keypair_seed': c_ed_keypair_seed,
    'PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed': c_dil_keypair_seed,
    'PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature': c_dil_sign,
    'PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify': c_dil_verify,
    'PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair': c_spx_keypair_seed,
    'PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature': c_spx_sign,
    'PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify': c_spx_verify,
    'sha3_512': c_sha3_512,
    'randombytes': c_randombytes,
    'seedexpander_wrapper': c_seedexpander_wrapper,
}

F_OPEN = 'crypto_sign_dilithium_ed25519_sphincs_open'
F_VERIFY = 'crypto_verify_dilithium_ed25519_sphincs'
F_SIGN = 'crypto_sign_dilithium_ed25519_sphincs'
C_OPEN = 'crypto_sign_compact_dilithium_ed25519_sphincs_open'
C_VERIFY = 'crypto_verify_compact_dilithium_ed25519_sphincs'
C_SIGN = 'crypto_sign_compact_dilithium_ed25519_sphincs'
KP_SEED = 'crypto_sign_dilithium_ed25519_sphincs_keypair_seed'
KP = 'crypto_sign_dilithium_ed25519_sphincs_keypair'
EXPAND = 'crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander'
V_DIL = 'crypto_verify_dilithium'

def inputs(E, name, n, ro=True):
    o = E.obj(name, n, 'input', 'arg', ro)
    return o

def outbuf(E, name, n):
    """caller-supplied output buffer with arbitrary previous contents"""
    o = E.obj(name, n, 'input', 'arg', False)
    o.written = set()
    return o

def snapshot(o):
    return list(o.cells) if o.cells.__class__ is list else dict(o.cells)

def unchanged(E, o, snap, label):
    if o.cells.__class__ is list:
        for i, (a, b) in enumerate(zip(o.cells, snap)):
            E.same(8, a, b, label, '%s[%d]' % (o.name, i))
    else:
        for i, a in o.cells.items():
            E.same(8, a, tm.var('%s[%d]' % (o.name, i), 8), label, '%s[%d]' % (o.name, i))

# ---- specification of acceptance --------------------------------------------------------
def full_accept(sm, mlen, pk):
    """bit: the three component verdicts for a well-formed full-mode signature carrying an mlen-byte message"""
    e = 2 + EDSIG
    msg = sm[e:e + mlen]
    d = sm[e + mlen:e + mlen + DSIG]
    s = sm[e + mlen + DSIG:e + mlen + DSIG + SSIG]
    return (bit('EDOK', seq(pk[:32]), seq(sm[2:66]), seq(msg)),
            bit('DILOK', seq(pk[32:32 + DPK]), seq(d), seq(msg)),
            bit('SPXOK', seq(pk[32 + DPK:]), seq(s), seq(msg))), msg

def compact_accept(sm, mlen, pk):
    b = 2 + EDSIG + DSIG
    nonce = sm[b:b + NONCE]; msg = sm[b + NONCE:b + NONCE + mlen]
    h = ufbytes('SHA3_512', 64, seq(nonce + msg + pk[32 + DPK:]))
    return (bit('EDOK', seq(pk[:32]), seq(sm[2:66]), seq(h)),
            bit('DILOK', seq(pk[32:32 + DPK]), seq(sm[66:66 + DSIG]), seq(h))), msg

def full_len(mlen): return 2 + EDSIG + mlen + DSIG + SSIG
def compact_len(mlen): return 2 + EDSIG + DSIG + NONCE + mlen

def conj(bits):
    r = 1
    for b in bits: r = tm.and_(1, r, b)
    return r
