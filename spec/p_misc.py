"""C07 (expander), C08, C17, C22."""
import term as tm
from engine import *
from loops import LoopEngine
from run import Task
import shake
from shake import canon, stream, bts
from hybrid import *
import p_hybrid_sign as hs
from loops import _symn as symn

def sym(name, lo, hi, E):
    v = tm.var(name, 64)
    E.assume(tm.ule(64, lo, v)); E.assume(tm.ult(64, v, hi))
    return v

BIG = 1 << 48

# ---- C07: seedexpander_wrapper ---------------------------------------------------------------
def t_expander(E, rem, conc_len=None):
    if conc_len: n, outlen = conc_len
    else:
        n = sym('seedlen', 32, BIG, E); q = sym('q', 0, BIG, E)
        outlen = tm.add(64, tm.mul(64, q, 8), rem)
        E.assume(tm.ult(64, n, outlen))
        E.hints = [q]
    seed = E.symobj('seed', n, True, True); out = E.symobj('out', outlen, False, False)
    r = E.run('seedexpander_wrapper', (Ptr(seed, 0), n, Ptr(out, 0), outlen))
    E.same(32, r, 0, 'the expander accepts legal lengths')
    msg = (bts([tm.app('rd', 8, ('seed', i)) for i in range(n)]) if n.__class__ is int else [('seg', 'seed', 0, n)]) + bts([2])
    S = stream(msg)
    segs = E.segs(out)
    if len(segs) != 1 or segs[0][2] != 'rd' or tm.eq(64, segs[0][0], 0) != 1:
        raise Violation('every output byte comes from the stream, in order', 'written: %r' % (segs,), E.model())
    off, m, kind, nm, so = segs[0]
    E.same(8, nm, S, 'the output is the SHAKE-256 stream of seed || domain byte 2')
    E.same(64, so, 0, 'the output starts at the beginning of the stream')
    E.same(64, m, outlen, 'exactly the requested number of bytes is written')
    shake.released(E)
    E.cover('done')

def t_expander_refuse(E):
    n = tm.var('seedlen', 64); outlen = tm.var('outlen', 64)
    case = E.fork(5)
    if case == 0: E.assume(tm.ult(64, n, 32))
    if case == 1: E.assume(tm.ule(64, outlen, n))
    seed = E.symobj('seed', n, True, True); out = E.symobj('out', outlen, False, False)
    a = Ptr(seed, 0); b = Ptr(out, 0)
    if case in (2, 4): a = 0
    if case in (3, 4): b = 0
    r = E.run('seedexpander_wrapper', (a, n, b, outlen))
    E.post(tm.ne(32, r, 0), 'illegal lengths and missing pointers are refused')
    E.post(0 if (out.cells or out.lazy or out.bulk) else 1, 'nothing is written on refusal')
    E.post(0 if E.heap else 1, 'no context is created on refusal')
    E.cover('refused')

def expander_tasks():
    C = shake.inc(True)
    fb = [(0, (32, 33)), (0, (32, 40)), (0, (33, 64)), (0, (64, 128)), (0, (64, 131)), (0, (40, 300)), (0, (100, 107)), (0, (136, 137))]
    ts = [Task('seedexpander_wrapper[len = %d mod 8]' % r, 'seedexpander_wrapper', t_expander, C, args=(r,), engine_cls=LoopEngine, need_cover=('done',), fallback=fb) for r in range(8)]
    ts.append(Task('seedexpander_wrapper[refusals]', 'seedexpander_wrapper', t_expander_refuse, C, engine_cls=LoopEngine, need_cover=('refused',)))
    return ts

# ---- C17: combined interfaces --------------------------------------------------------------------
SCH = {'dil': ('PQCLEAN_DILITHIUM2_CLEAN_crypto_sign', DSIG, DPK, DSK), 'spx': ('PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign', SSIG, SPK, SSK)}

def mparts(E, p, n): return canon(shake.parts(E, p, n))

def sig_contract(s, may_fail):
    base, SIG, PKB, SKB = SCH[s]
    def f(E, sig, siglen, m, n, sk):
        mp = mparts(E, m, n); k = E.rd(sk, SKB)
        E.log.setdefault('signed', []).append((mp, seq(k)))
        E.wr(siglen, le64(SIG))
        if may_fail and E.fork(2, 'signing fails') == 1:
            E.log['failed'] = True
            return NEG1
        E.wr(sig, ufbytes('SIG', SIG, seq(k), mp))
        return 0
    return f

def ver_contract(s):
    base, SIG, PKB, SKB = SCH[s]
    def f(E, sig, siglen, m, n, pk):
        siglen = conc(E, siglen, 'signature length')
        if siglen != SIG: return NEG1
        ok = bit('OK', canon(shake.parts(E, sig, SIG)), mparts(E, m, n), seq(E.rd(pk, PKB)))
        E.log.setdefault('verified', []).append(ok)
        if E.branch(ok): return 0
        r = E.fresh('rc', 32); E.assume(tm.ne(32, r, 0))
        return r
    return f

def t_csign(E, s, mlen):
    base, SIG, PKB, SKB = SCH[s]
    n = sym('mlen', 0, BIG, E) if mlen is None else mlen
    m = E.symobj('m', n, True, True); sk = inputs(E, 'sk', SKB)
    sm = E.symobj('sm', tm.add(64, n, SIG), False, False); sl = outbuf(E, 'smlen', 8)
    E.hints = [tm.sub(64, n, i) for i in range(4)]
    r = E.run(base, (Ptr(sm, 0), Ptr(sl, 0), Ptr(m, 0), n, Ptr(sk, 0)))
    n = symn(E, n)
    if E.log.get('failed'):
        E.post(tm.ne(32, r, 0), 'failure of signing is reported'); E.cover('failure'); return
    E.same(32, r, 0, 'signing succeeds')
    want = canon(shake.parts(E, Ptr(m, 0), n))
    sg = E.log.get('signed', [])
    E.post(1 if len(sg) == 1 and sg[0] == (want, seq(list(sk.cells))) else 0, 'the whole unmodified message is signed with the key', repr(sg)[:300])
    sigb = ufbytes('SIG', SIG, seq(list(sk.cells)), want)
    for i in range(SIG):
        v = sm.cells.get(i)
        if v is None: raise Violation('signature bytes come first', 'byte %d not written' % i, E.model())
        E.same(8, v, sigb[i], 'signature bytes come first', 'byte %d' % i)
    rest = [x for x in E.segs(sm) if not (x[0].__class__ is int and x[0] < SIG)]
    if n.__class__ is int and n == 0: E.post(1 if not rest else 0, 'nothing else is written')
    else: E.post(1 if len(rest) == 1 and rest[0][2:4] == ('rd', 'm') and tm.eq(64, rest[0][0], SIG) == 1 and tm.eq(64, rest[0][1], n) == 1 and tm.eq(64, rest[0][4], 0) == 1 else 0, 'the message follows unmodified', repr(rest)[:300])
    E.same(64, E.load(Ptr(sl, 0), 8), tm.add(64, n, SIG), 'total length')
    E.cover('done')

def t_copen(E, s, smlen):
    base, SIG, PKB, SKB = SCH[s]
    short = E.fork(2) == 0
    if smlen is None: n = sym('smlen', 0, SIG, E) if short else tm.add(64, sym('mn', 0, BIG, E), SIG)
    else:
        n = smlen
        if short != (n < SIG): raise Infeasible()
    size = 0 if short else n
    sm = E.symobj('sm', size, True, True); pk = inputs(E, 'pk', PKB)
    ml = outbuf(E, 'mlen', 8); l0 = snapshot(ml)
    mn = 0 if short else tm.sub(64, n, SIG)
    m = E.symobj('m', mn, False, False)
    E.hints = [tm.sub(64, mn, i) for i in range(4)]
    okpre = 0 if short else bit('OK', canon(shake.parts(E, Ptr(sm, 0), SIG)), mparts(E, Ptr(sm, SIG), mn), seq(list(pk.cells)))
    r = E.run(base + '_open', (Ptr(m, 0), Ptr(ml, 0), Ptr(sm, 0), n, Ptr(pk, 0)))
    written = m.cells or m.lazy or m.bulk
    if short:
        E.post(tm.ne(32, r, 0), 'inputs shorter than a signature are refused')
        E.post(0 if written else 1, 'message buffer is not written on rejection')
        E.cover('short'); return
    mn = symn(E, mn)
    # the same verdict, with the length as it was known before or after the call
    ok = bit('OK', canon(shake.parts(E, Ptr(sm, 0), SIG)), mparts(E, Ptr(sm, SIG), mn), seq(list(pk.cells)))
    if ok is not okpre and any(v is okpre for v in E.log.get('verified', ())): ok = okpre
    if E.branch(ok):
        E.same(32, r, 0, 'accepts exactly when the detached verifier accepts the first part over the rest')
        E.same(64, E.load(Ptr(ml, 0), 8), mn, 'returned message length')
        sg = E.segs(m)
        if mn.__class__ is int and mn == 0: E.post(1 if not sg else 0, 'returned message')
        else: E.post(1 if len(sg) == 1 and sg[0][2:4] == ('rd', 'sm') and tm.eq(64, sg[0][0], 0) == 1 and tm.eq(64, sg[0][1], mn) == 1 and tm.eq(64, sg[0][4], SIG) == 1 else 0, 'returned message', repr(sg)[:300])
        E.cover('accept')
    else:
        E.post(tm.ne(32, r, 0), 'accepts exactly when the detached verifier accepts the first part over the rest')
        E.post(0 if written else 1, 'message buffer is not written on rejection')
        E.cover('reject')

def t_inplace(E, s, mlen):
    """message inside the signed-message buffer (documented for Dilithium: sm may equal m; open into sm)"""
    base, SIG, PKB, SKB = SCH[s]
    b = E.obj('buf', SIG + mlen, 'input', 'arg'); sk = inputs(E, 'sk', SKB); pk = inputs(E, 'pk', PKB); sl = outbuf(E, 'len', 8)
    old = list(b.cells)
    if s == 'dil':
        r = E.run(base, (Ptr(b, 0), Ptr(sl, 0), Ptr(b, 0), mlen, Ptr(sk, 0)))
        E.same(32, r, 0, 'signing succeeds')
        want = ufbytes('SIG', SIG, seq(list(sk.cells)), canon(bts(old[:mlen]))) + old[:mlen]
        for i, (x, y) in enumerate(zip(b.cells, want)): E.same(8, x, y, 'in-place signing', 'byte %d' % i)
    b.cells[:] = old
    r = E.run(base + '_open', (Ptr(b, 0), Ptr(sl, 0), Ptr(b, 0), SIG + mlen, Ptr(pk, 0)))
    ok = bit('OK', canon(bts(old[:SIG])), canon(bts(old[SIG:])), seq(list(pk.cells)))
    if E.branch(ok):
        E.same(32, r, 0, 'in-place open accepts')
        for i in range(mlen): E.same(8, b.cells[i], old[SIG + i], 'in-place open returns the message', 'byte %d' % i)
        E.cover('accept')
    else:
        E.post(tm.ne(32, r, 0), 'in-place open rejects')
        for i in range(len(old)): E.same(8, b.cells[i], old[i], 'message buffer is not written on rejection')

def c17_tasks():
    ts = []
    for s in SCH:
        base, SIG, _, _ = SCH[s]
        C = {base + '_signature': sig_contract(s, s == 'spx'), base + '_verify': ver_contract(s)}
        ts.append(Task('%s crypto_sign' % s, base, t_csign, C, args=(s, None), engine_cls=LoopEngine, need_cover=('done',), fallback=[(s, n) for n in (0, 1, 2, 3, 7, 64, 200)]))
        ts.append(Task('%s crypto_sign_open' % s, base + '_open', t_copen, C, args=(s, None), engine_cls=LoopEngine, need_cover=('accept', 'reject', 'short'), fallback=[(s, n) for n in (SIG, SIG + 1, SIG + 2, SIG + 5, SIG + 100)] + [(s, n) for n in (0, 1, SIG - 1)]))
        for L in (0, 1, 3, 40, 2500):
            ts.append(Task('%s in place[len=%d]' % (s, L), base, t_inplace, C, args=(s, L), need_cover=('accept',), bounded='in-place buffers: message lengths 0, 1, 3, 40, 2500'))
    return ts

# ---- C08 -----------------------------------------------------------------------------------------
DKP = 'PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair'
SKP = 'PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_keypair'
SSG = 'PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature'
EKP = 'crypto_sign_ed25519_tweet_keypair'
BKP = 'crypto_box_curve25519xsalsa20poly1305_tweet_keypair'

def rfresh(n, k=0): return [tm.var('rand[%d]' % (k + i), 8) for i in range(n)]

def t_ckp(E, fn, seedfn, pkb, skb, sn, pkf, skf):
    pk = outbuf(E, 'pk', pkb); sk = outbuf(E, 'sk', skb)
    def kp(E, p, s, seed):
        sd = E.rd(seed, sn)
        E.log['seed'] = sd
        E.wr(p, ufbytes('PK', pkb, seq(sd))); E.wr(s, ufbytes('SK', skb, seq(sd)))
        return 0
    E.contracts = dict(CONTRACTS); E.contracts[seedfn] = kp
    r = E.run(fn, (Ptr(pk, 0), Ptr(sk, 0)))
    if E.log.get('rand_failed'):
        E.post(tm.ne(32, r, 0), 'failure of the random source is reported'); E.cover('failure'); return
    E.same(32, r, 0, 'key generation succeeds')
    E.post(1 if E.log.get('rand') == sn else 0, 'exactly %d fresh random bytes are drawn' % sn)
    for i, (a, b) in enumerate(zip(pk.cells, ufbytes('PK', pkb, seq(rfresh(sn))))): E.same(8, a, b, 'public key is the seeded one for the fresh bytes', 'byte %d' % i)
    for i, (a, b) in enumerate(zip(sk.cells, ufbytes('SK', skb, seq(rfresh(sn))))): E.same(8, a, b, 'secret key is the seeded one for the fresh bytes', 'byte %d' % i)
    E.cover('success')

def t_box_kp(E):
    y = outbuf(E, 'y', 32); x = outbuf(E, 'x', 32)
    def sm(E, q, n, p):
        E.wr(q, ufbytes('X25519', 32, seq(E.rd(n, 32)), seq(E.rd(p, 32)))); return 0
    E.contracts = dict(CONTRACTS); E.contracts['crypto_scalarmult_curve25519_tweet'] = sm
    r = E.run(BKP, (Ptr(y, 0), Ptr(x, 0)))
    if E.log.get('rand_failed'):
        E.post(tm.ne(32, r, 0), 'failure of the random source is reported'); E.cover('failure'); return
    E.same(32, r, 0, 'key generation succeeds')
    for i in range(32): E.same(8, x.cells[i], rfresh(32)[i], 'secret key is the fresh bytes', 'byte %d' % i)
    want = ufbytes('X25519', 32, seq(rfresh(32)), seq([9] + [0] * 31))
    for i in range(32): E.same(8, y.cells[i], want[i], 'public key is X25519(secret, 9)', 'byte %d' % i)
    E.post(1 if E.log.get('rand') == 32 else 0, 'exactly 32 fresh random bytes are drawn')
    E.cover('success')

def spx_opaque():
    """frames of the SPHINCS+ signing building blocks (their functional contracts are C16)"""
    P = ''
    def gmr(E, R, skprf, optrand, m, n, ctx):
        E.log['optrand'] = E.rd(optrand, 32)
        E.wr(R, [tm.var('R[%d]' % i, 8) for i in range(32)])
    def hm(E, dg, tree, leaf, R, pk, m, n, ctx):
        E.rd(R, 32); E.rd(pk, 64)
        E.wr(dg, [tm.var('dg[%d]' % i, 8) for i in range(40)])
        t = tm.var('tree', 64); E.store(tree, 8, tm.and_(64, t, (1 << 64) - 1)); l = tm.var('leaf', 4); E.store(leaf, 4, tm.zext(4, 32, l))
    def fs(E, sig, pk, m, ctx, addr):
        E.wr(sig, [0] * 11200); E.wr(pk, [tm.var('fpk[%d]' % i, 8) for i in range(32)])
    def ms(E, sig, root, ctx, wa, ta, idx):
        E.wr(sig, [0] * 2272); E.wr(root, [E.fresh('root', 8) for i in range(32)])
    return gmr, hm, fs, ms

def resolve(mod, *names):
    """name as it appears in the module (macro-prefixed)"""
    for n in names:
        if n in mod.funcs: return n
    c = [f for f in mod.funcs if any(f.endswith('_' + n) for n in names)]
    if len(c) == 1: return c[0]
    raise Unsupported('cannot find function %s' % (names,))

def t_spx_sign(E):
    n = sym('mlen', 0, BIG, E)
    sig = outbuf(E, 'sig', SSIG); sl = outbuf(E, 'siglen', 8); m = E.symobj('m', n, True, True); sk = inputs(E, 'sk', SSK)
    C = dict(CONTRACTS)
    C.pop(SSG, None)
    for nm, c in zip(('gen_message_random', 'hash_message', 'fors_sign', 'merkle_sign'), spx_opaque()): C[resolve(E.mod, nm)] = c
    E.contracts = C
    r = E.run(SSG, (Ptr(sig, 0), Ptr(sl, 0), Ptr(m, 0), n, Ptr(sk, 0)))
    if E.log.get('rand_failed'):
        E.post(tm.ne(32, r, 0), 'failure of the random source is reported'); E.cover('failure'); return
    E.same(32, r, 0, 'signing succeeds')
    E.post(1 if E.log.get('rand') == 32 else 0, 'exactly 32 fresh random bytes are drawn')
    o = E.log.get('optrand') or []
    E.post(1 if len(o) == 32 else 0, 'the fresh bytes randomise the signature')
    for a, b in zip(o, rfresh(32)): E.same(8, a, b, 'the fresh bytes randomise the signature')
    E.cover('success')

def c08_tasks():
    F = lambda ts: ts
    ts = [Task('full.sign[len=%d]' % L, F_SIGN, hs.t_sign, hs.FAILING, args=(True, L), need_cover=('success', 'failure')) for L in (1, 33, 64)]
    ts += [Task('compact.sign[len=%d]' % L, C_SIGN, hs.t_sign, hs.FAILING, args=(False, L), need_cover=('success', 'failure')) for L in range(1, 65)]
    ts += [Task('keypair', KP, hs.t_kp, hs.FAILING, need_cover=('success', 'failure'))]
    lf = lambda l: 'random' in l or 'fail' in l or 'fresh' in l or 'reachab' in l or 'succeeds' in l
    for t in ts: t.lf = lf
    ts.append(Task('Dilithium keypair', DKP, t_ckp, {}, args=(DKP, DKP + '_seed', DPK, DSK, 32, 'DILKP_PK', 'DILKP_SK'), need_cover=('success', 'failure')))
    ts.append(Task('SPHINCS+ keypair', SKP, t_ckp, {}, args=(SKP, SKP.replace('_keypair', '_seed_keypair'), SPK, SSK, 96, '', ''), need_cover=('success', 'failure')))
    ts.append(Task('Ed25519 keypair', EKP, t_ckp, {}, args=(EKP, 'crypto_sign_ed25519_keypair_seed', 32, 64, 32, '', ''), need_cover=('success', 'failure')))
    ts.append(Task('box keypair', BKP, t_box_kp, {}, need_cover=('success', 'failure')))
    ts.append(Task('SPHINCS+ signature', SSG, t_spx_sign, {}, engine_cls=LoopEngine, need_cover=('success', 'failure')))
    base = SCH['spx'][0]
    C = {base + '_signature': sig_contract('spx', True)}
    ts.append(Task('SPHINCS+ crypto_sign', base, t_csign, C, args=('spx', None), engine_cls=LoopEngine, need_cover=('done', 'failure'), fallback=[('spx', n) for n in (0, 1, 5)]))
    return ts

# ---- C22: wasm wrappers ---------------------------------------------------------------------------
# argument kinds: ('in', n) ('out', n) ('insym', name of length argument) ('outsym', ..) 'len'
W = {
 'dp_sign_keypair_seed': (KP_SEED, [('out', PK), ('out', SK), ('in', 160)]),
 'dp_sign_keypair': (KP, [('out', PK), ('out', SK)]),
 'dp_sign': (C_SIGN, [('out', compact_len(64)), ('out', 8), ('insym', 3), 'len', ('in', SK)]),
 'dp_sign_verify': (C_VERIFY, [('insym', 1), 'len', ('insym', 3), 'len', ('in', PK)]),
 'dp_sign_seedexpander': (EXPAND, [('in', 96), ('out', 160)]),
 'dp_randombytes': ('randombytes', [('outsym', 1), 'len']),
 'dp_seedexpander_wrapper': ('seedexpander_wrapper', [('insym', 1), 'len', ('outsym', 3), 'len']),
}

def t_wrap(E, fn):
    target, kinds = W[fn]
    lens = {i: sym('len%d' % i, 0, BIG, E) for i, k in enumerate(kinds) if k == 'len'}
    objs = {}; args = []
    nullarg = E.fork(1 + len(kinds)) - 1      # a wrapper passes null pointers on as they are
    for i, k in enumerate(kinds):
        if k == 'len': args.append(lens[i]); continue
        if k[0] == 'in': o = inputs(E, 'a%d' % i, k[1])
        elif k[0] == 'out': o = outbuf(E, 'a%d' % i, k[1])
        elif k[0] == 'insym': o = E.symobj('a%d' % i, lens[k[1]], True, True)
        else: o = E.symobj('a%d' % i, lens[k[1]], False, False)
        objs[i] = o
        args.append(0 if i == nullarg else Ptr(o, 0))
    if nullarg >= 0 and kinds[nullarg] == 'len': raise Infeasible()
    calls = []
    rc = tm.var('rc', 32)
    def callee(E, *a):
        calls.append(a)
        E.post(1 if len(a) == len(kinds) else 0, 'same arguments')
        for i, (x, k) in enumerate(zip(a, kinds)):
            if i == nullarg: E.post(1 if x.__class__ is int and x == 0 else 0, 'same arguments in the same order', 'argument %d' % i); continue
            if k == 'len': E.same(64, x, lens[i], 'same arguments in the same order', 'argument %d' % i)
            elif k[0] == 'in':
                for j, (u, v) in enumerate(zip(E.rd(x, k[1]), objs[i].cells)): E.same(8, u, v, 'same arguments in the same order', 'argument %d' % i)
            elif k[0] == 'insym':
                E.post(1 if E.descr(x, lens[k[1]]) == [('rd', 'a%d' % i, 0, lens[k[1]])] else 0, 'same arguments in the same order', 'argument %d' % i)
        for i, (x, k) in enumerate(zip(a, kinds)):
            if i == nullarg or k == 'len': continue
            if k[0] == 'out': E.wr(x, [tm.var('result%d[%d]' % (i, j), 8) for j in range(k[1])])
            elif k[0] == 'outsym':
                o, off = E.ptr(x, 'write'); E.bulk(o, off, lens[k[1]], 'rd', 'result%d' % i, 0)
        return rc
    E.contracts = {target: callee}
    r = E.run(fn, tuple(args))
    E.post(1 if len(calls) == 1 else 0, 'the wrapped call is made exactly once')
    E.same(32, r, rc, 'returns what the wrapped call returns')
    for i, k in enumerate(kinds):
        if k == 'len' or i == nullarg: continue
        if k[0] == 'out':
            for j in range(k[1]): E.same(8, objs[i].cells[j], tm.var('result%d[%d]' % (i, j), 8), 'output reaches the caller unchanged', 'argument %d byte %d' % (i, j))
        elif k[0] == 'outsym':
            sg = E.segs(objs[i])
            n = E.norm(lens[k[1]])
            E.post(1 if (n.__class__ is int and n == 0) or (len(sg) == 1 and tm.eq(64, sg[0][0], 0) == 1 and tm.eq(64, sg[0][1], n) == 1 and sg[0][2:] == ('rd', 'result%d' % i, 0)) else 0, 'output reaches the caller unchanged', repr(sg)[:200])
    E.cover('done')

def t_memfree(E, size):
    n = sym('size', 0, BIG, E) if size is None else size
    o = E.symobj('blk', n, True, False) if size is None else E.obj('blk', n, 'input', 'heap')
    o.kind = 'heap'; E.heap.append(o)
    freed = []
    E.hints = [tm.sub(64, n, i) for i in range(4)]
    def c_free(E, p):
        E.post(1 if p.__class__ is Ptr and p.o is o and p.off == 0 else 0, 'the given block is released')
        E.post(1 if o.live else 0, 'released exactly once')
        nn = E.norm(n)
        if size is None:
            sg = E.segs(o)
            E.post(1 if (nn.__class__ is int and nn == 0) or (len(sg) == 1 and tm.eq(64, sg[0][0], 0) == 1 and tm.eq(64, sg[0][1], nn) == 1 and sg[0][2] == 'fill' and sg[0][3] == 0) else 0, 'every byte is zero when the block is released', repr(sg)[:300])
        else:
            for i in range(n): E.same(8, o.cells[i], 0, 'every byte is zero when the block is released', 'byte %d of %d' % (i, n))
        o.live = False; freed.append(1)
    E.contracts = {'free': c_free}
    E.run('mem_free', (Ptr(o, 0), n))
    E.post(1 if len(freed) == 1 else 0, 'released exactly once')
    E.cover('done')

def t_memalloc(E, fn):
    n = sym('size', 0, BIG, E)
    calls = []
    res = E.obj('res', 8, 'undef', 'heap')
    null = E.fork(2)
    def c_malloc(E, k):
        E.same(64, k, n, 'the requested size is allocated'); calls.append(1)
        return 0 if null else Ptr(res, 0)
    E.contracts = {'malloc': c_malloc}
    r = E.run(fn, (n,))
    E.post(1 if len(calls) == 1 else 0, 'one allocation')
    E.post(1 if (r.__class__ is int and r == 0 if null else r.__class__ is Ptr and r.o is res and r.off == 0) else 0, 'the allocation is returned')
    E.cover('done')

def c22_tasks():
    ts = [Task(fn, fn, t_wrap, {}, args=(fn,), engine_cls=LoopEngine, need_cover=('done',)) for fn in W]
    ts.append(Task('mem_free', 'mem_free', t_memfree, {}, args=(None,), engine_cls=LoopEngine, need_cover=('done',), fallback=[(k,) for k in (0, 1, 2, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1000)]))
    for fn in ('mem_alloc', 'mem_alloc_long_long'): ts.append(Task(fn, fn, t_memalloc, {}, args=(fn,), engine_cls=LoopEngine, need_cover=('done',)))
    return ts
