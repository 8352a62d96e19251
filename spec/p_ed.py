"""Ed25519 key generation, signing and opening of tweetnacl.c against RFC 8032, over the contracts of the hash (p_sha), the scalar arithmetic (p_c25519) and
the group operations (p_field).  Those appear here as uninterpreted functions of exactly the bytes they are given."""
import term as tm
from term import T
from engine import *
from engine import subst, children
from loops import LoopEngine, SymCells, _symn, KV, split, _has
from run import Task

SIGN, OPEN, KPS, KP, HASH = 'crypto_sign_ed25519_tweet', 'crypto_sign_ed25519_tweet_open', 'crypto_sign_ed25519_keypair_seed', 'crypto_sign_ed25519_tweet_keypair', 'crypto_hash_sha512_tweet'

class _O:
    def __init__(self, bulk): self.cells = {}; self.lazy = []; self.bulk = bulk; self.name = 'm'

class EdEngine(LoopEngine):
    """LoopEngine with buffers whose (symbolic-length) writes may overlap: they are kept in program order and overlaid"""
    def ordered(self, name, size):
        o = self.symobj(name, size, False, False); o.seq = []; return o
    def widen(self, t):
        """sext of a 32-bit loop index that is linear in the iteration number -> the 64-bit linear form (proved; in the probe taken on trust, the verifying run proves it)"""
        if t.__class__ is not T: return t
        env = {}; st = [t]; seen = set()
        while st:
            x = st.pop()
            if x.__class__ is tuple: st.extend(x); continue
            if x.__class__ is not T or x in seen: continue
            seen.add(x)
            if x.op == 'sext' and x.w == 64 and x.a[0].w == 32:
                y = x.a[0]; c, ts = (tm.sx(32, y.a[0]), y.a[1]) if y.op == 'add' else (0, ((y, 1),))
                if all(z.op == 'ext' and z.a[0].op == 'var' and z.a[1] == 0 and z.a[2] == 32 for z, _ in ts):
                    g = c & M64
                    for z, k in ts: g = tm.add(64, g, tm.mul(64, z.a[0], tm.sx(32, k) & M64))
                    if self.lenient or self.holds(tm.eq(64, x, g)): env[x] = g
                    continue
            st.extend(children(x))
        return subst(t, env, {}) if env else t
    def branch(self, c, hint=''):
        if c.__class__ is T and self.hints: c = self.widen(self.norm(c))
        return LoopEngine.branch(self, c, hint)
    def symwr(self, o, rest, c, v):
        if self.itw is not None and rest is not None:
            rest, c = split(self.widen(tm.add(64, rest, c & M64))); v = self.widen(v)
        if getattr(o, 'seq', None) is None or self.itw is not None: return LoopEngine.symwr(self, o, rest, c, v)
        off = c if rest is None else tm.add(64, rest, c & M64)
        if v.__class__ is T and v.op == 'app' and v.a[0] == 'rd':
            if o.seq and o.seq[-1][0] != 'seg' and o.seq[-1][2:4] == ('rd', v.a[1]) and o.seq[-1][1].__class__ is int:
                p = o.seq[-1]
                if tm.eq(64, tm.add(64, p[0], p[1]), off) == 1 and tm.eq(64, tm.add(64, p[4], p[1]), v.a[2]) == 1: o.seq[-1] = (p[0], p[1] + 1) + p[2:]; return
            o.seq.append((off, 1, 'rd', v.a[1], v.a[2]))
        else: o.seq.append((off, 1, 'fill', v, None))
    def symrd(self, o, rest, c):
        if getattr(o, 'seq', None) is None: return LoopEngine.symrd(self, o, rest, c)
        if rest is None:
            for s in self.segs(o):
                if s[0].__class__ is int and s[1].__class__ is int and s[0] <= c < s[0] + s[1]:
                    return s[3] if s[2] == 'fill' else tm.app('rd', 8, (s[3], tm.add(64, s[4], c - s[0])))
                if s[0].__class__ is int and s[0] <= c and s[2] == 'rd' and self.holds(tm.ult(64, c, tm.add(64, s[0], s[1]))): return tm.app('rd', 8, (s[3], tm.add(64, s[4], c - s[0])))
        raise Unsupported('read of %s after symbolic writes' % o.name)
    def bulk(self, o, off, n, kind, a, b=None):
        if getattr(o, 'seq', None) is None: return LoopEngine.bulk(self, o, off, n, kind, a, b)
        LoopEngine.bulk(self, o, off, n, kind, a, b)
        o.seq.append(o.bulk.pop())
    def at_header(self, *a):
        r = LoopEngine.at_header(self, *a)
        for o in self.objs:
            if getattr(o, 'seq', None) is not None and o.lazy:
                for x in o.lazy: o.seq.append(x)
                o.lazy = []
        return r
    def loop_exit(self, fr, h):
        st = fr.get(h)
        LoopEngine.loop_exit(self, fr, h)
        if st is not None and st.get('mode') == 2 and st.get('summary') and st['k'].__class__ is T and self.norm(st['k']) is not st['k']:
            # the iteration count is now a function of the inputs: keep what the path says about the inputs, drop the hints about the count (weaker, hence sound)
            pc = []
            for c in self.pc:
                if not _has(c, st['k']): pc.append(c); continue
                d = subst(c, {st['k']: self.norm(st['k'])}, {})
                if d.__class__ is int and d: continue
                if d.__class__ is T and d.op in ('or', 'and', 'xor') and not (d.op == 'xor' and len(d.a[1]) == 1 and d.a[1][0].op in ('ult', 'eq', 'slt')): continue
                pc.append(d)
            self.pc = pc; self._solver = None
    def holds(self, c):
        if c.__class__ is int: return bool(c)
        return self.solver().check(tm.not_(1, c)) is False
    def le(self, a, b):
        """a <= b, decided (both are offsets below 2^62)"""
        if a.__class__ is int and b.__class__ is int: return a <= b
        c = self.norm(tm.ule(64, a, b))
        if self.holds(c): return True
        if self.holds(tm.not_(1, c)): return False
        if self.lenient or self.itw is not None: raise Unsupported('order of %s and %s not determined' % (tm.show(a), tm.show(b)))
        return bool(self.branch(c))
    def segs(self, o):
        if getattr(o, 'seq', None) is None: return LoopEngine.segs(self, o)
        cur = []
        for x in o.seq:
            if x[0] == 'seg':
                d = _O(None); d.lazy = [x]; new = LoopEngine.segs(self, d)
            else: new = [(self.norm(x[0]), self.norm(x[1])) + tuple(x[2:])]
            for n in new:
                a = n[0]; b = self.norm(tm.add(64, a, n[1])); out = []
                if n[1].__class__ is int and n[1] == 0: continue
                for s in cur:
                    s0, s1 = s[0], self.norm(tm.add(64, s[0], s[1]))
                    if self.le(s1, a) or self.le(b, s0): out.append(s); continue
                    if not self.le(a, s0): out.append((s0, self.norm(tm.sub(64, a, s0))) + s[2:])
                    if not self.le(s1, b): out.append((b, self.norm(tm.sub(64, s1, b)), s[2], s[3], self.norm(tm.add(64, s[4], tm.sub(64, b, s0))) if s[2] == 'rd' else s[4]))
                out.append(n); cur = out
        return LoopEngine.segs(self, _O(cur))

def whole(bs):
    """the wide term whose bytes these are, if they are the bytes of one"""
    b = bs[0]
    if b.__class__ is T and b.op == 'ext' and b.a[1] == 0 and b.a[0].w == 8 * len(bs) and all(x.__class__ is T and x.op == 'ext' and x.a[0] is b.a[0] and x.a[1] == 8 * i for i, x in enumerate(bs)): return b.a[0]
    return tuple(bs)
def uf(nm, nbytes, *args):
    t = tm.app(nm, 8 * nbytes, args)
    return [tm.ext(t, 8 * nbytes, 8 * i, 8 * i + 8) for i in range(nbytes)]
NG = 512            # bytes of a point: 4 x 16 x i64
def sha(d): return uf('SHA512', 64, tuple(map(tuple, d)))
def one(bs): return [('fill', b, None, 1) for b in bs]
def flat(E, d):
    """descriptions byte by byte where the length is known, so that different groupings of the same bytes agree"""
    out = []
    for x in d:
        if x[0] == 'bytes': out += one(x[1:])
        elif x[0] == 'fill' and x[3].__class__ is int and x[3] < 4096: out += one([x[1]] * x[3])
        elif x[0] == 'rd' and x[3].__class__ is int and x[3] < 4096: out += one([tm.app('rd', 8, (x[1], tm.add(64, x[2], i))) for i in range(x[3])])
        else: out.append(tuple(x))
    o2 = []
    for x in out:           # reads in sequence: grouped again
        r = x[1] if x[0] == 'fill' and x[3].__class__ is int and x[3] == 1 else None
        y = ('rd', r.a[1], r.a[2], 1) if r.__class__ is T and r.op == 'app' and r.a[0] == 'rd' else x
        if o2 and y[0] == 'rd' and o2[-1][0] == 'rd' and o2[-1][1] == y[1] and tm.eq(64, tm.add(64, o2[-1][2], o2[-1][3]), y[2]) == 1: o2[-1] = ('rd', y[1], o2[-1][2], E.norm(tm.add(64, o2[-1][3], y[3])))
        else: o2.append(y)
    return o2
def c_hash(E, out, m, n):
    n = _symn(E, n)
    while n.__class__ is T and n.op == 'ite': n = E.norm(n.a[1] if E.branch(n.a[0]) else n.a[2])
    h = sha(flat(E, E.descr(m, _symn(E, n))))
    E.log.setdefault('hashes', []).append(h[0])
    E.wr(out, h); return 0
def c_reduce(E, r): E.wr(r, uf('MODL', 32, tuple(E.rd(r, 64))) + [0] * 32)
def words(E, x): return tuple(E.load(Ptr(x.o, x.off + 8 * i), 8) for i in range(64))
def c_modL(E, r, x): E.wr(r, uf('MODLX', 32, words(E, x)))
def c_base(E, p, s): E.wr(p, uf('BASE', NG, tuple(E.rd(s, 32))))
def c_mult(E, p, q, s):
    a = whole(E.rd(q, NG)); s = tuple(E.rd(s, 32))
    E.wr(q, uf('JUNK', NG, a, s)); E.wr(p, uf('MULT', NG, a, s))
def psum(a, b):
    return uf('PSUM', NG, *sorted((a, b), key=lambda x: str(x.a[0]) if x.__class__ is T else ''))
def c_add(E, p, q): E.wr(p, psum(whole(E.rd(p, NG)), whole(E.rd(q, NG))))
def c_pack(E, r, p): E.wr(r, uf('PACK', 32, whole(E.rd(p, NG))))
def c_unpackneg(E, r, p):
    b = tuple(E.rd(p, 32))
    if E.branch(tm.app('DECODES', 1, b)):
        E.wr(r, uf('NEGPT', NG, b)); return 0
    E.wr(r, uf('JUNK2', NG, b)); return (1 << 32) - 1
CON = {HASH: c_hash, 'reduce': c_reduce, 'modL': c_modL, 'scalarbase': c_base, 'scalarmult': c_mult, 'add': c_add, 'pack': c_pack, 'unpackneg': c_unpackneg}
def clamp(d):
    d = list(d)
    d[0] = tm.and_(8, d[0], 248); d[31] = tm.or_(8, tm.and_(8, d[31], 127), 64)
    return d
def eqbytes(E, got, want, label):
    for i, (x, y) in enumerate(zip(got, want)): E.same(8, x, y, label, 'byte %d' % i)
def tot(bs): return whole(bs)

def t_keypair(E, fn):
    seed = E.obj('seed', 32, 'input', 'arg'); seed.ro = True
    sk = E.obj('sk', 64, 'input', 'arg'); pk = E.obj('pk', 32, 'input', 'arg')
    r = E.run(KPS, (Ptr(pk, 0), Ptr(sk, 0), Ptr(seed, 0)))
    s = list(seed.cells)
    d = clamp(sha(one(s)))
    want = uf('PACK', 32, whole(uf('BASE', NG, tuple(d[:32]))))
    eqbytes(E, pk.cells, want, 'public key = [clamped SHA-512(seed)] B')
    eqbytes(E, sk.cells, s + want, 'secret key = seed, public key')
    E.same(32, r, 0, 'keypair_seed succeeds'); E.cover('done')

BIG = 1 << 30
def t_sign(E, mlen):
    if mlen is None:
        n = tm.var('mlen', 64); E.assume(tm.ult(64, n, BIG))
        E.hints = [tm.sub(64, n, i) for i in range(4)]
    else: n = mlen
    m = E.symobj('m', n, True, True); sk = E.obj('sk', 64, 'input', 'arg'); sk.ro = True
    sm = E.ordered('sm', tm.add(64, n, 64)); sl = E.obj('smlen', 8, 'input', 'arg')
    r = E.run(SIGN, (Ptr(sm, 0), Ptr(sl, 0), Ptr(m, 0), n, Ptr(sk, 0)))
    n = _symn(E, n)
    msg = [('rd', 'm', 0, n)] if not (n.__class__ is int and n == 0) else []
    S = list(sk.cells)
    d0 = sha(one(S[:32])); d = clamp(d0)
    rr = uf('MODL', 32, tuple(sha(flat(E, one(d0[32:]) + msg))))
    R = uf('PACK', 32, whole(uf('BASE', NG, tuple(rr))))
    h = uf('MODL', 32, tuple(sha(flat(E, one(R) + one(S[32:]) + msg))))
    z = lambda b: tm.zext(8, 64, b)
    x = [z(rr[i]) if i < 32 else 0 for i in range(64)]
    for i in range(32):
        for j in range(32): x[i + j] = tm.add(64, x[i + j], tm.mul(64, z(h[i]), z(d[j])))
    s = uf('MODLX', 32, tuple(x))
    got = E.descr(Ptr(sm, 0), tm.add(64, n, 64))
    got = flat(E, got)
    E.post(1 if len(got) == 64 + len(msg) else 0, 'signed message = R, S, message', repr(got)[:300])
    for i in range(64): E.same(8, got[i][1], (R + s)[i], 'R = [r]B with r = H(prefix, M) mod L' if i < 32 else 'S = r + H(R, A, M) a mod L', 'byte %d' % i)
    if msg: E.post(1 if got[64][:2] == ('rd', 'm') and tm.eq(64, got[64][2], 0) == 1 and tm.eq(64, got[64][3], n) == 1 else 0, 'the message follows unmodified', repr(got[64])[:200])
    E.same(64, E.load(Ptr(sl, 0), 8), tm.add(64, n, 64), 'signed length')
    E.same(32, r, 0, 'signing succeeds'); E.cover('done')

def t_open(E, smlen):
    short = E.fork(2) == 0
    if smlen is None:
        if short: n = tm.var('smlen', 64); E.assume(tm.ult(64, n, 64))
        else:
            k = tm.zext(30, 64, tm.var('mn', 30)); n = tm.add(64, k, 64)
    else:
        n = smlen
        if short != (n < 64): raise Infeasible()
    mn = mn0 = tm.sub(64, n, 64)
    if n.__class__ is T: E.hints = [tm.sub(64, mn, i) for i in range(6)] + [BIG]
    size = 0 if short else n
    sm = E.symobj('sm', size, True, True); pk = E.obj('pk', 32, 'input', 'arg'); pk.ro = True
    m = E.ordered('m', size); ml = E.obj('mlen', 8, 'input', 'arg')
    r = E.run(OPEN, (Ptr(m, 0), Ptr(ml, 0), Ptr(sm, 0), n, Ptr(pk, 0)))
    l = E.load(Ptr(ml, 0), 8)
    rej = 'rejection: no message length, no message bytes'
    if short:
        E.post(tm.ne(32, r, 0), 'inputs shorter than a signature are refused')
        E.same(64, l, (1 << 64) - 1, rej); E.post(0 if m.seq else 1, rej); E.cover('short'); return
    P = tuple(pk.cells)
    n = _symn(E, n); mn = _symn(E, tm.sub(64, n, 64)); none = mn.__class__ is int and mn == 0
    rd = lambda a: [tm.app('rd', 8, ('sm', a + i)) for i in range(32)]
    want = lambda l: sha(flat(E, [('rd', 'sm', 0, 32)] + one(P) + ([] if l.__class__ is int and l == 0 else [('rd', 'sm', 64, l)])))
    hh = want(mn)
    for l0 in (mn0, E.norm(mn0)):     # the same hash, with the length as it was known before or after the call
        if not any(x is hh[0] for x in E.log.get('hashes', ())) and any(x is want(l0)[0] for x in E.log.get('hashes', ())): hh = want(l0)
    h = uf('MODL', 32, tuple(hh))
    h = h + [0] * 32
    t = uf('PACK', 32, whole(psum(whole(uf('MULT', NG, whole(uf('NEGPT', NG, P)), tuple(h[:32]))), whole(uf('BASE', NG, tuple(rd(32)))))))
    ok = tm.app('DECODES', 1, P)
    good = ok
    for a, b in zip(t, rd(0)): good = tm.and_(1, good, tm.eq(8, a, b))
    if E.branch(ok):
        if E.branch(good):
            if E.feasible(1) is False: raise Infeasible()
            E.same(32, r, 0, 'accepts exactly when the key decodes and R equals [S]B - [h]A')
            E.same(64, l, mn, 'returned length')
            if not none:
                got = flat(E, E.descr(Ptr(m, 0), mn))
                E.post(1 if len(got) == 1 and got[0][:2] == ('rd', 'sm') and tm.eq(64, got[0][2], 64) == 1 and tm.eq(64, got[0][3], mn) == 1 else 0, 'the message is returned', repr(got)[:300])
            E.cover('accept'); return
        if E.feasible(1) is False: raise Infeasible()
        E.cover('reject')
    else: E.cover('undecodable')
    E.post(tm.ne(32, r, 0), 'accepts exactly when the key decodes and R equals [S]B - [h]A')
    E.same(64, l, (1 << 64) - 1, rej)
    if m.seq and not none:
        got = flat(E, E.descr(Ptr(m, 0), mn))
        E.post(1 if all(x[0] == 'fill' and x[1].__class__ is int and x[1] == 0 for x in got) else 0, rej, repr(got)[:300])

def tasks():
    kw = dict(engine_cls=EdEngine, contracts=CON)
    S = (0, 1, 31, 32, 33, 63, 64, 65, 100, 128)
    return [Task('keypair_seed', KPS, t_keypair, args=(KPS,), need_cover=('done',), **kw),
            Task('crypto_sign', SIGN, t_sign, args=(None,), need_cover=('done',), fallback=[(n,) for n in S], **kw),
            Task('crypto_sign_open', OPEN, t_open, args=(None,), need_cover=('short', 'accept', 'reject', 'undecodable'), fallback=[(n,) for n in (0, 1, 63)] + [(n + 64,) for n in S], **kw)]
