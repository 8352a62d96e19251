"""SHA-512 of tweetnacl.c against FIPS 180-4.

The compression function is proved round by round: every 64-bit sum the code computes is compared (first by simulation, then by proof) with the schedule words and
working variables of the specification and replaced by an opaque name when it is proved equal, so the 80 rounds are 80 small proofs.  hashblocks is an induction
over blocks on top of it; crypto_hash uses hashblocks through its contract."""
import random
import term as tm
from term import T
from engine import *
import smt
from loops import LoopEngine, SymCells, spec_iter, PEEL, KV, _symn, find_peel, ph
from run import Task
from p_hash import pick, msgobj, rdm

HB, HASH = 'crypto_hashblocks_sha512_tweet', 'crypto_hash_sha512_tweet'
def _primes(n):
    out = []; c = 2
    while len(out) < n:
        if all(c % p for p in out): out.append(c)
        c += 1
    return out
def _root(n, k):
    """integer k-th root"""
    lo, hi = 0, 1 << 200
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
M64 = (1 << 64) - 1
KS = [_root(p << 192, 3) & M64 for p in _primes(80)]
IV = [_root(p << 128, 2) & M64 for p in _primes(8)]
rotr = lambda x, c: tm.rotl(64, x, 64 - c)
X3 = lambda a, b, c: tm.xor(64, tm.xor(64, a, b), c)
S0 = lambda x: X3(rotr(x, 28), rotr(x, 34), rotr(x, 39))
S1 = lambda x: X3(rotr(x, 14), rotr(x, 18), rotr(x, 41))
s0 = lambda x: X3(rotr(x, 1), rotr(x, 8), tm.lshr(64, x, 7))
s1 = lambda x: X3(rotr(x, 19), rotr(x, 61), tm.lshr(64, x, 6))
ch = lambda x, y, z: tm.xor(64, tm.and_(64, x, y), tm.and_(64, tm.not_(64, x), z))
maj = lambda x, y, z: X3(tm.and_(64, x, y), tm.and_(64, x, z), tm.and_(64, y, z))
def add(*v):
    r = 0
    for x in v: r = tm.add(64, r, x)
    return r
def comp(st, blk):
    """the 64 bytes of the compression of block words blk in state words st: an uninterpreted function (its definition is what t_block proves)"""
    t = tm.app('SHA512C', 512, tuple(st) + tuple(blk))
    return [tm.ext(t, 512, 8 * i, 8 * i + 8) for i in range(64)]
def words(bs): return [tm.concat_list([(8, b) for b in bs[8 * i:8 * i + 8]]) for i in range(len(bs) // 8)]

class ShaEngine(LoopEngine):
    merge_equal = True
    def reset_path(self, d):
        LoopEngine.reset_path(self, d)
        self.refs = {}; self.memo = {}; self.env = {}; self.rnd = random.Random(7); self.nref = 0; self.blkat = None; self.hits = 0
    def sim(self, t): return smt.evaluate(t, self.env, self.memo, self.rnd)
    def reg(self, df, name):
        if df.__class__ is T: self.refs[self.sim(df)] = (df, name)
    def mkrefs(self, st, blk):
        key = tm.app('SB', 64, tuple(st) + tuple(blk))
        if key in self.env: return
        self.env[key] = len(self.env) + 1
        wkey = tm.app('SB', 64, tuple(blk))           # the schedule depends on the block only
        cut = lambda kind, t: tm.app('SHAV', 64, (kind, t, wkey if kind == 'w' else key))
        W = list(blk)
        for t in range(16, 80):
            W.append(cut('w', t)); self.reg(add(s1(W[t - 2]), W[t - 7], s0(W[t - 15]), W[t - 16]), W[t])
        a, b, c, d, e, f, g, h = st
        for t in range(80):
            T1 = add(h, S1(e), ch(e, f, g), KS[t], W[t]); A, Ee = cut('a', t), cut('e', t)
            self.reg(add(T1, S0(a), maj(a, b, c)), A); self.reg(add(d, T1), Ee)
            a, b, c, d, e, f, g, h = A, a, b, c, Ee, e, f, g
        for i, (x, y) in enumerate(zip((a, b, c, d, e, f, g, h), st)): self.reg(add(x, y), words(comp(st, blk))[i])
    def bin(self, op, w, a, b):
        r = LoopEngine.bin(self, op, w, a, b)
        if op == 'add' and w == 64 and r.__class__ is T and r.op == 'add' and self.refs:
            x = self.refs.get(self.sim(r))
            if x is not None:
                df, nm = x
                self.stats.safety += 1
                if df is not r and smt.equiv(64, r, df, [], 5000)[0] is not True: return r
                self.hits += 1
                return nm
        return r
    def at_header(self, fname, h, fr, phis, widths):
        out = LoopEngine.at_header(self, fname, h, fr, phis, widths)
        st = fr.get(h)
        if st and st.get('mode') in (0, 1) and self.blkat and not st.get('refd'):
            st['refd'] = True
            for o in self.objs:
                if o.live and o.cells.__class__ is list and o.size == 64 and all(c.__class__ is T and c.op == 'var' and c.a[0].startswith('it.X') for c in o.cells):
                    for be in (0, 1):
                        cs = o.cells if be else [o.cells[8 * (i // 8) + 7 - i % 8] for i in range(64)]
                        self.mkrefs(words(cs), self.blkat(tm.add(64, KV, st['n'])))
        return out

def blkwords(off): return words([rdm(tm.add(64, off, i)) for i in range(128)])

def t_blocks(E, qsel, t):
    """n = 128 Q + t"""
    Q = pick(E, 'Q', qsel)
    if t == '*': t = tm.var('t', 7); t32 = tm.zext(7, 32, t); t = tm.zext(7, 64, t)
    else: t32 = t
    n = tm.add(64, tm.mul(64, Q, 128), t)
    m = msgobj(E, n)
    xs = [tm.var('x[%d]' % i, 8) for i in range(64)]
    x = E.obj('x', 64, list(xs), 'arg')
    E.blkat = lambda k: blkwords(tm.mul(64, k, 128))
    st = xs
    for k in range(PEEL + 1 if Q.__class__ is not int else Q):
        E.mkrefs(words(st), blkwords(128 * k)); st = comp(words(st), blkwords(128 * k))
    r = E.run(HB, (Ptr(x, 0), Ptr(m, 0), n))
    Q = _symn(E, Q)
    step = lambda X, k: comp(words(X), blkwords(tm.mul(64, k, 128)))
    want, _, _ = spec_iter(xs, step, Q, find_peel(E, Q, x.cells))
    for i in range(64): E.same(8, x.cells[i], want[i], 'hashblocks: the FIPS 180-4 compression of every whole block in turn', 'byte %d' % i)
    E.same(32, r, t32, 'hashblocks: returns the number of bytes left over')
    E.cover('done')

# ---- crypto_hash: padding over the contract of hashblocks ----
def fold(E, st, p, n):
    """state bytes after the whole blocks of the n bytes at p"""
    q = E.bin('lshr', 64, n, 7)
    if q.__class__ is int and p.o.cells.__class__ is not SymCells:
        for k in range(q): st = comp(words(st), words(E.rd(Ptr(p.o, p.off + 128 * k), 128)))
        return st
    if q.__class__ is int and q == 0: return st
    d = E.descr(p, E.norm(tm.mul(64, q, 128)))
    t = tm.app('SHAFOLD', 512, (tuple(st), tuple(map(tuple, d))))
    return [tm.ext(t, 512, 8 * i, 8 * i + 8) for i in range(64)]
def c_blocks(E, x, m, n):
    n = _symn(E, n)
    E.wr(x, fold(E, E.rd(x, 64), m, n))
    return n & 127 if n.__class__ is int else tm.zext(7, 32, tm.ext(n, 64, 0, 7))

def t_hash(E, qsel, t):
    Q = pick(E, 'Q', qsel)
    n = tm.add(64, tm.mul(64, Q, 128), t)
    m = msgobj(E, n); out = E.obj('out', 64, 'input', 'arg')
    r = E.run(HASH, (Ptr(out, 0), Ptr(m, 0), n))
    Q = _symn(E, Q); n = E.norm(n)
    iv = [w >> (56 - 8 * j) & 255 for w in IV for j in range(8)]
    st = fold(E, iv, Ptr(m, 0), n)
    base = tm.mul(64, Q, 128)
    tail = [rdm(tm.add(64, base, i)) for i in range(t)] + [0x80]
    tail += [0] * ((112 - len(tail)) % 128)
    bits = tm.concat_list([(61, 0), (64, n), (3, 0)])
    tail += [tm.ext(bits, 128, 120 - 8 * i, 128 - 8 * i) for i in range(16)]
    for i in range(0, len(tail), 128): st = comp(words(st), words(tail[i:i + 128]))
    for i in range(64): E.same(8, out.cells[i], st[i], 'crypto_hash: SHA-512 with the FIPS 180-4 padding', 'byte %d, length 128*%s+%d' % (i, tm.show(Q), t))
    E.same(32, r, 0, 'crypto_hash: return value')
    E.cover('done')

def multi(E, fn, cases):
    i = E.fork(len(cases)); fn(E, *cases[i])
def tasks():
    kw = dict(need_cover=('done',))
    ts = [Task('hashblocks[every n]', HB, t_blocks, args=('*', t), engine_cls=ShaEngine, fallback=[(q, t) for q in (0, 1, 2, 3)], **kw) for t in ('*',)]
    ts += [Task('hashblocks[one block, %d over]' % t, HB, t_blocks, args=(1, t), engine_cls=ShaEngine, **kw) for t in (5,)]
    for a in range(0, 128, 16):
        ts.append(Task('crypto_hash[len=%d..%d mod 128]' % (a, a + 15), HASH, multi, {HB: c_blocks}, args=(t_hash, [('*', t) for t in range(a, a + 16)]), engine_cls=LoopEngine, fallback=[(t_hash, [(q, t) for t in range(a, a + 16) for q in (0, 1, 2)])], **kw))
    return ts
