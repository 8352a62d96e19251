"""C10: SHA3/SHAKE against FIPS 202.  The permutation is an uninterpreted function KECCAKF of the 200 state bytes when the sponge is
verified; the permutation itself is proved equal to the FIPS 202 round function separately."""
import term as tm
from engine import *
from loops import LoopEngine, spec_iter, PEEL, KV, _symn, find_peel
from run import Task
from hybrid import ufbytes

PERM = 'KeccakF1600_StatePermute'
RATE = {'sha3_256': 136, 'sha3_384': 104, 'sha3_512': 72, 'shake128': 168, 'shake256': 136}
DIGEST = {'sha3_256': 32, 'sha3_384': 48, 'sha3_512': 64}

def F(st):
    t = tm.app('KECCAKF', 1600, tuple(st))
    return [tm.ext(t, 1600, 8 * i, 8 * i + 8) for i in range(200)]

def c_perm(E, s):
    E.wr(s, F(E.rd(s, 200)))

CON = {PERM: c_perm}

# ---- specification ------------------------------------------------------------------------
def xor_block(st, bs):
    return [tm.xor(8, a, b) for a, b in zip(st, bs)] + st[len(bs):]

def absorb(rd, Q, t, r, dom, peel=PEEL):
    """rd(off) -> message byte; message length Q*r + t; returns the state before the first squeeze permutation"""
    st, _, _ = spec_iter([0] * 200, lambda X, k: F(xor_block(X, [rd(tm.add(64, tm.mul(64, k, r), i)) for i in range(r)])), Q, peel)
    base = tm.mul(64, Q, r)
    last = [rd(tm.add(64, base, i)) for i in range(t)] + [dom] + [0] * (r - t - 1)
    last[r - 1] = tm.xor(8, last[r - 1], 0x80)
    return xor_block(st, last)

def squeeze(st, Q, t, r, peel=PEEL):
    """bytes: list of (offset, value), segment, for output length Q*r + t"""
    def step(X, k):
        Y = F(X)
        return Y, [(tm.add(64, tm.mul(64, k, r), i), Y[i]) for i in range(r)]
    st, outs, seg = spec_iter(st, step, Q, peel)
    if t:
        Y = F(st); base = tm.mul(64, Q, r)
        outs = outs + [(tm.add(64, base, i), Y[i]) for i in range(t)]
    return outs, seg

MAXQ = 1 << 48

def pick(E, nm, conc):
    """number of whole blocks: the small values one by one, then all larger ones at once (symbolic)"""
    if conc.__class__ is int: return conc
    q = tm.var(nm, 64)
    E.assume(tm.ult(64, q, MAXQ))
    E.hints = E.hints + [q, tm.sub(64, q, 1), tm.sub(64, q, 2), tm.sub(64, q, 3)]
    return q

def msgobj(E, n):
    return E.symobj('m', n, True, True)

def rdm(off):
    return tm.app('rd', 8, ('m', off))

def check_out(E, o, outs, seg, n):
    """output buffer: exactly the specified bytes at the specified offsets"""
    from loops import split
    want = {}
    for off, v in outs:
        rest, c = split(off)
        want[c if rest is None else (rest, c)] = v
    got = {}
    for k, v in o.cells.items():
        off = E.norm(k if k.__class__ is int else tm.add(64, k[0], k[1] & M64))
        rest, c = split(off)
        got[c if rest is None else (rest, c)] = v
    for k in want:
        if k not in got: raise Violation('every output byte is written', 'offset %r' % (k,), E.model())
        E.same(8, got[k], want[k], 'output equals the FIPS 202 definition', 'offset %r' % (k,))
    for k in got:
        E.post(1 if k in want else 0, 'nothing else is written', 'offset %r' % (k,))
    segs = [s for s in o.lazy if _symn(E, s[5]) != 0]
    if seg is None or (seg[5].__class__ is int and seg[5] == 0):
        E.post(0 if segs else 1, 'nothing else is written')
    else:
        if len(segs) != 1: raise Violation('every output byte is written', 'block loop', E.model())
        g = segs[0]
        E.post(1 if len(g[1]) == len(seg[1]) else 0, 'every output byte of a block is written')
        nb = lambda t: E.norm(t)
        gm = {nb(a): b for a, b in zip(g[1], g[2])}
        for a, b in zip(seg[1], seg[2]):
            if nb(a) not in gm: raise Violation('every output byte is written', tm.show(a), E.model())
            E.same(8, gm[nb(a)], b, 'output equals the FIPS 202 definition', 'block byte %s' % tm.show(a))
        for x, y, what in ((g[3], seg[3], 'block step'), (g[4], seg[4], 'state entering the block loop')):
            E.post(1 if len(x) == len(y) else 0, what)
            for a, b in zip(x, y): E.same(8, a, b, what)
        E.same(64, nb(g[5]), nb(seg[5]), 'number of output blocks')

def heap_clean(E, but=()):
    for o in E.heap:
        E.post(1 if (not o.live or o in but) else 0, 'context memory is released')

def t_sha3(E, fn, qsel, t):
    r, d = RATE[fn], DIGEST[fn]
    Q = pick(E, 'Q', qsel)
    n = tm.add(64, tm.mul(64, Q, r), t)
    m = msgobj(E, n); out = E.obj('out', d, 'input', 'arg')
    E.run(fn, (Ptr(out, 0), Ptr(m, 0), n))
    Q = _symn(E, Q)
    st = absorb(rdm, Q, t, r, 0x06, find_peel(E, Q, out.cells))
    want = F(st)[:d]
    for i in range(d): E.same(8, out.cells[i], want[i], 'digest equals FIPS 202', 'byte %d, length %s*%d+%d' % (i, tm.show(Q), r, t))
    heap_clean(E)
    E.cover('done')

def t_shake(E, fn, qi, ti, qo, to):
    r = RATE[fn]
    Qi = pick(E, 'Q', qi)
    Qo = pick(E, 'Qo', qo)
    n = tm.add(64, tm.mul(64, Qi, r), ti); no = tm.add(64, tm.mul(64, Qo, r), to)
    m = msgobj(E, n); out = E.symobj('out', no, False, False)
    E.run(fn, (Ptr(out, 0), no, Ptr(m, 0), n))
    Qi = _symn(E, Qi); Qo = _symn(E, Qo)
    vals = list(out.cells.values()) + [g[2:5] for g in out.lazy]
    st = absorb(rdm, Qi, ti, r, 0x1F, find_peel(E, Qi, vals))
    outs, seg = squeeze(st, Qo, to, r, find_peel(E, Qo, vals, out.lazy))
    check_out(E, out, outs, seg, no)
    heap_clean(E)
    E.cover('done')

# ---- the permutation -----------------------------------------------------------------------
def AND(w, x, y):
    """conjunction kept opaque (commutative) so that the 24-round term stays linear in size"""
    if x.__class__ is int or y.__class__ is int or x is y: return tm.and_(w, x, y)
    if w != 64: return tm.and_(w, x, y)
    return tm.app('AND', w, (x, y) if x.id < y.id else (y, x))

class PermEngine(Engine):
    opns = {'and_': AND}
    def bin(self, op, w, a, b):
        if op == 'and' and not isinstance(a, Ptr) and not isinstance(b, Ptr): return AND(w, a, b)
        if op == 'or' and not isinstance(a, Ptr) and not isinstance(b, Ptr) and a.__class__ is tm.T and b.__class__ is tm.T and w == 64:
            r = tm.or_(w, a, b)
            if r.op != 'or': return r
        return Engine.bin(self, op, w, a, b)

def _rc():
    out = []; R = 1
    def rc(t):
        if t % 255 == 0: return 1
        R = [1, 0, 0, 0, 0, 0, 0, 0]
        for _ in range(t % 255):
            R = [0] + R
            R[0] ^= R[8]; R[4] ^= R[8]; R[5] ^= R[8]; R[6] ^= R[8]
            R = R[:8]
        return R[0]
    for ir in range(24):
        v = 0
        for j in range(7): v |= rc(j + 7 * ir) << ((1 << j) - 1)
        out.append(v)
    return out

def _rho():
    off = {(0, 0): 0}; x, y = 1, 0
    for t in range(24):
        off[(x, y)] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    return off

def keccak_f(A):
    """FIPS 202 section 3.2 on 25 lanes, A[x + 5*y]"""
    X = lambda *v: __import__('functools').reduce(lambda a, b: tm.xor(64, a, b), v)
    RC, RHO = _rc(), _rho()
    for ir in range(24):
        C = [X(*[A[x + 5 * y] for y in range(5)]) for x in range(5)]
        D = [X(C[(x - 1) % 5], tm.rotl(64, C[(x + 1) % 5], 1)) for x in range(5)]
        A = [X(A[x + 5 * y], D[x]) for y in range(5) for x in range(5)]
        B = [None] * 25
        for x in range(5):
            for y in range(5):
                B[y + 5 * ((2 * x + 3 * y) % 5)] = tm.rotl(64, A[x + 5 * y], RHO[(x, y)])
        A = [X(B[x + 5 * y], AND(64, tm.not_(64, B[(x + 1) % 5 + 5 * y]), B[(x + 2) % 5 + 5 * y])) for y in range(5) for x in range(5)]
        A[0] = X(A[0], RC[ir])
    return A

def t_perm(E):
    s = E.obj('state', 200, 'input', 'arg')
    lanes = [tm.var('lane%d' % i, 64) for i in range(25)]
    for i in range(25): E.store(Ptr(s, 8 * i), 8, lanes[i])
    E.run(PERM, (Ptr(s, 0),))
    want = keccak_f(lanes)
    for i in range(25):
        got = E.load(Ptr(s, 8 * i), 8)
        E.same(64, got, want[i], 'permutation equals FIPS 202 Keccak-f[1600]', 'lane %d' % i)
    E.cover('done')

# ---- incremental interface ---------------------------------------------------------------
# representation invariant of a context: 26 words on the heap; words 0..24 the sponge state with the partial block xored in, word 25 the
# number of bytes already absorbed into the current block (absorbing) or still unread in the current output block (squeezing)
INC = {'shake128': 168, 'shake256': 136, 'sha3_256': 136, 'sha3_384': 104, 'sha3_512': 72}

def ctx_obj(E, pos):
    h = E.obj('state', 208, [tm.var('S[%d]' % i, 8) for i in range(200)] + [(pos >> (8 * i)) & 255 for i in range(8)], 'heap')
    E.heap.append(h)
    c = E.obj('ctx', 8)
    E.store(Ptr(c, 0), 8, Ptr(h, 0))
    return c, h

def st_of(h): return list(h.cells[:200])
def chk_ctx(E, h, st, pos, what):
    for i in range(200): E.same(8, h.cells[i], st[i], what + ': state', 'byte %d' % i)
    for i in range(8): E.same(8, h.cells[200 + i], (pos >> (8 * i)) & 255, what + ': position')
    E.post(1 if h.live else 0, what + ': context stays allocated')

def t_init(E, fn, suffix):
    c = E.obj('ctx', 8)
    E.run('%s_inc_init' % fn, (Ptr(c, 0),))
    p = E.load(Ptr(c, 0), 8)
    E.post(1 if isinstance(p, Ptr) and p.o.kind == 'heap' and p.off == 0 and p.o.size >= 208 else 0, 'init allocates a context')
    for i in range(208): E.same(8, p.o.cells[i], 0, 'fresh context is zero')
    E.cover('done')

def t_absorb(E, fn, p, qsel, t):
    r = INC[fn]
    c, h = ctx_obj(E, p)
    S = st_of(h)
    Q = pick(E, 'Q', qsel)
    # message length n with p + n = Q*r + t
    n = tm.sub(64, tm.add(64, tm.mul(64, Q, r), t), p)
    if n.__class__ is int and n >> 63: raise Infeasible()
    if n.__class__ is not int and t < p: E.assume(tm.ule(64, 1, Q))
    m = msgobj(E, n)
    E.run('%s_inc_absorb' % fn, (Ptr(c, 0), Ptr(m, 0), n))
    Q = _symn(E, Q)
    def step(X, k):
        blk = []
        for i in range(r):
            off = tm.sub(64, tm.add(64, tm.mul(64, k, r), i), p)
            blk.append(0 if (k.__class__ is int and k == 0 and i < p) else rdm(off))
        return F(xor_block(X, blk))
    X, _, _ = spec_iter(S, step, Q, find_peel(E, Q, h.cells[:200]))
    base = tm.sub(64, tm.mul(64, Q, r), p)
    first = p if Q.__class__ is int and Q == 0 else 0
    tail = [0 if i < first else rdm(tm.add(64, base, i)) for i in range(t)]
    chk_ctx(E, h, xor_block(X, tail), t, 'absorb')
    E.cover('done')

def t_finalize(E, fn, p):
    r = INC[fn]
    c, h = ctx_obj(E, p)
    S = st_of(h)
    dom = 0x1F if fn.startswith('shake') else 0x06
    pad = [0] * r
    pad[p] = dom; pad[r - 1] ^= 0x80
    X = xor_block(S, pad)
    if fn.startswith('shake'):
        E.run('%s_inc_finalize' % fn, (Ptr(c, 0),))
        chk_ctx(E, h, X, 0, 'finalize')
    else:
        d = DIGEST[fn]
        out = E.obj('out', d, 'input', 'arg')
        E.run('%s_inc_finalize' % fn, (Ptr(out, 0), Ptr(c, 0)))
        Y = F(X)
        for i in range(d): E.same(8, out.cells[i], Y[i], 'digest equals FIPS 202', 'byte %d' % i)
        E.post(1 if not h.live else 0, 'context is released')
        heap_clean(E)
    E.cover('done')

def t_squeeze(E, fn, a, qsel, t):
    """a bytes of the current block unread; output length n = a + Q*r + t  (or n < a)"""
    r = INC[fn]
    c, h = ctx_obj(E, a)
    S = st_of(h)
    if qsel == 'short':
        n = t; Q = 0
        out = E.symobj('out', n, False, False)
        E.run('%s_inc_squeeze' % fn, (Ptr(out, 0), n, Ptr(c, 0)))
        check_out(E, out, [(i, S[r - a + i]) for i in range(n)], None, n)
        chk_ctx(E, h, S, a - n, 'squeeze')
        E.cover('done'); return
    Q = pick(E, 'Q', qsel)
    n = tm.add(64, tm.mul(64, Q, r), a + t)
    out = E.symobj('out', n, False, False)
    E.run('%s_inc_squeeze' % fn, (Ptr(out, 0), n, Ptr(c, 0)))
    Q = _symn(E, Q)
    def step(X, k):
        Y = F(X)
        return Y, [(tm.add(64, tm.mul(64, k, r), a + i), Y[i]) for i in range(r)]
    X, outs, seg = spec_iter(S, step, Q, find_peel(E, Q, h.cells[:200], out.lazy))
    outs = [(i, S[r - a + i]) for i in range(a)] + outs
    pos = 0
    if t:
        Y = F(X); base = tm.mul(64, Q, r)
        outs += [(tm.add(64, base, a + i), Y[i]) for i in range(t)]
        X = Y; pos = r - t
    check_out(E, out, outs, seg, n)
    chk_ctx(E, h, X, pos, 'squeeze')
    E.cover('done')

def t_clone(E, fn, kind, size):
    h = E.obj('state', size, 'input', 'heap'); E.heap.append(h)
    c = E.obj('ctx', 8); E.store(Ptr(c, 0), 8, Ptr(h, 0))
    d = E.obj('dst', 8)
    old = list(h.cells)
    E.run('%s_%sctx_clone' % (fn, kind), (Ptr(d, 0), Ptr(c, 0)))
    p = E.load(Ptr(d, 0), 8)
    E.post(1 if isinstance(p, Ptr) and p.o is not h and p.o.kind == 'heap' and p.off == 0 and p.o.size >= size else 0, 'clone allocates its own context')
    for i in range(size):
        E.same(8, p.o.cells[i], old[i], 'clone copies the whole context', 'byte %d' % i)
        E.same(8, h.cells[i], old[i], 'clone leaves the source alone', 'byte %d' % i)
    E.run('%s_%sctx_release' % (fn, kind), (Ptr(d, 0),))
    E.post(1 if (not p.o.live and h.live) else 0, 'release frees exactly the released context')
    E.cover('done')

def t_ctx_absorb(E, fn, qsel, t):
    r = RATE[fn]
    Q = pick(E, 'Q', qsel)
    n = tm.add(64, tm.mul(64, Q, r), t)
    m = msgobj(E, n); c = E.obj('ctx', 8)
    E.run('%s_absorb' % fn, (Ptr(c, 0), Ptr(m, 0), n))
    p = E.load(Ptr(c, 0), 8)
    E.post(1 if isinstance(p, Ptr) and p.o.kind == 'heap' and p.off == 0 and p.o.size >= 200 else 0, 'absorb allocates a context')
    Q = _symn(E, Q)
    st = absorb(rdm, Q, t, r, 0x1F, find_peel(E, Q, p.o.cells[:200]))
    for i in range(200): E.same(8, p.o.cells[i], st[i], 'absorbed state equals FIPS 202', 'byte %d' % i)
    E.cover('done')

def t_ctx_squeeze(E, fn, qsel):
    r = RATE[fn]
    Q = pick(E, 'Q', qsel)
    h = E.obj('state', 200, [tm.var('S[%d]' % i, 8) for i in range(200)], 'heap'); E.heap.append(h)
    c = E.obj('ctx', 8); E.store(Ptr(c, 0), 8, Ptr(h, 0))
    S = st_of(h)
    n = tm.mul(64, Q, r)
    out = E.symobj('out', n, False, False)
    E.run('%s_squeezeblocks' % fn, (Ptr(out, 0), Q, Ptr(c, 0)))
    Q = _symn(E, Q)
    def step(X, k):
        Y = F(X)
        return Y, [(tm.add(64, tm.mul(64, k, r), i), Y[i]) for i in range(r)]
    X, outs, seg = spec_iter(S, step, Q, find_peel(E, Q, h.cells[:200], out.lazy))
    check_out(E, out, outs, seg, n)
    for i in range(200): E.same(8, h.cells[i], X[i], 'state after squeezing', 'byte %d' % i)
    E.cover('done')

def t_alias(E, fn, no, n):
    """output written over the input buffer (as key generation does)"""
    r = RATE[fn]
    b = E.obj('buf', max(no, n), 'input', 'arg')
    m = list(b.cells)
    E.run(fn, (Ptr(b, 0), no, Ptr(b, 0), n))
    st = absorb(lambda off: m[off], n // r, n % r, r, 0x1F)
    outs, _ = squeeze(st, no // r, no % r, r)
    for off, v in outs: E.same(8, b.cells[off], v, 'in-place output equals FIPS 202', 'byte %d' % off)
    for i in range(no, n): E.same(8, b.cells[i], m[i], 'nothing else is written')
    E.cover('done')

def t_group(E, fn, lst):
    """several cases in one process (each from a fresh path state)"""
    raise NotImplementedError

def T(name, func, fn, *args, cls=LoopEngine, weight=0):
    return Task(name, func, fn, CON, args=args, engine_cls=cls, need_cover=('done',), weight=weight)

def multi(E, fn, cases):
    i = E.fork(len(cases))
    fn(E, *cases[i])

def tasks(thorough=False):
    """every residue of the length modulo the rate for the one-shot functions; every position of the incremental interface.
    thorough: every residue (one-shot) and every position (incremental; total-length residues at the boundaries) with an arbitrary number of blocks.
    quick: an arbitrary number of blocks for the residues and positions at lane and block boundaries (and a spread in between), the
    remaining ones for up to one (input) or two (position) block boundaries, labelled bounded"""
    ts = [Task('Keccak-f[1600]', PERM, t_perm, {}, engine_cls=PermEngine, need_cover=('done',))]
    S = '*'
    FB = (0, 1, 2, 3, 5)
    def add(name, func, fn, cases, weight=0):
        """cases with '*' cover every block count at once; the stand-in enumerates block counts"""
        fb = []
        for c in cases:
            if S in c: fb += [tuple(q if x == S else x for x in c) for q in FB]
            else: fb.append(c)
        ts.append(Task(name, func, multi, CON, args=(fn, cases), engine_cls=LoopEngine, need_cover=('done',), weight=weight, fallback=[(fn, fb)]))
    def small(name, func, fn, cases, size=40):
        for i in range(0, len(cases), size):
            ts.append(Task('%s #%d' % (name, i // size), func, multi, CON, args=(fn, cases[i:i + size]), engine_cls=LoopEngine, need_cover=('done',), bounded='0 and 1 whole blocks'))
    def edge(r):
        if thorough: return list(range(r))
        return sorted({x for x in (0, 1, 3, 7, 8, r // 2 - 3, r // 2, r - 9, r - 8, r - 2, r - 1, (5 * r) // 7) if 0 <= x < r})
    for fn in DIGEST:
        r = RATE[fn]; ed = edge(r)
        for t in ed: add('%s[len=%d mod %d]' % (fn, t, r), fn, t_sha3, [(fn, S, t)])
        small('%s[other lengths]' % fn, fn, t_sha3, [(fn, q, t) for t in range(r) if t not in ed for q in (0, 1)])
    for fn in ('shake128', 'shake256'):
        r = RATE[fn]; ed = edge(r)
        for t in ed:
            add('%s_absorb[len=%d mod %d]' % (fn, t, r), fn + '_absorb', t_ctx_absorb, [(fn, S, t)])
            add('%s[in=%d mod %d,out=32]' % (fn, t, r), fn, t_shake, [(fn, S, t, 0, 32)])
            add('%s[in=%d,out=%d mod %d]' % (fn, 40, t, r), fn, t_shake, [(fn, 0, 40, S, t)])
            if thorough or t in (0, 7, r - 1): add('%s[in=3 mod %d,out=%d mod %d]' % (fn, r, t, r), fn, t_shake, [(fn, S, 3, S, t)], 1)
        rest = [(q, t) for t in range(r) if t not in ed for q in (0, 1)]
        small('%s_absorb[other lengths]' % fn, fn + '_absorb', t_ctx_absorb, [(fn, q, t) for q, t in rest])
        small('%s[other input lengths]' % fn, fn, t_shake, [(fn, q, t, 0, 32) for q, t in rest])
        small('%s[other output lengths]' % fn, fn, t_shake, [(fn, 0, 40, q, t) for q, t in rest])
        add('%s_squeezeblocks' % fn, fn + '_squeezeblocks', t_ctx_squeeze, [(fn, S)])
        ts.append(T('%s ctx clone/release' % fn, fn + '_ctx_clone', t_clone, fn, '', 200))
        ts.append(T('%s in place' % fn, fn, multi, t_alias, [(fn, 128, 32), (fn, 32, 64), (fn, 300, 300), (fn, 32, 1)]))
    for fn, r in INC.items():
        ts.append(T('%s_inc_init' % fn, fn + '_inc_init', t_init, fn, ''))
        ts.append(T('%s_inc clone/release' % fn, fn + '_inc_ctx_clone', t_clone, fn, 'inc_', 208))
        ts.append(T('%s_inc_finalize' % fn, fn + '_inc_finalize', multi, t_finalize, [(fn, p) for p in range(r)]))
        ok = lambda xs: sorted({x for x in xs if 0 <= x < r})
        res = lambda p: ok([0, 1, p - 1, p, p + 1, (p + r) // 2, r - 1])
        sq = lambda p: ok([0, 1, r - p, r - 1])
        shorts = lambda p: ok({0, 1, p // 2, p - 1} & set(range(p)))
        ed = range(r) if thorough else ok([0, 1, 7, 8, r // 2 + 1, r - 8, r - 1])
        if not thorough and not fn.startswith('shake'): ed = ok([0, 3, r - 1])
        for p in ed:
            add('%s_inc_absorb[pos=%d]' % (fn, p), fn + '_inc_absorb', t_absorb, [(fn, p, S, t) for t in res(p)], 1)
            if fn.startswith('shake'):
                add('%s_inc_squeeze[left=%d]' % (fn, p), fn + '_inc_squeeze', t_squeeze, [(fn, p, 'short', t) for t in shorts(p)] + [(fn, p, S, t) for t in sq(p)], 2)
        rest = [p for p in range(r) if p not in ed]
        ares = lambda p: ok([0, p - 1, p, p + 1, r - 1])
        small('%s_inc_absorb[other positions]' % fn, fn + '_inc_absorb', t_absorb, [(fn, p, q, t) for p in rest for q in (0, 1, 2) for t in ares(p) if q * r + t >= p and (q < 2 or t == 0)], 80)
        if fn.startswith('shake'):
            small('%s_inc_squeeze[other positions]' % fn, fn + '_inc_squeeze', t_squeeze, [(fn, p, 'short', t) for p in rest for t in shorts(p)] + [(fn, p, q, t) for p in rest for q in (0, 1) for t in sq(p)], 80)
    return ts
