"""C16: SPHINCS+ (SHAKE-256, 256f simple) - every function from the address layout to sign/verify against an executable specification.

SHAKE-256 is an uninterpreted function of exactly the bytes hashed.  The specification below is written from the SPHINCS+ definition (addresses, WOTS+
chains, Merkle trees, FORS, hypertree) and knows nothing of the code.  The contracts, bottom up:

  chain_lengths      lengths = 64 base-16 digits of the message and the 3 digits of the checksum
  wots_pk_from_sig   pk_i = chain_i from digit_i to 15
  compute_root       the node reached from leaf, index and authentication path
  treehashx1         root and authentication path of the full tree over the leaf function it is given (called for every leaf, in order)
  fors_*, merkle_*   executed with their leaf functions; trees through the contracts above
  crypto_sign_*      key generation, signing, verification

and lemmas over the specification: a verifier that starts from what the signer publishes reaches the tree's root."""
import term as tm
from term import T
from engine import *
from engine import subst, children
from merge import MergeEngine
from run import Task
from hybrid import inputs, outbuf
import shake
X = 'PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_'
N, TH, D, FH, K, LEN = 32, 4, 17, 9, 35, 67
FMSG = 40; FBYTES = (FH + 1) * K * N; WBYTES = LEN * N; BYTES = N + FBYTES + D * WBYTES + TH * D * N
WOTS, WOTSPK, HASHTREE, FORSTREE, FORSPK, WOTSPRF, FORSPRF = range(7)
assert BYTES == 49856

# ---- specification -------------------------------------------------------------------------------
def SHK(bs, n=32):
    t = tm.app('SHK', 8 * n, (tuple(bs),))
    return [tm.ext(t, 8 * n, 8 * i, 8 * i + 8) for i in range(n)]
def Hparts(ps, n, kind='256'):
    if all(p[0] == 'b' for p in ps): return SHK([p[1] for p in ps], n)
    t = tm.app('SHKM', 8 * n, (shake.canon(ps),))
    return [tm.ext(t, 8 * n, 8 * i, 8 * i + 8) for i in range(n)]
def be(w, v, n):
    """n big-endian bytes of a w-bit value"""
    if v.__class__ is int: return list(v.to_bytes(n, 'big'))
    return [tm.ext(v, w, 8 * (n - 1 - i), 8 * (n - i)) for i in range(n)]
def b8(v, w=32): return v & 255 if v.__class__ is int else tm.ext(v, w, 0, 8)
def addr(layer, tree, ty, kp, b27, w28):
    """tree: 8 bytes; w28: the last 4 bytes"""
    return [0, 0, 0, layer] + [0] * 4 + list(tree) + [0, 0, 0, ty] + [0, 0, 0, kp] + [0, 0, 0, b27] + list(w28)
def F(seed, a, x): return SHK(seed + a + x)
def PRF(seed, sk, a): return SHK(seed + a + sk)

def digits(msg):
    """67 4-bit values as 32-bit terms"""
    d = []
    for b in msg:
        d += [tm.zext(4, 32, tm.ext(b, 8, 4, 8)), tm.zext(4, 32, tm.ext(b, 8, 0, 4))]
    c = 0
    for x in d: c = tm.add(32, c, tm.sub(32, 15, x))
    return d + [tm.zext(4, 32, tm.ext(c, 32, s, s + 4)) for s in (8, 4, 0)]

def chain(seed, x, lo, hi, a):
    """hash positions lo..hi-1; a(k): address at position k"""
    for k in range(lo, hi): x = F(seed, a(k), x)
    return x

def wots_sk(seed, sk, layer, tree, kp, i): return PRF(seed, sk, addr(layer, tree, WOTSPRF, kp, i, [0, 0, 0, 0]))
def wots_a(layer, tree, kp, i): return lambda k: addr(layer, tree, WOTS, kp, i, [0, 0, 0, k])
def wots_leaf(seed, sk, layer, tree, kp):
    pk = []
    for i in range(LEN): pk += chain(seed, wots_sk(seed, sk, layer, tree, kp, i), 0, 15, wots_a(layer, tree, kp, i))
    return SHK(seed + addr(layer, tree, WOTSPK, kp, 0, [0] * 4) + pk)

def node_addr(a27, lvl, j, off): return list(a27) + [lvl] + be(32, tm.add(32, j, tm.lshr(32, off, lvl)), 4)
def tree_nodes(seed, a27, leaves, h, off):
    """nodes[l][j]"""
    ns = [leaves]
    for l in range(1, h + 1):
        p = ns[-1]
        ns.append([SHK(seed + node_addr(a27, l, j, off) + p[2 * j] + p[2 * j + 1]) for j in range(len(p) // 2)])
    return ns
def climb(seed, a27, leaf, idx, auth, h, off):
    x = leaf
    for l in range(h):
        s = auth[N * l:N * l + N]
        x = SHK(seed + node_addr(a27, l + 1, idx >> (l + 1), off) + (s + x if idx >> l & 1 else x + s))
    return x
def fors_idx(m):
    """35 9-bit values, most significant bit first"""
    bits = []
    for b in m: bits += [b >> (7 - k) & 1 if b.__class__ is int else tm.ext(b, 8, 7 - k, 8 - k) for k in range(8)]
    return [tm.zext(FH, 32, tm.concat_list([(1, x) for x in bits[FH * i:FH * i + FH]])) for i in range(K)]

# ---- engine --------------------------------------------------------------------------------------
class SpxEngine(MergeEngine):
    def descr(self, p, n, what='read'):
        n = self.norm(n)
        if p.__class__ is not Ptr: raise Violation('valid pointer', 'in %s' % self.where(), self.model())
        o = p.o
        if o.cells.__class__ is list: return [('bytes',) + tuple(self.rd(p, conc(self, n, 'length')))]
        off = self.norm(p.off); e = tm.add(64, off, n)
        self.require(tm.and_(1, tm.ule(64, off, e), tm.ule(64, e, o.size)), 'in-bounds access', 'message')
        return [('rd', o.name, off, n)]
    def cases(self, v, vals, pairs, label):
        """pairs: (computed, spec(value)) byte lists; equal for every value of the variable v.  Top-level if-then-elses are resolved for all values at once"""
        vals = list(vals); full = (1 << len(vals)) - 1
        tm_mask = {}; men = {v: True}; caches = [{} for _ in vals]
        def mentions(t):
            st = [t]
            while st:
                x = st[-1]
                if x in men: st.pop(); continue
                ch = children(x); todo = [c for c in ch if c not in men]
                if todo: st.extend(todo); continue
                men[x] = any(men[c] for c in ch); st.pop()
            return men[t]
        def val(t, n):
            return subst(t, {v: vals[n]}, caches[n]) if t.__class__ is T and mentions(t) else t
        def mask(c):
            if c.__class__ is int: return full if c else 0
            m = tm_mask.get(c)
            if m is None:
                m = 0
                if not mentions(c): return None
                for n in range(len(vals)):
                    r = val(c, n)
                    if r.__class__ is not int: m = None; break
                    if r: m |= 1 << n
                tm_mask[c] = m if m is not None else 'no'
            return None if m == 'no' else m
        for got, spec in pairs:
            want = [spec(x) for x in vals]
            for k, g in enumerate(got):
                todo = [(full, g)]
                while todo:
                    ms, t = todo.pop()
                    while t.__class__ is T and t.op == 'ite':
                        c = mask(t.a[0])
                        if c is None: break
                        if ms & c and ms & ~c: todo.append((ms & ~c, t.a[2])); ms &= c; t = t.a[1]
                        else: t = t.a[1] if ms & c else t.a[2]
                    while ms:
                        n = (ms & -ms).bit_length() - 1; ms &= ms - 1
                        self.same(8, val(t, n), val(want[n][k], n), label, 'value %d, byte %d' % (vals[n], k))
    def same(self, w, a, b, label, detail=''):
        """equal terms, or applications of the same function to arguments proved equal one by one"""
        if a is b or a.__class__ is not T or b.__class__ is not T: return Engine.same(self, w, a, b, label, detail)
        if (a, b) in self.eqs: self.stats.post += 1; return
        if a.op == 'ext' and b.op == 'ext' and a.a[1:] == b.a[1:]: x, y = a.a[0], b.a[0]
        else: x, y = a, b
        if x.__class__ is T and y.__class__ is T and x.op == 'app' and y.op == 'app' and x.w == y.w and x.a[0] == y.a[0] and (x, y) not in self.eqs:
            self._args(x.a[1:], y.a[1:], label, detail); self.eqs.add((x, y)); self.stats.post += 1
        elif (x, y) in self.eqs: self.stats.post += 1
        else: Engine.same(self, w, a, b, label, detail)
    def _args(self, p, q, label, detail):
        if p.__class__ is tuple and q.__class__ is tuple and len(p) == len(q):
            for x, y in zip(p, q):
                if x is not y: self._args(x, y, label, detail)
            return
        if p.__class__ is q.__class__ and p.__class__ is not T and p == q: return
        if p.__class__ in (int, T) and q.__class__ in (int, T) and (p.__class__ is T or q.__class__ is T):
            w = p.w if p.__class__ is T else q.w
            return self.same(w, p, q, label, detail)
        raise Violation(label, '%s: hash inputs differ' % detail, self.model())
    def reset_path(self, d):
        MergeEngine.reset_path(self, d); self.eqs = set()

SH = shake.family('256', False, Hparts)
def untouched(E, objs):
    """objects that must be as they were: (Ptr, original cells)"""
    for p, orig in objs:
        for i, (a, b) in enumerate(zip(p.o.cells, orig)): E.same(8, a, b, 'frame: %s unchanged' % p.o.name, 'byte %d' % i)
def ins(E, *specs):
    out = []
    for nm, n in specs: out.append(Ptr(E.obj(nm, n, 'input', 'arg'), 0))
    return out
def ctx(E):
    p = Ptr(E.obj('ctx', 64, 'input', 'arg', ro=True), 0)
    return p, p.o.cells[:32], p.o.cells[32:]
def outp(E, nm, n): return Ptr(E.obj(nm, n, 'undef', 'arg'), 0)
def bytes_at(E, p, n): return E.rd(p, n)
def same_bytes(E, got, want, label):
    if len(got) != len(want): raise Violation(label, 'length')
    for i, (a, b) in enumerate(zip(got, want)): E.same(8, a, b, label, 'byte %d' % i)

# ---- contracts -----------------------------------------------------------------------------------
def c_chain_lengths(E, out, msg):
    m = E.rd(msg, N)
    t = tm.app('DIGITS', 4 * LEN, (tuple(m),))
    ds = [tm.ext(t, 4 * LEN, 4 * i, 4 * i + 4) for i in range(LEN)]
    bs = []
    for d in ds: bs += [tm.zext(4, 8, d), 0, 0, 0]
    E.wr(out, bs)
def digit_terms(m):
    t = tm.app('DIGITS', 4 * LEN, (tuple(m),))
    return [tm.ext(t, 4 * LEN, 4 * i, 4 * i + 4) for i in range(LEN)]

def t_chain_lengths(E):
    msg = Ptr(E.obj('msg', N, 'input', 'arg', ro=True), 0); out = outp(E, 'lengths', 4 * LEN)
    E.call(X + 'chain_lengths', (out, msg))
    want = digits(msg.o.cells)
    for i in range(LEN): E.same(32, tm.from_bytes(E.rd(Ptr(out.o, 4 * i), 4)), want[i], 'chain_lengths: digit', 'digit %d' % i)
    E.cover('done')

def t_thash(E, k, alias):
    c, seed, sk = ctx(E)
    a, = ins(E, ('addr', 32))
    a0 = list(a.o.cells)
    n = N * k
    if alias is None: x, = ins(E, ('in', n)); o = outp(E, 'out', N)
    else:
        x, = ins(E, ('in', n)); o = Ptr(x.o, alias)
    xin = list(x.o.cells)
    E.call(X + 'thash', (o, x, k, c, a))
    want = list(xin) if alias is not None else None
    v = SHK(seed + a0 + xin)
    same_bytes(E, E.rd(o, N), v, 'thash: SHAKE-256 of seed, address and input')
    if alias is not None: want[alias:alias + N] = v
    untouched(E, [(a, a0), (x, want if want else xin)])
    E.cover('done')

def t_prf(E):
    c, seed, sk = ctx(E); a, = ins(E, ('addr', 32)); a0 = list(a.o.cells); o = outp(E, 'out', N)
    E.call(X + 'prf_addr', (o, c, a))
    same_bytes(E, E.rd(o, N), SHK(seed + a0 + sk), 'prf_addr: SHAKE-256 of public seed, address and secret seed')
    untouched(E, [(a, a0)]); E.cover('done')

WA = list(range(27)) + [28, 29, 30]
def c_wots_pk(E, pk, sig, msg, c, a):
    s = E.rd(sig, WBYTES); m = E.rd(msg, N); seed = E.rd(c, N); ad = E.rd(a, 32)
    t = tm.app('WPKS', 8 * WBYTES, (tuple(s), tuple(m), tuple(seed), tuple(ad[i] for i in WA)))
    E.wr_app(pk, t, WBYTES)
    for k in (27, 31): E.wr(Ptr(a.o, tm.add(64, a.off, k)), [E.fresh('wots.addr', 8)])

def t_wots_pk(E):
    c, seed, sk = ctx(E); a, = ins(E, ('addr', 32)); a0 = list(a.o.cells)
    sig = Ptr(E.obj('sig', WBYTES, 'input', 'arg', ro=True), 0); msg = Ptr(E.obj('msg', N, 'input', 'arg', ro=True), 0); pk = outp(E, 'pk', WBYTES)
    s = list(sig.o.cells); m = list(msg.o.cells)
    E.call(X + 'wots_pk_from_sig', (pk, sig, msg, c, a))
    ds = digit_terms(m)
    for i in range(LEN):
        v = tm.var('digit', 4)
        got = E.rd(Ptr(pk.o, N * i), N)
        cache = {}
        got = [subst(g, {ds[i]: v}, cache) for g in got]
        ad = lambda k, i=i: a0[:27] + [i] + a0[28:31] + [k]
        E.cases(v, range(16), [(got, lambda x: chain(seed, s[N * i:N * i + N], x, 15, ad))], 'wots_pk_from_sig: chain from the digit to its end')
    want = list(a0); want[27] = a.o.cells[27]; want[31] = a.o.cells[31]
    untouched(E, [(a, want)]); E.cover('done')

def c_compute_root(E, root, leaf, idx, off, auth, h, c, a):
    h = conc(E, h, 'tree height'); off = conc(E, off, 'index offset')
    E.require(1 if h in (TH, FH) and off % (1 << h) == 0 and off < 1 << 24 else 0, 'compute_root: height and offset')
    E.require(tm.ult(32, idx, 1 << h), 'compute_root: leaf index within the tree')
    lf = E.rd(leaf, N); au = E.rd(auth, N * h); seed = E.rd(c, N); ad = E.rd(a, 27)
    t = tm.app('CR', 8 * N, (h, off, idx, tuple(lf), tuple(au), tuple(seed), tuple(ad)))
    E.wr_app(root, t, N)
    E.wr(Ptr(a.o, tm.add(64, a.off, 27)), [E.fresh('cr.addr', 8) for _ in range(5)])

def t_compute_root(E, h):
    c, seed, sk = ctx(E); a, leaf, auth = ins(E, ('addr', 32), ('leaf', N), ('auth', N * h)); a0 = list(a.o.cells); l0 = list(leaf.o.cells); u0 = list(auth.o.cells)
    root = outp(E, 'root', N)
    i = tm.var('leaf.idx', h); idx = tm.zext(h, 32, i)
    q = tm.var('off.tree', 8)
    off = 0 if h == TH else tm.zext(8 + h, 32, tm.concat_list([(8, q), (h, 0)]))
    E.call(X + 'compute_root', (root, leaf, idx, off, auth, h, c, a))
    E.cases(i, range(1 << h), [(E.rd(root, N), lambda x: climb(seed, a0[:27], l0, x, u0, h, off))], 'compute_root: node reached from the leaf')
    untouched(E, [(leaf, l0), (auth, u0), (a, a0[:27] + a.o.cells[27:])]); E.cover('done')

# trees: the leaf function is whatever function pointer the caller passes
GI = tm.var('gen.idx', 32)
def ND(lvl, j, h, off, fam, seed, a27):
    t = tm.app('ND', 8 * N, (lvl, h, off, j, tuple(fam), tuple(seed), tuple(a27)))
    return [tm.ext(t, 8 * N, 8 * i, 8 * i + 8) for i in range(N)]

def snap(E): return [(o, list(o.cells)) for o in E.objs if o.live and not o.ro and o.cells.__class__ is list]
def diff(s):
    d = {}
    for o, cs in s:
        for i, (x, y) in enumerate(zip(cs, o.cells)):
            if x is not y and not (x.__class__ is int and y.__class__ is int and x == y) and not (x.__class__ is tuple and y.__class__ is tuple and x[0] is y[0]): d[o, i] = y
    return d
def restore(s):
    for o, cs in s: o.cells[:] = cs

def c_treehash(E, root, auth, c, idx, off, h, gl, a, info):
    """runs the real leaf function for an arbitrary leaf (and for the leaf that is signed), from an arbitrary state of the memory leaf functions change"""
    h = conc(E, h, 'tree height'); off = conc(E, off, 'index offset')
    E.require(1 if h in (TH, FH) and off % (1 << h) == 0 and off < 1 << 24 else 0, 'treehashx1: height and offset')
    if gl.__class__ is not FuncPtr: raise Unsupported('leaf function is not known')
    seed = E.rd(c, N); a27 = E.rd(a, 27)
    inside = E.branch(tm.ult(32, idx, 1 << h))
    if not inside: E.require(tm.ule(32, 1 << h, idx), 'treehashx1: leaf index')
    tmp = Ptr(E.obj('leaf', N, 'undef'), 0)
    def run(i, cond):
        n0 = len(E.pc); bind = dict(E.bind)
        for x in cond: E.assume(x)
        s = snap(E)
        E.call(gl, (tmp, c, i, info))
        leaf = E.rd(tmp, N)
        d = diff(s)
        for k in list(d):
            if k[0] is tmp.o: del d[k]
        del E.pc[n0:]; E.bind = bind; E._subst_cache = {}; E._solver = None
        return leaf, d, s
    rng = [tm.ule(32, off, GI), tm.ult(32, GI, off + (1 << h))]
    other = rng + ([tm.ne(32, GI, tm.add(32, idx, off))] if inside else [])
    # memory changed by the leaf function for leaves that are not signed
    _, d, s = run(GI, other); restore(s)
    W = set(d)
    for o, i in W: o.cells[i] = E.fresh('leafstate', 8)
    leaf, d, s = run(GI, other)
    if not set(d) <= W: raise Unsupported('leaf function changes more memory in later calls')
    fam = leaf
    havoc = set(x for o, i in W for x in [s_val(s, o, i)])
    _nodep(E, fam, havoc)
    restore(s)
    if inside:
        leaf, d, s = run(tm.add(32, idx, off), [])
        cache = {}
        same_bytes(E, leaf, [subst(x, {GI: tm.add(32, idx, off)}, cache) for x in fam], 'leaf function: same leaf whether signing or not')
        keep = {k: v for k, v in d.items() if k not in W}
        _nodep(E, list(keep.values()), havoc)
        restore(s)
        for (o, i), v in keep.items(): o.cells[i] = v
    E.log.setdefault('fam', []).append((fam, h, off))
    for o, i in W: o.cells[i] = E.fresh('leafstate', 8)
    if inside:
        for l in range(h):
            j = tm.xor(32, tm.lshr(32, idx, l), 1)
            E.wr(Ptr(auth.o, tm.add(64, auth.off, N * l)), ND(l, j, h, off, fam, seed, a27))
    E.wr(root, ND(h, 0, h, off, fam, seed, a27))
    E.wr(Ptr(a.o, tm.add(64, a.off, 27)), [E.fresh('tree.addr', 8) for _ in range(5)])

def s_val(s, o, i):
    for p, cs in s:
        if p is o: return cs[i]
def _nodep(E, ts, vs):
    st = [t for t in ts if t.__class__ is T]; seen = set()
    from engine import children
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x in vs: raise Violation('leaf function: result does not depend on earlier leaves', E.where(), None)
        st.extend(children(x))

def t_treehash(E, h, inside):
    c, seed, sk = ctx(E); a, info = ins(E, ('addr', 32), ('info', 8)); a0 = list(a.o.cells); i0 = list(info.o.cells)
    auth = Ptr(E.obj('auth', N * h, 'input', 'arg'), 0); u0 = list(auth.o.cells)
    root = outp(E, 'root', N)
    i = tm.var('leaf.idx', h if inside else 32)
    idx = tm.zext(h, 32, i) if inside else i
    if not inside: E.assume(tm.ule(32, 1 << h, i))
    q = tm.var('off.tree', 8)
    off = 0 if h == TH else tm.zext(8 + h, 32, tm.concat_list([(8, q), (h, 0)]))
    calls = []
    def gl(E, dest, cc, ix, inf):
        E.require(1 if cc.__class__ is Ptr and cc.o is c.o and inf.__class__ is Ptr and inf.o is info.o and inf.off == 0 else 0, 'treehashx1: passes context and info on')
        calls.append(ix)
        E.wr(dest, leaf_of(ix))
    def leaf_of(ix):
        t = tm.app('GL', 8 * N, (ix,)); return [tm.ext(t, 8 * N, 8 * k, 8 * k + 8) for k in range(N)]
    E.contracts = dict(E.contracts, gen_leaf_stub=gl)
    E.call(X + 'treehashx1', (root, auth, c, idx, off, h, FuncPtr('gen_leaf_stub'), a, info))
    E.post(1 if len(calls) == 1 << h else 0, 'treehashx1: one call per leaf', str(len(calls)))
    for k, ix in enumerate(calls): E.same(32, ix, tm.add(32, k, off), 'treehashx1: leaves in order', 'leaf %d' % k)
    ns = tree_nodes(seed, a0[:27], [leaf_of(tm.add(32, k, off)) for k in range(1 << h)], h, off)
    same_bytes(E, E.rd(root, N), ns[h][0], 'treehashx1: root')
    if inside:
        got = E.rd(auth, N * h)
        E.cases(i, range(1 << h), [(got, lambda x: sum((ns[l][x >> l ^ 1] for l in range(h)), []))], 'treehashx1: authentication path')
    else: untouched(E, [(auth, u0)])
    untouched(E, [(info, i0), (a, a0[:27] + a.o.cells[27:])]); E.cover('done')

# ---- FORS ----------------------------------------------------------------------------------------
def fors_in(E):
    c, seed, sk = ctx(E)
    a = Ptr(E.obj('fors_addr', 32, 'input', 'arg', ro=True), 0); m = Ptr(E.obj('mhash', FMSG, 'input', 'arg', ro=True), 0)
    return c, seed, sk, a, list(a.o.cells), m, list(m.o.cells)
def fad(a0, ty, b27=0, w=(0, 0, 0, 0)):
    """FORS address: layer and tree fields (first 16 bytes) and key pair taken over"""
    return a0[:16] + [0, 0, 0, ty] + [0, 0, 0, a0[23]] + [0, 0, 0, b27] + list(w)
def fors_leaf_fam(seed, sk, a0, i):
    return F(seed, fad(a0, FORSTREE, 0, be(32, i, 4)), PRF(seed, sk, fad(a0, FORSPRF, 0, be(32, i, 4))))
def c_fors_sign(E, sig, pk, m, c, a):
    mm = E.rd(m, FMSG); ctxb = E.rd(c, 64); ad = E.rd(a, 24)
    key = (tuple(mm), tuple(ctxb), tuple(ad[:16]), ad[23])
    E.wr_app(sig, tm.app('FSIG', 8 * FBYTES, key), FBYTES)
    E.wr_app(pk, tm.app('FPK', 8 * N, key), N)
def c_fors_pk(E, pk, sig, m, c, a):
    s = E.rd(sig, FBYTES); mm = E.rd(m, FMSG); seed = E.rd(c, N); ad = E.rd(a, 24)
    E.wr_app(pk, tm.app('FPKS', 8 * N, (tuple(s), tuple(mm), tuple(seed), tuple(ad[:16]), ad[23])), N)

def t_fors_sign(E):
    c, seed, sk, a, a0, m, m0 = fors_in(E)
    sig = outp(E, 'sig', FBYTES); pk = outp(E, 'pk', N)
    E.call(X + 'fors_sign', (sig, pk, m, c, a))
    ix = fors_idx(m0); roots = []
    for i in range(K):
        g = tm.add(32, ix[i], i << FH)
        p = (FH + 1) * N * i
        same_bytes(E, E.rd(Ptr(sig.o, p), N), PRF(seed, sk, fad(a0, FORSPRF, 0, be(32, g, 4))), 'fors_sign: revealed secret of tree')
        fam = fors_leaf_fam(seed, sk, a0, GI)
        a27 = fad(a0, FORSTREE)[:27]
        for l in range(FH):
            same_bytes(E, E.rd(Ptr(sig.o, p + N + N * l), N), ND(l, tm.xor(32, tm.lshr(32, ix[i], l), 1), FH, i << FH, fam, seed, a27), 'fors_sign: authentication path')
        roots += ND(FH, 0, FH, i << FH, fam, seed, a27)
    same_bytes(E, E.rd(pk, N), SHK(seed + fad(a0, FORSPK) + roots), 'fors_sign: public key')
    E.cover('done')

def t_fors_pk(E):
    c, seed, sk, a, a0, m, m0 = fors_in(E)
    sig = Ptr(E.obj('sig', FBYTES, 'input', 'arg', ro=True), 0); s = list(sig.o.cells); pk = outp(E, 'pk', N)
    E.call(X + 'fors_pk_from_sig', (pk, sig, m, c, a))
    ix = fors_idx(m0); roots = []
    for i in range(K):
        p = (FH + 1) * N * i; g = tm.add(32, ix[i], i << FH)
        leaf = F(seed, fad(a0, FORSTREE, 0, be(32, g, 4)), s[p:p + N])
        t = tm.app('CR', 8 * N, (FH, i << FH, ix[i], tuple(leaf), tuple(s[p + N:p + N + N * FH]), tuple(seed), tuple(fad(a0, FORSTREE)[:27])))
        roots += [tm.ext(t, 8 * N, 8 * k, 8 * k + 8) for k in range(N)]
    same_bytes(E, E.rd(pk, N), SHK(seed + fad(a0, FORSPK) + roots), 'fors_pk_from_sig: public key')
    E.cover('done')

# ---- Merkle --------------------------------------------------------------------------------------
def htree27(layer, tree): return addr(layer, tree, HASHTREE, 0, 0, [0] * 4)[:27]
def c_merkle_sign(E, sig, root, c, wa, ta, idx):
    r = E.rd(root, N); ctxb = E.rd(c, 64); w = E.rd(wa, 16); t = E.rd(ta, 27)
    E.require(tm.ult(32, idx, 1 << TH), 'merkle_sign: leaf index within the tree')
    for i in (0, 1, 2, 4, 5, 6, 7): E.require(tm.eq(8, w[i], 0), 'merkle_sign: unused address bytes are zero')
    for i in range(16): E.require(tm.eq(8, w[i], t[i]), 'merkle_sign: same subtree in both addresses', 'byte %d' % i)
    for i in (16, 17, 18, 20, 21, 22, 23, 24, 25, 26): E.require(tm.eq(8, t[i], 0), 'merkle_sign: other address bytes are zero')
    key = (idx, tuple(r), tuple(ctxb), w[3], tuple(w[8:16]))
    E.wr_app(sig, tm.app('MSIG', 8 * (WBYTES + TH * N), key), WBYTES + TH * N)
    E.wr_app(root, tm.app('MROOT', 8 * N, (tuple(ctxb), w[3], tuple(w[8:16]))), N)
    E.wr(Ptr(ta.o, tm.add(64, ta.off, 19)), [HASHTREE])
    E.wr(Ptr(ta.o, tm.add(64, ta.off, 27)), [E.fresh('ms.addr', 8) for _ in range(5)])
def c_merkle_gen_root(E, root, c):
    ctxb = E.rd(c, 64)
    E.wr_app(root, tm.app('MROOT', 8 * N, (tuple(ctxb), D - 1, (0,) * 8)), N)

def sub_addr(E, nm):
    a, = ins(E, (nm, 32))
    return a
def t_merkle_sign(E):
    c, seed, sk = ctx(E)
    lay = tm.var('layer', 8); tree = [tm.var('tree[%d]' % i, 8) for i in range(8)]
    base = addr(lay, tree, 0, 0, 0, [0] * 4)[:16]
    wa, ta = ins(E, ('wots_addr', 32), ('tree_addr', 32))
    for i in range(16): wa.o.cells[i] = base[i]; ta.o.cells[i] = base[i]
    for i in (16, 17, 18, 20, 21, 22, 23, 24, 25, 26): ta.o.cells[i] = 0
    w0 = list(wa.o.cells); t0 = list(ta.o.cells)
    root, = ins(E, ('root', N)); r0 = list(root.o.cells)
    sig = outp(E, 'sig', WBYTES + TH * N)
    i = tm.var('idx', TH); idx = tm.zext(TH, 32, i)
    E.call(X + 'merkle_sign', (sig, root, c, wa, ta, idx))
    kp = b8(idx)
    ds = digit_terms(r0)
    for k in range(LEN):
        v = tm.var('digit', 4); cache = {}
        got = [subst(g, {ds[k]: v}, cache) for g in E.rd(Ptr(sig.o, N * k), N)]
        x0 = wots_sk(seed, sk, lay, tree, kp, k)
        E.cases(v, range(16), [(got, lambda x: chain(seed, x0, 0, x, wots_a(lay, tree, kp, k)))], 'merkle_sign: WOTS signature value')
    fam = wots_leaf(seed, sk, lay, tree, b8(GI))
    for l in range(TH):
        same_bytes(E, E.rd(Ptr(sig.o, WBYTES + N * l), N), ND(l, tm.xor(32, tm.lshr(32, idx, l), 1), TH, 0, fam, seed, htree27(lay, tree)), 'merkle_sign: authentication path')
    same_bytes(E, E.rd(root, N), ND(TH, 0, TH, 0, fam, seed, htree27(lay, tree)), 'merkle_sign: root')
    same_bytes(E, ta.o.cells[:27], t0[:19] + [HASHTREE] + t0[20:27], 'merkle_sign: tree address kept')
    untouched(E, [(wa, w0)]); E.cover('done')

def t_merkle_root(E):
    c, seed, sk = ctx(E)
    root, = ins(E, ('root', N))
    E.call(X + 'merkle_gen_root', (root, c))
    fam = wots_leaf(seed, sk, D - 1, [0] * 8, b8(GI))
    same_bytes(E, E.rd(root, N), ND(TH, 0, TH, 0, fam, seed, htree27(D - 1, [0] * 8)), 'merkle_gen_root: root of the top tree')
    E.cover('done')

# ---- key generation, signing, verification ---------------------------------------------------------
def MROOT(ctxb, layer, tree):
    t = tm.app('MROOT', 8 * N, (tuple(ctxb), layer, tuple(tree))); return [tm.ext(t, 8 * N, 8 * k, 8 * k + 8) for k in range(N)]
def t_keypair(E):
    seed = Ptr(E.obj('seed', 96, 'input', 'arg', ro=True), 0); s = list(seed.o.cells); pk = outp(E, 'pk', 64); sk = outp(E, 'sk', 128)
    r = E.call(X + 'crypto_sign_seed_keypair', (pk, sk, seed))
    E.same(32, r, 0, 'key generation: returns success')
    root = MROOT(s[64:] + s[:32], D - 1, [0] * 8)
    same_bytes(E, E.rd(pk, 64), s[64:] + root, 'key generation: public key is seed and root')
    same_bytes(E, E.rd(sk, 128), s + root, 'key generation: secret key is seeds and root')
    E.cover('done')

def digest_parts(E, R, pk, m, n):
    return Hparts(shake.bts(R) + shake.bts(pk) + shake.parts(E, m, n), FMSG + 9)
def split_digest(dg):
    tree = tm.from_bytes(list(reversed(dg[FMSG:FMSG + 8])))
    leaf = tm.zext(4, 32, tm.ext(dg[FMSG + 8], 8, 0, 4))
    return dg[:FMSG], tree, leaf
def msg_in(E):
    n = tm.var('mlen', 64); E.assume(tm.ult(64, n, 1 << 62))
    return Ptr(E.obj('m', n, 'input', 'arg', ro=True), 0), n

def c_random(E, buf, n):
    n = conc(E, n, 'random length')
    k = E.log['nrand'] = E.log.get('nrand', 0) + 1
    ok = tm.var('RANDOK%d' % k, 1)
    E._off(buf, n, 'write')
    if E.branch(ok):
        E.wr(buf, [tm.var('RAND%d[%d]' % (k, i), 8) for i in range(n)]); return 0
    E.wr(buf, [E.fresh('partial', 8) for _ in range(n)])
    return (1 << 32) - 1

def t_sign(E):
    sk = Ptr(E.obj('sk', 128, 'input', 'arg', ro=True), 0); s = list(sk.o.cells); m, n = msg_in(E)
    sig = outp(E, 'sig', BYTES); sl = outp(E, 'siglen', 8)
    r = E.retcode(E.call(X + 'crypto_sign_signature', (sig, sl, m, n, sk)))
    if r.__class__ is not int or r != 0:
        E.post(1 if E.branch(tm.var('RANDOK1', 1)) == 0 else 0, 'signing fails only when the random source fails'); E.cover('refused'); return
    E.post(tm.var('RANDOK1', 1) if E.log.get('nrand') == 1 else 0, 'signing uses 32 fresh random bytes')
    opt = [tm.var('RAND1[%d]' % i, 8) for i in range(N)]
    same_bytes(E, E.rd(sl, 8), le64(BYTES), 'signature length')
    R = Hparts(shake.bts(s[32:64] + opt) + shake.parts(E, m, n), N)
    same_bytes(E, E.rd(sig, N), R, 'signing: randomiser')
    mh, tree, leaf = split_digest(digest_parts(E, R, s[64:], m, n))
    ctxb = s[64:96] + s[:32]
    a0 = addr(0, be(64, tree, 8), WOTS, b8(leaf), 0, [0] * 4)
    key = (tuple(mh), tuple(ctxb), tuple(a0[:16]), a0[23])
    t = tm.app('FSIG', 8 * FBYTES, key)
    same_bytes(E, E.rd(Ptr(sig.o, N), FBYTES), [tm.ext(t, 8 * FBYTES, 8 * k, 8 * k + 8) for k in range(FBYTES)], 'signing: FORS signature')
    root = tm.app('FPK', 8 * N, key); root = [tm.ext(root, 8 * N, 8 * k, 8 * k + 8) for k in range(N)]
    p = N + FBYTES; L = WBYTES + TH * N
    for l in range(D):
        tb = be(64, tree, 8)
        t = tm.app('MSIG', 8 * L, (leaf, tuple(root), tuple(ctxb), l, tuple(tb)))
        same_bytes(E, E.rd(Ptr(sig.o, p), L), [tm.ext(t, 8 * L, 8 * k, 8 * k + 8) for k in range(L)], 'signing: layer %d' % l)
        root = MROOT(ctxb, l, tb)
        leaf = tm.zext(TH, 32, tm.ext(tree, 64, 0, TH)); tree = tm.lshr(64, tree, TH)
        p += L
    E.cover('signed')

def le64(v): return list(v.to_bytes(8, 'little'))

def verify_root(seed, R, pk, sig, dg):
    """the root the verifier must reach, over the UFs of the contracts"""
    mh, tree, leaf = split_digest(dg)
    t = tm.app('FPKS', 8 * N, (tuple(sig[N:N + FBYTES]), tuple(mh), tuple(seed), tuple(addr(0, be(64, tree, 8), 0, 0, 0, [0] * 4)[:16]), b8(leaf)))
    ex = lambda t, n: [tm.ext(t, 8 * n, 8 * k, 8 * k + 8) for k in range(n)]
    root = ex(t, N); p = N + FBYTES
    for l in range(D):
        tb = be(64, tree, 8)
        a = addr(l, tb, WOTS, b8(leaf), 0, [0] * 4)
        wpk = ex(tm.app('WPKS', 8 * WBYTES, (tuple(sig[p:p + WBYTES]), tuple(root), tuple(seed), tuple(a[i] for i in WA))), WBYTES)
        lf = SHK(seed + addr(l, tb, WOTSPK, b8(leaf), 0, [0] * 4) + wpk)
        p += WBYTES
        root = ex(tm.app('CR', 8 * N, (TH, 0, leaf, tuple(lf), tuple(sig[p:p + N * TH]), tuple(seed), tuple(htree27(l, tb)))), N)
        p += N * TH
        leaf = tm.zext(TH, 32, tm.ext(tree, 64, 0, TH)); tree = tm.lshr(64, tree, TH)
    return root

def t_verify(E):
    pk = Ptr(E.obj('pk', 64, 'input', 'arg', ro=True), 0); k = list(pk.o.cells); m, n = msg_in(E)
    sl = tm.var('siglen', 64)
    if E.branch(tm.ne(64, sl, BYTES)):
        # nothing may be assumed about how many bytes the caller supplied
        sig = Ptr(E.obj('sig', 0, 'undef', 'arg', ro=True), 0)
        r = E.retcode(E.call(X + 'crypto_sign_verify', (sig, sl, m, n, pk)))
        E.post(1 if r.__class__ is T or r != 0 else 0, 'verification: wrong length refused'); E.cover('length'); return
    sig = Ptr(E.obj('sig', BYTES, 'input', 'arg', ro=True), 0); s = list(sig.o.cells)
    r = E.retcode(E.call(X + 'crypto_sign_verify', (sig, sl, m, n, pk)))
    root = verify_root(k[:32], s[:N], k, s, digest_parts(E, s[:N], k, m, n))
    eqs = 1
    for a, b in zip(root, k[32:]): eqs = tm.and_(1, eqs, tm.eq(8, a, b))
    if r.__class__ is int and r == 0: E.post(eqs, 'verification: accepts only when all 32 bytes of the root agree'); E.cover('accept')
    else: E.post(tm.not_(1, eqs), 'verification: refuses only when the root differs'); E.cover('reject')

# ---- lemmas over the specification -----------------------------------------------------------------
def t_lemma_chain(E):
    """what the signer publishes for digit d, the verifier's chain completes to the chain end the leaf is made of"""
    seed = [tm.var('s[%d]' % i, 8) for i in range(N)]; x = [tm.var('x[%d]' % i, 8) for i in range(N)]
    a = wots_a(tm.var('layer', 8), [tm.var('t[%d]' % i, 8) for i in range(8)], tm.var('kp', 8), tm.var('chain', 8))
    full = chain(seed, x, 0, 15, a)
    for d in range(16): same_bytes(E, chain(seed, chain(seed, x, 0, d, a), d, 15, a), full, 'lemma: chain completed by the verifier')
    E.cover('done')
def t_lemma_tree(E, h):
    """climbing from any leaf along the tree's own authentication path reaches the tree's root"""
    seed = [tm.var('s[%d]' % i, 8) for i in range(N)]; a27 = [tm.var('a[%d]' % i, 8) for i in range(27)]
    off = tm.var('off', 32)
    lv = []
    for k in range(1 << h):
        t = tm.app('GL', 8 * N, (k,)); lv.append([tm.ext(t, 8 * N, 8 * i, 8 * i + 8) for i in range(N)])
    ns = tree_nodes(seed, a27, lv, h, off)
    for x in range(1 << h):
        auth = sum((ns[l][x >> l ^ 1] for l in range(h)), [])
        same_bytes(E, climb(seed, a27, lv[x], x, auth, h, off), ns[h][0], 'lemma: authentication path leads to the root')
    E.cover('done')
def t_lemma_top(E):
    """the top layer's tree number is 0 whatever the digest, so its root is the one key generation publishes; digits are below 16 and the checksum fits three digits"""
    t = tm.var('tree', 64); x = t
    for _ in range(D - 1): x = tm.lshr(64, x, TH)
    E.same(64, x, 0, 'lemma: top layer has a single tree')
    E.post(1 if 64 * 15 < 16 ** 3 else 0, 'lemma: checksum fits')
    E.cover('done')

def tasks(thorough=False):
    ch = {**SH}
    S = dict(engine_cls=SpxEngine, budget=400)
    up = {**SH, X + 'chain_lengths': c_chain_lengths}
    top = {**SH, X + 'fors_sign': c_fors_sign, X + 'fors_pk_from_sig': c_fors_pk, X + 'merkle_sign': c_merkle_sign, X + 'merkle_gen_root': c_merkle_gen_root,
           X + 'compute_root': c_compute_root, X + 'wots_pk_from_sig': c_wots_pk, 'randombytes': c_random}
    ts = [Task('chain_lengths', X + 'chain_lengths', t_chain_lengths, ch, need_cover=('done',), **S),
          Task('prf_addr', X + 'prf_addr', t_prf, ch, need_cover=('done',), **S)]
    for k, al in ((1, None), (1, 0), (2, None), (2, 0), (2, 32), (K, None), (LEN, None)):
        ts.append(Task('thash[%d%s]' % (k, '' if al is None else ', in place at %d' % al), X + 'thash', t_thash, ch, args=(k, al), need_cover=('done',), **S))
    ts += [Task('wots_pk_from_sig', X + 'wots_pk_from_sig', t_wots_pk, up, need_cover=('done',), weight=8, **S)]
    for h in (TH, FH):
        ts.append(Task('compute_root[%d]' % h, X + 'compute_root', t_compute_root, ch, args=(h,), need_cover=('done',), weight=h, **S))
        ts.append(Task('treehashx1[%d]' % h, X + 'treehashx1', t_treehash, ch, args=(h, True), need_cover=('done',), weight=h, **S))
        ts.append(Task('lemma tree[%d]' % h, X + 'compute_root', t_lemma_tree, ch, args=(h,), need_cover=('done',), weight=h, **S))
    ts.append(Task('treehashx1[%d, no path]' % TH, X + 'treehashx1', t_treehash, ch, args=(TH, False), need_cover=('done',), **S))
    tr = {**up, X + 'treehashx1': c_treehash, X + 'compute_root': c_compute_root}
    ts += [Task('fors_sign', X + 'fors_sign', t_fors_sign, tr, need_cover=('done',), weight=8, **S),
           Task('fors_pk_from_sig', X + 'fors_pk_from_sig', t_fors_pk, tr, need_cover=('done',), weight=5, **S),
           Task('merkle_sign', X + 'merkle_sign', t_merkle_sign, tr, need_cover=('done',), weight=9, **S),
           Task('merkle_gen_root', X + 'merkle_gen_root', t_merkle_root, tr, need_cover=('done',), weight=9, **S),
           Task('crypto_sign_seed_keypair', X + 'crypto_sign_seed_keypair', t_keypair, top, need_cover=('done',), **S),
           Task('crypto_sign_signature', X + 'crypto_sign_signature', t_sign, top, need_cover=('signed', 'refused'), weight=7, **S),
           Task('crypto_sign_verify', X + 'crypto_sign_verify', t_verify, top, need_cover=('accept', 'reject', 'length'), weight=7, **S),
           Task('lemma chain', X + 'wots_pk_from_sig', t_lemma_chain, ch, need_cover=('done',), **S),
           Task('lemma top tree', X + 'crypto_sign_verify', t_lemma_top, ch, need_cover=('done',), **S)]
    return ts
