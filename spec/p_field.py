"""C19, upper layer: field and group functions of tweetnacl.c over ghost field elements.

A field element is 16 limbs.  Products, inverses and powers enter through their contracts: the result is 16 fresh limbs with a known bound and a ghost value, a
polynomial over named elements of GF(2^255-19).  Additions, subtractions, copies and conditional swaps run from their bodies on the limbs; a vector of limbs is
understood as a field element when it is the same linear combination (coefficients may be 0/1-valued polynomials of scalar bits) of known vectors in every limb."""
import term as tm
from engine import *
import ints
from ints import IV, IntEngine, k, add, mul, scale
from p_c25519 import PR, LIM, OUT, LORD, limbs, gf, get
from run import Task

PACKLIM = 1 << 20
d_ED = (-121665 * pow(121666, PR - 2, PR)) % PR
BY = 4 * pow(5, PR - 2, PR) % PR
def _bx():
    u, v = (BY * BY - 1) % PR, (d_ED * BY * BY + 1) % PR
    x = u * pow(v, 3, PR) * pow(u * pow(v, 7, PR), (PR - 5) // 8, PR) % PR
    if (v * x * x - u) % PR: x = x * pow(2, (PR - 1) // 4, PR) % PR
    return x if x % 2 == 0 else PR - x
BX = _bx()
SQRTM1 = pow(2, (PR - 1) // 4, PR)

# ---- polynomials over GF(p): {monomial: coefficient}, a monomial is a sorted tuple of (variable, exponent) ----
def pc(c): c %= PR; return {(): c} if c else {}
def pv(v): return {((v, 1),): 1}
def padd(a, b, m=1):
    d = dict(a)
    for x, c in b.items():
        v = (d.get(x, 0) + m * c) % PR
        if v: d[x] = v
        else: d.pop(x, None)
    return d
def _mm(x, y):
    e = dict(x)
    for v, n in y:
        e[v] = 1 if v[0] == 'b' and v[1:].isdigit() else e.get(v, 0) + n       # scalar bits are idempotent
    return tuple(sorted(e.items()))
def pmul(a, b):
    d = {}
    for x, c in a.items():
        for y, e in b.items():
            m = _mm(x, y); v = (d.get(m, 0) + c * e) % PR
            if v: d[m] = v
            else: d.pop(m, None)
    return d
def ppow(a, n):
    r = pc(1)
    for _ in range(n): r = pmul(r, a)
    return r
def pkey(a): return frozenset(a.items())

class MaskV:
    """-b & x for a scalar bit b"""
    __slots__ = ('b', 's')
    def __init__(self, b, s): self.b = b; self.s = frozenset(s)
def bmul(b, x):
    """b * x with b*b = b"""
    return IV({(m if b in m else tuple(sorted(m + (b,)))): c for m, c in x.d.items()})

class FieldEngine(IntEngine):
    def reset_path(self, d):
        IntEngine.reset_path(self, d)
        self.grp = {}; self.val = []; self.bits = {}; self.pts = {}; self.names = {}; self.product = None
    def bit(self, name):
        a = self.atom(name, 0, 1); self.bits[next(iter(a.d))[0]] = name
        return a
    def group(self, val, lo=-OUT, hi=OUT, name='v'):
        g = len(self.val); self.val.append(val); out = []
        for i in range(16):
            a = self.atom('%s%d[%d]' % (name, g, i), lo, hi); self.grp[next(iter(a.d))[0]] = (g, i); out.append(a)
        return out
    def interval(self, x):
        bs = sorted({a for m in x.d for a in m if a in self.bits and len(m) > 1})
        if not bs or len(bs) > 4: return IntEngine.interval(self, x)
        lo = hi = None
        for v in range(1 << len(bs)):
            on = {b for i, b in enumerate(bs) if v >> i & 1}; d = {}
            for m, c in x.d.items():
                if all(a in on or a not in bs for a in m):
                    r = tuple(a for a in m if a not in bs); e = d.get(r, 0) + c
                    if e: d[r] = e
                    else: d.pop(r, None)
            l, h = IntEngine.interval(self, IV(d))
            lo = l if lo is None else min(lo, l); hi = h if hi is None else max(hi, h)
        return lo, hi
    def newvar(self, kind, key):
        n = self.names.get((kind, key))
        if n is None: n = self.names[kind, key] = '%s%d' % (kind, len(self.names))
        return n
    def decomp(self, ls):
        """[({(bits, group): c}, {bits: const_i})] checked to be uniform over the limbs"""
        first = None; const = {}
        for i, l in enumerate(ls):
            l = self.iv(64, l); d = {}
            for m, c in l.d.items():
                bs = tuple(sorted(a for a in m if a in self.bits)); rest = [a for a in m if a not in self.bits]
                if not rest: const[bs] = const.get(bs, 0) + (c << (16 * i)); continue
                if len(rest) != 1 or rest[0] not in self.grp or self.grp[rest[0]][1] != i: raise Unsupported('limbs are not a combination of field elements in %s' % self.where())
                d[bs, self.grp[rest[0]][0]] = c
            if first is None: first = d
            elif first != d: raise Unsupported('limbs are not a uniform combination of field elements in %s' % self.where())
        return first, const
    def fval(self, p, bound, what):
        ls = get(self, p)
        for i, l in enumerate(ls):
            lo, hi = self.interval(l)
            self.require(1 if -bound <= lo and hi <= bound else 0, '%s: limbs within the range for which it is proved exact' % what, 'limb %d in [%d,%d]' % (i, lo, hi))
        gs, cs = self.decomp(ls)
        r = {}
        for (bs, g), c in gs.items():
            t = {tuple((self.bits[b], 1) for b in sorted(bs, key=lambda b: self.bits[b])): c % PR} if bs else pc(c)
            r = padd(r, pmul(t, self.val[g]))
        for bs, c in cs.items():
            r = padd(r, {tuple(sorted((self.bits[b], 1) for b in bs)): c % PR} if c % PR else {})
        return r
    def put(self, p, ls):
        for i, l in enumerate(ls): self.store(Ptr(p.o, p.off + 8 * i), 8, l)

def c_M(E, o, a, b):
    x = E.fval(a, LIM, 'M'); y = E.fval(b, LIM, 'M')
    v = E.product(x, y) if E.product else pmul(x, y)
    E.put(o, E.group(v))
def c_inv(E, o, a):
    x = E.fval(a, LIM, 'inv25519')
    E.put(o, E.group(pv(E.newvar('inv', pkey(x)))))
def c_pow(E, o, a):
    x = E.fval(a, LIM, 'pow2523')
    E.put(o, E.group(pv(E.newvar('pow', pkey(x)))))
def enc(x):
    """bytes of the canonical encoding: an uninterpreted 255-bit function of the field element"""
    t = tm.app('ENC', 255, (pkey(x),))
    return [tm.ext(t, 255, 8 * i, 8 * i + 8) for i in range(31)] + [tm.zext(7, 8, tm.ext(t, 255, 248, 255))]
def c_pack25519(E, o, n):
    E.wr(o, enc(E.fval(n, PACKLIM, 'pack25519')))
def c_unpack25519(E, o, n):
    bs = E.rd(n, 32)
    E.put(o, E.group(pv(E.newvar('dec', tuple(bs))), 0, 65535))

CM = {'M': c_M}
CF = {'M': c_M, 'inv25519': c_inv, 'pow2523': c_pow, 'pack25519': c_pack25519, 'unpack25519': c_unpack25519}

def point(E, vals, name, lo=-OUT, hi=OUT):
    o = E.obj(name, 512, 'undef', 'arg')
    for i in range(4): E.put(Ptr(o, 128 * i), E.group(vals[i], lo, hi))
    return o
def same(E, a, b, label): E.post(1 if a == b else 0, label, '%d terms differ' % len(padd(a, b, -1)))

def t_power(E, fn, e, alias):
    o = E.obj('o', 128, 'undef', 'arg'); i = o if alias else E.obj('i', 128, 'undef', 'arg')
    E.put(Ptr(i, 0), E.group(pv('x'), -LIM, LIM)); i.ro = not alias
    E.run(fn, (Ptr(o, 0), Ptr(i, 0)))
    same(E, E.fval(Ptr(o, 0), OUT, fn), {(('x', e),): 1}, '%s: power %s of the argument' % (fn, 'p-2 (inverse)' if fn == 'inv25519' else '2^252-3'))
    E.cover('done')

def ext(x, y, z): return [pmul(pv(x), pv(z)), pmul(pv(y), pv(z)), pv(z), pmul(pmul(pv(x), pv(y)), pv(z))]
def t_add(E, dbl):
    p = point(E, ext('x1', 'y1', 'z1'), 'p')
    q = p if dbl else point(E, ext('x2', 'y2', 'z2'), 'q')
    q.ro = not dbl
    E.run('add', (Ptr(p, 0), Ptr(q, 0)))
    X, Y, Z, T = [E.fval(Ptr(p, 128 * i), OUT, 'add') for i in range(4)]
    x1, y1 = pv('x1'), pv('y1'); x2, y2 = (x1, y1) if dbl else (pv('x2'), pv('y2'))
    m = pmul(pmul(pmul(x1, x2), pmul(y1, y2)), pc(d_ED))
    same(E, pmul(X, padd(pc(1), m)), pmul(Z, padd(pmul(x1, y2), pmul(x2, y1))), 'add: x3 (1 + d x1 x2 y1 y2) = x1 y2 + x2 y1')
    same(E, pmul(Y, padd(pc(1), m, -1)), pmul(Z, padd(pmul(y1, y2), pmul(x1, x2))), 'add: y3 (1 - d x1 x2 y1 y2) = y1 y2 + x1 x2')
    same(E, pmul(X, Y), pmul(Z, T), 'add: T = X Y / Z')
    zz = pmul(ppow(pv('z1'), 2), ppow(pv('z1' if dbl else 'z2'), 2))
    w = pmul(zz, padd(pc(1), pmul(m, m), -1))
    c = next(iter(Z.values())) * pow(next(iter(w.values())), PR - 2, PR) % PR if Z and w else 0
    mono = next(iter(w)); c = Z.get(mono, 0) * pow(w[mono], PR - 2, PR) % PR
    E.post(1 if c and Z == pmul(pc(c), w) else 0, 'add: Z is a nonzero multiple of z1^2 z2^2 (1 - (d x1 x2 y1 y2)^2), which is never zero')
    E.cover('done')

# ---- scalar multiplication: points as multiples of Q, multiples as polynomials of the scalar bits ----
def sel_at(sel, asg):
    return sum(c for bs, c in sel.items() if all(asg[b] for b in bs))
def ptval(E, p):
    """({group: selector}) of a quadruple of field elements that is a selection between known points"""
    sel = {}; const = []; 
    for i in range(4):
        gs, cs = E.decomp(get(E, Ptr(p.o, p.off + 128 * i)))
        d = {}
        for (bs, g), c in gs.items():
            if g not in E.pts or E.pts[g][1] != i: raise Unsupported('coordinates of different points mixed in %s' % E.where())
            d.setdefault(E.pts[g][0], {})[bs] = c
        if i == 0: sel = d
        elif sel != d: raise Unsupported('coordinates of different points mixed in %s' % E.where())
        const.append({b: c for b, c in cs.items() if c})
    if const[0] or const[3] or const[1] != const[2]: raise Unsupported('unknown constant point in %s' % E.where())
    if const[1]: sel['O'] = const[1]
    bits = sorted({b for s in sel.values() for bs in s for b in bs})
    if len(bits) > 4: raise Unsupported('selection over many bits')
    for v in range(1 << len(bits)):
        asg = {b: v >> i & 1 for i, b in enumerate(bits)}
        if sorted(sel_at(s, asg) for s in sel.values()) != [0] * (len(sel) - 1) + [1]: raise Unsupported('not a selection of one point in %s' % E.where())
    n = {}
    for g, s in sel.items():
        for bs, c in s.items():
            for m, e in E.mult.get(g, {}).items():
                key = tuple(sorted(set(bs) | set(m))); v = n.get(key, 0) + c * e
                if v: n[key] = v
                else: n.pop(key, None)
    return n
def newpt(E, p, n):
    P = len(E.mult); E.mult[P] = n
    for i in range(4):
        ls = E.group({}, -OUT, OUT); g = len(E.val) - 1; E.pts[g] = (P, i); E.put(Ptr(p.o, p.off + 128 * i), ls)
def c_add(E, p, q):
    a, b = ptval(E, p), ptval(E, q)
    for x in (p, q):
        for i in range(64):
            l, h = E.interval(E.iv(64, E.load(Ptr(x.o, x.off + 8 * i), 8)))
            E.require(1 if -OUT <= l and h <= OUT else 0, 'add: limbs within the range for which it is proved exact', '[%d,%d]' % (l, h))
    n = dict(a)
    for m, c in b.items():
        v = n.get(m, 0) + c
        if v: n[m] = v
        else: n.pop(m, None)
    newpt(E, p, n)
def t_scalarmult(E):
    E.mult = {'O': {}}
    p = E.obj('p', 512, 'undef', 'arg'); q = E.obj('q', 512, 'undef', 'arg')
    newpt(E, Ptr(q, 0), {(): 1})
    bits = [E.bit('b%d' % i) for i in range(256)]
    bs = []
    for i in range(32):
        x = k(0)
        for j in range(8): x = add(x, bits[8 * i + j], 1 << j)
        bs.append(x)
    s = E.obj('s', 32, bs, 'arg', True)
    E.run('scalarmult', (Ptr(p, 0), Ptr(q, 0), Ptr(s, 0)))
    n = ptval(E, Ptr(p, 0))
    want = {(next(iter(b.d))[0],): 1 << i for i, b in enumerate(bits)}
    E.post(1 if n == want else 0, 'scalarmult: the result is the scalar multiple of the point, for every 256-bit scalar', str([x for x in n.items() if want.get(x[0]) != x[1]][:3]))
    E.cover('done')

def t_scalarbase(E):
    calls = []
    def c_sm(E, p, q, s):
        calls.append((p.o, p.off, [E.fval(Ptr(q.o, q.off + 128 * i), OUT, 'scalarmult') for i in range(4)], s.o, s.off))
        for i in range(4): E.put(Ptr(p.o, p.off + 128 * i), E.group(pv('r%d' % i)))
    E.contracts = dict(E.contracts, scalarmult=c_sm)
    p = E.obj('p', 512, 'undef', 'arg'); s = E.obj('s', 32, 'undef', 'arg', True)
    E.run('scalarbase', (Ptr(p, 0), Ptr(s, 0)))
    ok = len(calls) == 1 and calls[0][0] is p and calls[0][1] == 0 and calls[0][3] is s and calls[0][4] == 0
    E.post(1 if ok else 0, 'scalarbase: multiplies the base point by the scalar')
    v = calls[0][2]
    E.post(1 if v == [pc(BX), pc(BY), pc(1), pc(BX * BY)] else 0, 'scalarbase: the base point of Ed25519')
    for i in range(4): same(E, E.fval(Ptr(p, 128 * i), OUT, 'scalarbase'), pv('r%d' % i), 'scalarbase: result')
    E.cover('done')

def t_pack(E):
    p = point(E, [pv(c) for c in 'XYZT'], 'p'); r = E.obj('r', 32, 'undef', 'arg')
    E.run('pack', (Ptr(r, 0), Ptr(p, 0)))
    zi = pv(E.newvar('inv', pkey(pv('Z'))))
    y, x = enc(pmul(pv('Y'), zi)), enc(pmul(pv('X'), zi))
    y[31] = tm.or_(8, y[31], tm.shl(8, tm.and_(8, x[0], 1), 7))
    for i in range(32): E.same(8, E.load(Ptr(r, i), 1), y[i], 'pack: canonical y with the parity of x in the top bit', 'byte %d' % i)
    E.cover('done')

def t_unpackneg(E):
    pb = [tm.var('p[%d]' % i, 8) for i in range(32)]
    r = E.obj('r', 512, 'undef', 'arg'); p = E.obj('p', 32, pb, 'arg', True)
    ret = E.run('unpackneg', (Ptr(r, 0), Ptr(p, 0)))
    y = pv(E.newvar('dec', tuple(pb)))
    u = padd(pmul(y, y), pc(1), -1); v = padd(pmul(pmul(y, y), pc(d_ED)), pc(1))
    w = pv(E.newvar('pow', pkey(pmul(u, ppow(v, 7)))))
    x = pmul(pmul(u, ppow(v, 3)), w)
    def eqf(a, b):
        c = 1
        for s, t in zip(enc(a), enc(b)): c = tm.and_(1, c, tm.eq(8, s, t))
        return c
    if not E.branch(eqf(pmul(v, pmul(x, x)), u)): x = pmul(x, pc(SQRTM1))
    ok = E.branch(eqf(pmul(v, pmul(x, x)), u))
    if not ok:
        E.post(tm.not_(1, tm.eq(32, ret, 0)) if ret.__class__ is not int else int(ret != 0), 'unpackneg: refuses what is not the y coordinate of a point'); E.cover('refused'); return
    E.post(tm.eq(32, ret, 0) if ret.__class__ is not int else int(ret == 0), 'unpackneg: accepts every y coordinate of a point')
    if E.branch(tm.eq(8, tm.and_(8, enc(x)[0], 1), tm.ext(tm.zext(8, 16, pb[31]), 16, 7, 15))): x = padd({}, x, -1)
    R = [E.fval(Ptr(r, 128 * i), OUT, 'unpackneg') for i in range(4)]
    for a, b, n in zip(R, [x, y, pc(1), pmul(x, y)], 'xyzt'): same(E, a, b, 'unpackneg: the negated point (coordinate %s)' % n)
    E.cover('decoded')

# ---- X25519: the Montgomery ladder of RFC 7748 over uninterpreted products ----
def monic(x):
    m = min(x); c = x[m]; i = pow(c, PR - 2, PR)
    return c, frozenset((a, e * i % PR) for a, e in x.items())
def o_product(E, x, y):
    if not x or not y: return {}
    for a, b in ((x, y), (y, x)):
        if len(a) == 1 and () in a: return pmul(a, b)
    (c, a), (d, b) = monic(x), monic(y)
    return pmul(pc(c * d), pv(E.newvar('m', frozenset([(a, b), (b, a)]))))
def t_x25519(E, fn):
    E.product = lambda x, y: o_product(E, x, y)
    def byts(name, bitnames):
        out = []
        for i in range(32):
            x = k(0)
            for j in range(8): x = add(x, E.bit('b%d' % (8 * i + j)), 1 << j)
            out.append(x)
        return out
    n = E.obj('n', 32, byts('n', True), 'arg', True)
    q = E.obj('q', 32, 'undef', 'arg')
    if fn == 'crypto_scalarmult_curve25519_tweet':
        pb = [tm.var('p[%d]' % i, 8) for i in range(32)]
        r = E.run(fn, (Ptr(q, 0), Ptr(n, 0), Ptr(E.obj('p', 32, pb, 'arg', True), 0)))
    else:
        pb = [9] + [0] * 31
        r = E.run(fn, (Ptr(q, 0), Ptr(n, 0)))
    E.same(32, r, 0, 'X25519: return value')
    u = pv(E.newvar('dec', tuple(pb)))
    mulo = lambda x, y: o_product(E, x, y)
    z = [pv('b%d' % i) for i in range(256)]
    z[0] = z[1] = z[2] = z[255] = pc(0); z[254] = pc(1)
    x2, z2, x3, z3 = pc(1), pc(0), u, pc(1)
    def sw(b, x, y): d = pmul(b, padd(y, x, -1)); return padd(x, d), padd(y, d, -1)
    for t in range(254, -1, -1):
        x2, x3 = sw(z[t], x2, x3); z2, z3 = sw(z[t], z2, z3)
        A_, B_ = padd(x2, z2), padd(x2, z2, -1); AA, BB = mulo(A_, A_), mulo(B_, B_); e = padd(AA, BB, -1)
        C_, D_ = padd(x3, z3), padd(x3, z3, -1); DA, CB = mulo(D_, A_), mulo(C_, B_)
        s, m = padd(DA, CB), padd(DA, CB, -1)
        x3 = mulo(s, s); z3 = mulo(u, mulo(m, m)); x2 = mulo(AA, BB); z2 = mulo(e, padd(AA, pmul(pc(121665), e)))
        x2, x3 = sw(z[t], x2, x3); z2, z3 = sw(z[t], z2, z3)
    want = enc(mulo(x2, pv(E.newvar('inv', pkey(z2)))))
    for i in range(32): E.same(8, E.load(Ptr(q, i), 1), want[i], 'X25519: the ladder of RFC 7748 with the clamped scalar', 'byte %d' % i)
    E.cover('done')

def tasks():
    kw = dict(engine_cls=FieldEngine)
    ts = []
    for fn, e in (('inv25519', PR - 2), ('pow2523', 2 ** 252 - 3)):
        ts += [Task('%s[%s]' % (fn, 'in place' if a else 'apart'), fn, t_power, args=(fn, e, a), contracts=CM, need_cover=('done',), **kw) for a in (0, 1)]
    ts += [Task('add[%s]' % ('double' if d else 'sum'), 'add', t_add, args=(d,), contracts=CM, need_cover=('done',), **kw) for d in (0, 1)]
    ts.append(Task('scalarmult', 'scalarmult', t_scalarmult, contracts={'add': c_add}, need_cover=('done',), weight=1, **kw))
    ts.append(Task('scalarbase', 'scalarbase', t_scalarbase, contracts=CM, need_cover=('done',), **kw))
    ts.append(Task('pack', 'pack', t_pack, contracts=CF, need_cover=('done',), **kw))
    ts.append(Task('unpackneg', 'unpackneg', t_unpackneg, contracts=CF, need_cover=('refused', 'decoded'), **kw))
    ts += [Task('X25519[%s]' % n, f, t_x25519, args=(f,), contracts=CF, need_cover=('done',), weight=1, **kw) for n, f in (('point', 'crypto_scalarmult_curve25519_tweet'), ('base', 'crypto_scalarmult_curve25519_tweet_base'))]
    return ts

# masks with scalar bits
def _and(w, a, b):
    E = ints.CUR
    if E.__class__ is FieldEngine and E.bits:
        for x, y in ((a, b), (b, a)):
            if x.__class__ is IV and y.__class__ in (IV, ints.XorV):
                z = E.sub(x)
                if len(z.d) == 1:
                    (m, c), = z.d.items()
                    if c == -1 and len(m) == 1 and m[0] in E.bits: return MaskV(m[0], y.s if y.__class__ is ints.XorV else [y])
    if a.__class__ is MaskV or b.__class__ is MaskV: raise Unsupported('and of a masked value')
    return ints._and(w, a, b)
def _xor(w, a, b):
    if a.__class__ is MaskV: a, b = b, a
    if b.__class__ is MaskV:
        E = ints.CUR
        if a.__class__ is MaskV: raise Unsupported('xor of masked values')
        a = E.iv(w, a)
        if a in b.s and len(b.s) == 2: o = next(x for x in b.s if x != a); return add(a, bmul(b.b, add(o, a, -1)))
        if len(b.s) == 1 and not a.d: return bmul(b.b, next(iter(b.s)))
        if len(b.s) == 1 and b.s == {a}: return add(a, bmul(b.b, a), -1)
        raise Unsupported('xor of a masked value in %s' % E.where())
    return ints._xor(w, a, b)
def _or(w, a, b):
    E = ints.CUR
    if E.__class__ is FieldEngine and E.bits:
        for x, y in ((a, b), (b, a)):
            if x.__class__ is IV and y.__class__ is int:
                # set bits of a sum of distinct powers of two times scalar bits
                x = E.sub(x); pos = {}
                for m, c in x.d.items():
                    if not ((len(m) == 0 or (len(m) == 1 and m[0] in E.bits)) and c > 0 and (m == () or c & (c - 1) == 0)): break
                    pos[m] = c
                else:
                    used = [c for m, c in pos.items() if m]; c0 = pos.get((), 0)
                    if len(set(used)) == len(used) and not any(c & c0 for c in used):
                        return add(IV({m: c for m, c in pos.items() if m and not c & y}), k(c0 | y))
    return ints._or(w, a, b)
FieldEngine.opns = dict(IntEngine.opns, and_=_and, xor=_xor, or_=_or)
_st = FieldEngine.store
def store(self, p, n, v):
    if v.__class__ is MaskV: return Engine.wr(self, p, [(v, i, n) for i in range(n)])
    return _st(self, p, n, v)
FieldEngine.store = store
