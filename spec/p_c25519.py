"""C19: Curve25519 / Ed25519 arithmetic of tweetnacl.c over exact integers."""
import time
import term as tm
from engine import *
import ints
from ints import IV, IntEngine, k, add, mul, scale
from run import Task

PR = 2 ** 255 - 19
LIM = 1 << 26          # limbs accepted by multiplication
OUT = 1 << 17          # limbs produced by it

def limbs(E, name, lo, hi):
    return [E.atom('%s[%d]' % (name, i), lo, hi) for i in range(16)]
def gf(E, name, ls, ro=False):
    o = E.obj(name, 128, 'undef', 'arg')
    for i, l in enumerate(ls): E.store(Ptr(o, 8 * i), 8, l)
    o.ro = ro
    return o
def get(E, p):
    return [E.iv(64, E.load(Ptr(p.o, p.off + 8 * i), 8)) for i in range(16)]
def value(ls, base=16):
    v = k(0)
    for i, l in enumerate(ls): v = add(v, l, 1 << (base * i))
    return v
def modp(x, m=PR): return {a: c % m for a, c in x.d.items() if c % m}

def agree(E, v, want, m, label):
    """v = want (mod m); undetermined carries with few values are split into cases"""
    E.unfold = 2; E.real_only = True
    for _ in range(6):
        d = modp(E.expand(add(v, want, -1)), m)
        if not d: break
        c = [a[0] for a in d if len(a) == 1 and a[0] in E.fl]
        if not c: break
        for a in c:
            x = IV({(a,): 1})
            if E.rng[a][1] - E.rng[a][0] <= 3: continue
            for b in ((-1, 1), (None, 0), (0, None), (1, None), (None, -1)):
                if E.tighten(x, *b): l, h = E.interval(x); E.rng[a] = (l, h)
                elif b == (-1, 1): break
        c = [a for a in c if E.rng[a][1] - E.rng[a][0] <= 3]
        if not c: break
        for a in c:
            if E.rng[a][0] == E.rng[a][1]: E.env[a] = E.rng[a][0]
        c = [a for a in c if a not in E.env]
        if c: a = min(c); E.split(IV({(a,): 1}), *E.rng[a])
    E.post(1 if not d else 0, label, 'difference %s' % str([(' '.join(E.nm[x] for x in a), E.rng[a[0]] if a else 0, c) for a, c in list(d.items())[:4]]))

def check_range(E, ls, lo, hi, label):
    for i, l in enumerate(ls): E.post(1 if E.tighten(l, lo, hi) else 0, label, 'limb %d in [%d,%d]' % ((i,) + E.interval(l)))

def t_M(E, alias):
    a = limbs(E, 'a', -LIM, LIM); b = a if alias in ('aa', 'oaa') else limbs(E, 'b', -LIM, LIM)
    A = gf(E, 'a', a); B = A if alias in ('aa', 'oaa') else gf(E, 'b', b)
    O = {'': None, 'aa': None, 'oa': A, 'ob': B, 'oaa': A}[alias] or gf(E, 'o', [0] * 16)
    if O is not A: A.ro = True
    if O is not B: B.ro = True
    E.use_lia = False
    E.run('M', (Ptr(O, 0), Ptr(A, 0), Ptr(B, 0)))
    o = get(E, Ptr(O, 0))
    want = modp(mul(value(a), value(b)))
    E.post(1 if modp(E.expand(value(o))) == want else 0, 'M: result is the product modulo 2^255-19')
    check_range(E, o, -OUT, OUT, 'M: limbs of the result stay small')
    E.cover('done')

def t_pack(E, b):
    n = limbs(E, 'n', -b, b)
    N = gf(E, 'n', n, True); O = E.obj('o', 32, 'undef', 'arg')
    E.unfold = 1
    E.run('pack25519', (Ptr(O, 0), Ptr(N, 0)))
    bs = [E.uns(8, E.iv(8, E.load(Ptr(O, i), 1))) for i in range(32)]
    v = E.sub(value(bs, 8))
    agree(E, v, value(n), PR, 'pack25519: encodes the same element modulo 2^255-19')
    v = E.sub(v)
    E.unfold = 2; E.real_only = False
    E.post(1 if E.tighten(v, 0, PR - 1) else 0, 'pack25519: the encoding is the canonical one (below 2^255-19)', str(E.interval(v)))
    E.cover('done')

def t_unpack(E):
    bs = [E.atom('n[%d]' % i, 0, 255) for i in range(32)]
    N = E.obj('n', 32, bs, 'arg', True); O = gf(E, 'o', [0] * 16)
    E.run('unpack25519', (Ptr(O, 0), Ptr(N, 0)))
    o = get(E, Ptr(O, 0))
    want = value(bs, 8); top = E.floor(bs[31], 7)
    want = add(want, top, -(1 << 255))
    E.post(1 if E.expand(value(o)) == E.expand(want) else 0, 'unpack25519: the 255-bit little-endian integer (top bit ignored)')
    check_range(E, o, 0, 65535, 'unpack25519: limbs')
    E.cover('done')

def t_sel(E, b):
    p, q = limbs(E, 'p', -LIM, LIM), limbs(E, 'q', -LIM, LIM)
    P, Q = gf(E, 'p', p), gf(E, 'q', q)
    E.run('sel25519', (Ptr(P, 0), Ptr(Q, 0), b))
    E.post(1 if get(E, Ptr(P, 0)) == (q if b else p) and get(E, Ptr(Q, 0)) == (p if b else q) else 0, 'sel25519: exchanges the elements exactly when the bit is 1')
    E.cover('done')

LORD = 2 ** 252 + 27742317777372353535851937790883648493
def t_modL(E, bounds):
    x = [E.atom('x[%d]' % i, 0, bounds[i]) for i in range(64)]
    X = E.obj('x', 512, 'undef', 'arg')
    for i in range(64): E.store(Ptr(X, 8 * i), 8, x[i])
    R = E.obj('r', 32, 'undef', 'arg')
    E.use_lia = False
    E.run('modL', (Ptr(R, 0), Ptr(X, 0)))
    bs = [E.uns(8, E.iv(8, E.load(Ptr(R, i), 1))) for i in range(32)]
    v = E.sub(value(bs, 8))
    agree(E, v, value(x, 8), LORD, 'modL: same residue modulo the group order')
    v = E.sub(v)
    E.unfold = 2
    E.post(1 if E.tighten(v, 0, LORD - 1) else 0, 'modL: fully reduced', str(E.interval(v)))
    E.cover('done')

def t_reduce(E):
    x = [E.atom('r[%d]' % i, 0, 255) for i in range(64)]
    R = E.obj('r', 64, list(x), 'arg')
    E.use_lia = False
    E.run('reduce', (Ptr(R, 0),))
    bs = [E.uns(8, E.iv(8, E.load(Ptr(R, i), 1))) for i in range(64)]
    for b in bs[32:]: E.post(1 if b == k(0) else 0, 'reduce: upper half cleared')
    v = E.sub(value(bs[:32], 8))
    agree(E, v, value(x, 8), LORD, 'reduce: same residue modulo the group order')
    v = E.sub(v)
    E.unfold = 2
    E.post(1 if E.tighten(v, 0, LORD - 1) else 0, 'reduce: fully reduced', str(E.interval(v)))
    E.cover('done')

def tasks():
    kw = dict(engine_cls=IntEngine, need_cover=('done',))
    ts = [Task('M[%s]' % a, 'M', t_M, args=(a,), **kw) for a in ('', 'aa', 'oa', 'ob', 'oaa')]
    ts.append(Task('pack25519', 'pack25519', t_pack, args=(1 << 20,), weight=2, **kw))
    ts.append(Task('unpack25519', 'unpack25519', t_unpack, **kw))
    ts.append(Task('reduce', 'reduce', t_reduce, weight=1, **kw))
    ts.append(Task('modL[sign]', 'modL', t_modL, args=([255 + 255 * 255 * (min(i, 62 - i) + 1) for i in range(63)] + [0],), **kw))
    return ts
