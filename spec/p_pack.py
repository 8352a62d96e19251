"""C12: bit packing, key and signature layout, canonical hint encoding."""
import random
import term as tm
from engine import *
from run import Task
from hybrid import inputs, outbuf
from p_dil import P, Q, D, G1, G2, OMEGA, N, s32

# field: width in bits, offset (coefficient = offset - field, or field itself when offset is None), largest field value
FIELD = {'eta': (3, 2, 4), 't1': (10, None, 1023), 't0': (13, 1 << 12, (1 << 13) - 1), 'z': (18, G1, (1 << 18) - 1), 'w1': (6, None, 43)}

def fields(E, kind, name):
    """256 symbolic field values in range"""
    w, off, mx = FIELD[kind]
    fs = []
    for i in range(N):
        f = tm.var('%s[%d]' % (name, i), w)
        if mx < (1 << w) - 1: E.assume(tm.ule(w, f, mx))
        fs.append(f)
    return fs

def coeff(kind, f):
    w, off, mx = FIELD[kind]
    f = tm.zext(w, 32, f)
    return f if off is None else tm.sub(32, off, f)

def packed(kind, fs):
    """little-endian bit string of the fields, as bytes"""
    w, off, mx = FIELD[kind]
    t = tm.concat_list([(w, f) for f in reversed(fs)])
    W = w * len(fs)
    return [tm.ext(t, W, 8 * i, 8 * i + 8) for i in range(W // 8)]

def unpacked(kind, bs):
    w, off, mx = FIELD[kind]
    t = tm.concat_list([(8, b) for b in reversed(bs)])
    return [coeff(kind, tm.ext(t, 8 * len(bs), w * i, w * i + w)) for i in range(N)]

def size(kind): return FIELD[kind][0] * N // 8

def put(E, o, off, kind, fs):
    for i, f in enumerate(fs): E.store(Ptr(o, off + 4 * i), 4, coeff(kind, f))

def polyobj(E, name, n=1): return E.obj(name, 1024 * n, 'undef', 'arg')

def cmp_bytes(E, p, want, label):
    got = E.rd(p, len(want))
    for i, (g, x) in enumerate(zip(got, want)): E.same(8, g, x, label, 'byte %d' % i)

def cmp_poly(E, o, off, want, label):
    for i, x in enumerate(want): E.same(32, E.load(Ptr(o, off + 4 * i), 4), x, label, 'coefficient %d' % i)

def guard(E, name, n):
    """output buffer of exactly n bytes"""
    return outbuf(E, name, n)

def t_pack(E, kind):
    fs = fields(E, kind, 'f'); o = polyobj(E, 'a'); put(E, o, 0, kind, fs); o.ro = True
    r = guard(E, 'r', size(kind))
    E.run(P + 'poly%s_pack' % kind, (Ptr(r, 0), Ptr(o, 0)))
    cmp_bytes(E, Ptr(r, 0), packed(kind, fs), 'poly%s_pack: little-endian bit string of the coefficients' % kind)
    E.cover('done')

def t_unpack(E, kind):
    b = inputs(E, 'b', size(kind)); o = polyobj(E, 'a')
    E.run(P + 'poly%s_unpack' % kind, (Ptr(o, 0), Ptr(b, 0)))
    cmp_poly(E, o, 0, unpacked(kind, list(b.cells)), 'poly%s_unpack: coefficients of the little-endian bit string' % kind)
    E.cover('done')

def t_pack_pk(E):
    rho = inputs(E, 'rho', 32); t1 = polyobj(E, 't1', 4); want = list(rho.cells)
    for i in range(4):
        fs = fields(E, 't1', 't1_%d' % i); put(E, t1, 1024 * i, 't1', fs); want += packed('t1', fs)
    t1.ro = True; pk = guard(E, 'pk', 1312)
    E.run(P + 'pack_pk', (Ptr(pk, 0), Ptr(rho, 0), Ptr(t1, 0)))
    cmp_bytes(E, Ptr(pk, 0), want, 'pack_pk: rho then the four packed t1 polynomials')
    E.cover('done')

def t_unpack_pk(E):
    pk = inputs(E, 'pk', 1312); rho = guard(E, 'rho', 32); t1 = polyobj(E, 't1', 4)
    E.run(P + 'unpack_pk', (Ptr(rho, 0), Ptr(t1, 0), Ptr(pk, 0)))
    c = list(pk.cells)
    cmp_bytes(E, Ptr(rho, 0), c[:32], 'unpack_pk: rho')
    for i in range(4): cmp_poly(E, t1, 1024 * i, unpacked('t1', c[32 + 320 * i:352 + 320 * i]), 'unpack_pk: t1')
    E.cover('done')

SKL = (('s1', 'eta', 4), ('s2', 'eta', 4), ('t0', 't0', 4))
def t_pack_sk(E):
    rho = inputs(E, 'rho', 32); tr = inputs(E, 'tr', 64); key = inputs(E, 'key', 32); sk = guard(E, 'sk', 2560)
    o = {}; body = []
    for nm, kind, n in SKL:
        o[nm] = polyobj(E, nm, n)
        for i in range(n):
            fs = fields(E, kind, '%s_%d' % (nm, i)); put(E, o[nm], 1024 * i, kind, fs); body += packed(kind, fs)
        o[nm].ro = True
    E.run(P + 'pack_sk', (Ptr(sk, 0), Ptr(rho, 0), Ptr(tr, 0), Ptr(key, 0), Ptr(o['t0'], 0), Ptr(o['s1'], 0), Ptr(o['s2'], 0)))
    cmp_bytes(E, Ptr(sk, 0), list(rho.cells) + list(key.cells) + list(tr.cells) + body, 'pack_sk: rho, key, tr, s1, s2, t0 in order')
    E.cover('done')

def t_unpack_sk(E):
    sk = inputs(E, 'sk', 2560); rho = guard(E, 'rho', 32); tr = guard(E, 'tr', 64); key = guard(E, 'key', 32)
    o = {nm: polyobj(E, nm, n) for nm, kind, n in SKL}
    E.run(P + 'unpack_sk', (Ptr(rho, 0), Ptr(tr, 0), Ptr(key, 0), Ptr(o['t0'], 0), Ptr(o['s1'], 0), Ptr(o['s2'], 0), Ptr(sk, 0)))
    c = list(sk.cells)
    cmp_bytes(E, Ptr(rho, 0), c[:32], 'unpack_sk: rho'); cmp_bytes(E, Ptr(key, 0), c[32:64], 'unpack_sk: key'); cmp_bytes(E, Ptr(tr, 0), c[64:128], 'unpack_sk: tr')
    pos = 128
    for nm, kind, n in SKL:
        for i in range(n):
            cmp_poly(E, o[nm], 1024 * i, unpacked(kind, c[pos:pos + size(kind)]), 'unpack_sk: ' + nm); pos += size(kind)
    E.cover('done')

HB = 32 + 4 * 576
def hint_bytes(rows):
    out = [0] * 84; k = 0
    for i, r in enumerate(rows):
        for x in sorted(r): out[k] = x; k += 1
        out[80 + i] = k
    return out

def t_pack_sig(E, rows, val=1):
    c = inputs(E, 'c', 32); z = polyobj(E, 'z', 4); h = E.obj('h', 4096, 'zero', 'arg'); want = list(c.cells)
    for i in range(4):
        fs = fields(E, 'z', 'z_%d' % i); put(E, z, 1024 * i, 'z', fs); want += packed('z', fs)
        for x in rows[i]: E.store(Ptr(h, 1024 * i + 4 * x), 4, val)
    z.ro = h.ro = True; sig = guard(E, 'sig', 2420)
    E.run(P + 'pack_sig', (Ptr(sig, 0), Ptr(c, 0), Ptr(z, 0), Ptr(h, 0)))
    cmp_bytes(E, Ptr(sig, 0), want + hint_bytes(rows), 'pack_sig: challenge, packed z, hint positions in increasing order with running counts, zero padding')
    E.cover('done')

def t_pack_sig_inplace(E, rows):
    """the signer passes the challenge inside the signature buffer"""
    sig = outbuf(E, 'sig', 2420); c0 = [tm.var('c[%d]' % i, 8) for i in range(32)]
    for i in range(32): sig.cells[i] = c0[i]
    z = polyobj(E, 'z', 4); h = E.obj('h', 4096, 'zero', 'arg'); want = list(c0)
    for i in range(4):
        fs = fields(E, 'z', 'z_%d' % i); put(E, z, 1024 * i, 'z', fs); want += packed('z', fs)
        for x in rows[i]: E.store(Ptr(h, 1024 * i + 4 * x), 4, 1)
    E.run(P + 'pack_sig', (Ptr(sig, 0), Ptr(sig, 0), Ptr(z, 0), Ptr(h, 0)))
    cmp_bytes(E, Ptr(sig, 0), want + hint_bytes(rows), 'pack_sig: challenge, packed z, hint positions in increasing order with running counts, zero padding')
    E.cover('done')

def symwrites(E):
    """record stores at symbolic offsets into h (position taken from the signature)"""
    E.log['hw'] = []
    def h(E, o, off, n, what):
        if what != 'write' or o.name != 'h' or n != 4:
            v = E.unique(off)
            if v is not None: return E._off(Ptr(o, v), n, what)
            raise Unsupported('symbolic offset %s into %s in %s' % (tm.show(off), o.name, E.where()))
        E.require(tm.ule(64, off, o.size - n), 'in-bounds access', 'hint position')
        return (None, off, lambda off, n, v: E.log['hw'].append((off, v)))
    E.hooks['symoff'] = h

def t_unpack_sig(E, counts, ones=None):
    """counts: concrete (or symbolic when None) running counts; all other signature bytes symbolic"""
    sig = inputs(E, 'sig', 2420)
    hb = [tm.var('hint[%d]' % i, 8) for i in range(84)]
    for i, n in enumerate(counts):
        if n is not None: hb[80 + i] = n
    sig.ro = False
    for i in range(84): sig.cells[HB + i] = hb[i]
    sig.ro = True
    c = guard(E, 'c', 32); z = polyobj(E, 'z', 4); h = polyobj(E, 'h', 4)
    symwrites(E)
    r = E.retcode(E.run(P + 'unpack_sig', (Ptr(c, 0), Ptr(z, 0), Ptr(h, 0), Ptr(sig, 0))))
    hb = [E.norm(x) for x in hb]
    # specification on this path (running counts are determined by the path)
    k = 0; bad = 0; pairs = []
    lim = []
    for i in range(4):
        n = hb[80 + i]
        if n.__class__ is not int:
            # symbolic count: refused before it was used
            b = tm.or_(1, tm.ult(8, n, k), tm.ult(8, OMEGA, n))
            if r.__class__ is int and r == 0: raise Violation('unpack_sig: every count is checked', 'count %d unconstrained' % i, E.model())
            bad = tm.or_(1, bad, b); k = None; break
        if n < k or n > OMEGA: bad = 1; k = None; break
        for j in range(k + 1, n): bad = tm.or_(1, bad, tm.ule(8, hb[j], hb[j - 1]))
        for j in range(k, n): pairs.append((i, hb[j]))
        k = n
    if k is not None:
        for j in range(k, OMEGA): bad = tm.or_(1, bad, tm.ne(8, hb[j], 0))
    ok = r.__class__ is int and r == 0
    if not ok: E.post(tm.ne(32, r, 0), 'unpack_sig: rejection is a non-zero code')
    E.post(tm.not_(1, bad) if ok else bad, 'unpack_sig: accepts exactly ordered, in-range, zero-padded hint encodings')
    if ok:
        cs = list(sig.cells)
        cmp_bytes(E, Ptr(c, 0), cs[:32], 'unpack_sig: challenge')
        for i in range(4): cmp_poly(E, z, 1024 * i, unpacked('z', cs[32 + 576 * i:608 + 576 * i]), 'unpack_sig: z')
        w = E.log['hw']
        want = {}
        for i, x in pairs:
            if x.__class__ is int: want[(i, x)] = 1
        sym = [(i, x) for i, x in pairs if x.__class__ is not int]
        E.post(1 if len(w) == len(sym) else 0, 'unpack_sig: one hint per encoded position', '%d hints set, %d encoded' % (len(w), len(sym)))
        left = list(w)
        for i, x in sym:
            t = tm.add(64, 1024 * i, tm.mul(64, tm.zext(8, 64, x), 4))
            for q in left:
                if tm.eq(64, q[0], t) == 1: left.remove(q); E.same(32, q[1], 1, 'unpack_sig: hints are 1'); break
            else: raise Violation('unpack_sig: decoded hints are the encoded positions', 'row %d' % i, E.model())
        for i in range(4):
            for x in range(256):
                v = E.load(Ptr(h, 1024 * i + 4 * x), 4)
                E.post(1 if v.__class__ is int and v == want.get((i, x), 0) else 0, 'unpack_sig: all other hints are 0', 'row %d position %d' % (i, x))
        E.cover('accept')
    else: E.cover('reject')

BND = 'hint counts from a listed family; positions, padding and all other bytes symbolic'
def tasks(thorough=False):
    nc = ('done',)
    ts = [Task('poly%s_pack' % k, P + 'poly%s_pack' % k, t_pack, args=(k,), need_cover=nc) for k in FIELD]
    ts += [Task('poly%s_unpack' % k, P + 'poly%s_unpack' % k, t_unpack, args=(k,), need_cover=nc) for k in ('eta', 't1', 't0', 'z')]
    ts += [Task('pack_pk', P + 'pack_pk', t_pack_pk, need_cover=nc), Task('unpack_pk', P + 'unpack_pk', t_unpack_pk, need_cover=nc),
           Task('pack_sk', P + 'pack_sk', t_pack_sk, need_cover=nc), Task('unpack_sk', P + 'unpack_sk', t_unpack_sk, need_cover=nc)]
    rnd = random.Random(5)
    pats = [[[], [], [], []], [[0], [255], [0, 255], []], [list(range(20)), list(range(236, 256)), list(range(100, 120)), list(range(0, 40, 2))], [list(range(80)), [], [], []], [[], [], [], list(range(176, 256))]]
    for _ in range(12 if not thorough else 60):
        n = rnd.choice((1, 5, 40, 79, 80)); rows = [[], [], [], []]
        for x in rnd.sample(range(1024), n): rows[x // 256].append(x % 256)
        pats.append([sorted(r) for r in rows])
    ts += [Task('pack_sig[pattern %d]' % i, P + 'pack_sig', t_pack_sig, args=(p,), need_cover=nc, bounded='concrete hint pattern') for i, p in enumerate(pats)]
    ts.append(Task('pack_sig[in place]', P + 'pack_sig', t_pack_sig_inplace, args=(pats[5],), need_cover=nc, bounded='concrete hint pattern'))
    cts = [(0, 0, 0, 0), (1, 1, 1, 1), (0, 0, 0, 1), (2, 4, 6, 8), (0, 3, 3, 5), (80, 80, 80, 80), (0, 0, 0, 80), (20, 40, 60, 80), (79, 79, 80, 80), (1, 2, 79, 79), (0, 80, 80, 80), (10, 10, 50, 78)]
    for _ in range(6 if not thorough else 60): cts.append(tuple(sorted(rnd.randrange(81) for _ in range(4))))
    ts += [Task('unpack_sig[counts %s]' % (c,), P + 'unpack_sig', t_unpack_sig, args=(c,), need_cover=('accept',), bounded=BND, weight=4) for c in cts]
    # refusals: each count arbitrary after given earlier counts
    for pre in ((), (0,), (1,), (80,), (3, 5), (2, 2, 4), (40, 79, 80)):
        for bad in (81, 82, 255) + ((pre[-1] - 1,) if pre and pre[-1] else ()):
            ts.append(Task('unpack_sig[bad count %s]' % (pre + (bad,),), P + 'unpack_sig', t_unpack_sig, args=(pre + (bad,) + (80,) * (3 - len(pre)),), need_cover=('reject',), bounded=BND))
    return ts
