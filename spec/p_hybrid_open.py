"""C01, C02, C05 (open/verify side): obligations on the real open/verify functions."""
import itertools
import term as tm
from engine import Ptr, Violation, Infeasible
from run import Task
from hybrid import *

def mode(full):
    return dict(full=full, open=F_OPEN if full else C_OPEN, verify=F_VERIFY if full else C_VERIFY, id=FULL_ID if full else COMPACT_ID,
                len=full_len if full else compact_len, accept=full_accept if full else compact_accept)

def t_open(E, full, L):
    """open() on a signature whose supplied length is the one for an L-byte message"""
    M = mode(full)
    n = M['len'](L)
    m = outbuf(E, 'm', L); ml = outbuf(E, 'mlen', 8)
    sm = inputs(E, 'sm', n); pk = inputs(E, 'pk', PK)
    ms, mls = snapshot(m), snapshot(ml)
    smv, pkv = list(sm.cells), list(pk.cells)
    r = E.run(M['open'], (Ptr(m, 0), Ptr(ml, 0), Ptr(sm, 0), n, Ptr(pk, 0)))
    bits, msg = M['accept'](smv, L, pkv)
    ok = conj((tm.eq(8, smv[0], M['id']), tm.eq(8, smv[1], L)) + tuple(bits))
    succ = tm.eq(32, r, 0)
    E.post(tm.eq(1, succ, ok), 'open succeeds iff id, length and every component verdict are right', 'message length %d' % L)
    if E.branch(succ):
        E.cover('accept')
        for i in range(L): E.same(8, m.cells[i], msg[i], 'returned message is the embedded one', 'byte %d' % i)
        v = le64(L)
        for i in range(8): E.same(8, ml.cells[i], v[i], 'returned length is the embedded one', 'byte %d' % i)
    else:
        E.cover('reject')
        unchanged(E, m, ms, 'message buffer untouched on failure'); unchanged(E, ml, mls, 'message length untouched on failure')

def t_open_badlen(E, full):
    """any supplied length outside the legal range: refused without reading a byte of the signature beyond its declared size"""
    M = mode(full)
    n = tm.var('smlen', 64)
    E.assume(tm.or_(1, tm.ult(64, n, M['len'](1)), tm.ult(64, M['len'](64), n)))
    m = outbuf(E, 'm', 1); ml = outbuf(E, 'mlen', 8)
    sm = inputs(E, 'sm', n); pk = inputs(E, 'pk', PK)
    ms, mls = snapshot(m), snapshot(ml)
    r = E.run(M['open'], (Ptr(m, 0), Ptr(ml, 0), Ptr(sm, 0), n, Ptr(pk, 0)))
    E.post(tm.ne(32, r, 0), 'open refuses lengths outside the legal range')
    unchanged(E, m, ms, 'message buffer untouched on failure'); unchanged(E, ml, mls, 'message length untouched on failure')
    E.cover('reject')

def t_open_null(E, full):
    M = mode(full)
    nulls = E.fork(15) + 1
    case = E.fork(2)
    if case == 0:
        n = M['len'](7)
        sm = inputs(E, 'sm', n)
    else:
        n = tm.var('smlen', 64); sm = inputs(E, 'sm', n)
    m = outbuf(E, 'm', 64); ml = outbuf(E, 'mlen', 8); pk = inputs(E, 'pk', PK)
    ms, mls = snapshot(m), snapshot(ml)
    a = [Ptr(m, 0), Ptr(ml, 0), Ptr(sm, 0), Ptr(pk, 0)]
    for k in range(4):
        if nulls >> k & 1: a[k] = 0
    r = E.run(M['open'], (a[0], a[1], a[2], n, a[3]))
    E.post(tm.ne(32, r, 0), 'open refuses a missing pointer')
    unchanged(E, m, ms, 'message buffer untouched on failure'); unchanged(E, ml, mls, 'message length untouched on failure')
    E.cover('reject')

def c_open(full):
    """contract of open as used by verify"""
    M = mode(full)
    def contract(E, m, ml, sm, n, pk):
        if m.__class__ is int or ml.__class__ is int or sm.__class__ is int or pk.__class__ is int: return NEG1
        n = E.norm(n)
        if n.__class__ is not int:
            bad = tm.or_(1, tm.ult(64, n, M['len'](1)), tm.ult(64, M['len'](64), n))
            if E.branch(bad): return NEG1
            n = conc(E, n, 'signature length')
        L = n - M['len'](0)
        if not 1 <= L <= 64: return NEG1
        smv = E.rd(sm, n); pkv = E.rd(pk, PK)
        bits, msg = M['accept'](smv, L, pkv)
        if E.branch(conj((tm.eq(8, smv[0], M['id']), tm.eq(8, smv[1], L)) + tuple(bits))):
            E.wr(m, msg); E.wr(ml, le64(L))
            return 0
        r = E.fresh('open', 32); E.assume(tm.ne(32, r, 0)); return r
    return contract

def t_verify(E, full, L):
    """verify() against an arbitrary caller message of arbitrary length, signature of the length for an L-byte message"""
    M = mode(full)
    n = M['len'](L)
    mlen = tm.var('mlen', 64)
    m = inputs(E, 'm', mlen); sm = inputs(E, 'sm', n); pk = inputs(E, 'pk', PK)
    smv, pkv = list(sm.cells), list(pk.cells)
    r = E.run(M['verify'], (Ptr(m, 0), mlen, Ptr(sm, 0), n, Ptr(pk, 0)))
    bits, msg = M['accept'](smv, L, pkv)
    ok = conj((tm.eq(64, mlen, L), tm.eq(8, smv[0], M['id']), tm.eq(8, smv[1], L)) + tuple(bits) +
              tuple(tm.eq(8, msg[i], tm.var('m[%d]' % i, 8)) for i in range(L)))
    succ = tm.eq(32, r, 0)
    E.post(tm.eq(1, succ, ok), 'verify succeeds iff open succeeds with exactly the given message', 'message length %d' % L)
    E.cover('accept' if E.branch(succ) else 'reject')

def t_verify_badlen(E, full):
    M = mode(full)
    n = tm.var('smlen', 64)
    E.assume(tm.or_(1, tm.ult(64, n, M['len'](1)), tm.ult(64, M['len'](64), n)))
    mlen = tm.var('mlen', 64)
    m = inputs(E, 'm', mlen); sm = inputs(E, 'sm', n); pk = inputs(E, 'pk', PK)
    r = E.run(M['verify'], (Ptr(m, 0), mlen, Ptr(sm, 0), n, Ptr(pk, 0)))
    E.post(tm.ne(32, r, 0), 'verify refuses lengths outside the legal range')
    E.cover('reject')

def t_verify_null(E, full):
    M = mode(full)
    nulls = E.fork(7) + 1
    n = M['len'](3)
    mlen = tm.var('mlen', 64)
    m = inputs(E, 'm', mlen); sm = inputs(E, 'sm', n); pk = inputs(E, 'pk', PK)
    a = [Ptr(m, 0), Ptr(sm, 0), Ptr(pk, 0)]
    for k in range(3):
        if nulls >> k & 1: a[k] = 0
    r = E.run(M['verify'], (a[0], mlen, a[1], n, a[2]))
    E.post(tm.ne(32, r, 0), 'verify refuses a missing pointer')
    E.cover('reject')

def t_verify_dil(E):
    """crypto_verify_dilithium: exactly the Dilithium component verdict for messages of 1..64 bytes"""
    k = E.fork(3)
    mlen = tm.var('mlen', 64)
    if k == 0:
        L = 1 + E.fork(64)
        m = inputs(E, 'm', L); sm = inputs(E, 'sm', DSIG); pk = inputs(E, 'pk', DPK)
        r = E.run(V_DIL, (Ptr(m, 0), L, Ptr(sm, 0), DSIG, Ptr(pk, 0)))
        ok = bit('DILOK', seq(pk.cells), seq(sm.cells), seq(m.cells))
        succ = tm.eq(32, r, 0)
        E.post(tm.eq(1, succ, ok), 'Dilithium-only verify equals the component verdict')
        E.cover('accept' if E.branch(succ) else 'reject')
    elif k == 1:
        n = tm.var('smlen', 64)
        E.assume(tm.or_(1, tm.ne(64, n, DSIG), tm.or_(1, tm.eq(64, mlen, 0), tm.ult(64, 64, mlen))))
        m = inputs(E, 'm', mlen); sm = inputs(E, 'sm', n); pk = inputs(E, 'pk', DPK)
        r = E.run(V_DIL, (Ptr(m, 0), mlen, Ptr(sm, 0), n, Ptr(pk, 0)))
        E.post(tm.ne(32, r, 0), 'Dilithium-only verify refuses illegal lengths')
    else:
        nulls = E.fork(7) + 1
        m = inputs(E, 'm', 5); sm = inputs(E, 'sm', DSIG); pk = inputs(E, 'pk', DPK)
        a = [Ptr(m, 0), Ptr(sm, 0), Ptr(pk, 0)]
        for j in range(3):
            if nulls >> j & 1: a[j] = 0
        r = E.run(V_DIL, (a[0], 5, a[1], DSIG, a[2]))
        E.post(tm.ne(32, r, 0), 'Dilithium-only verify refuses a missing pointer')

def tasks(full):
    M = mode(full)
    nm = 'full' if full else 'compact'
    ts = []
    for L in range(1, 65):
        ts.append(Task('%s.open[len=%d]' % (nm, L), M['open'], t_open, CONTRACTS, args=(full, L), need_cover=('accept', 'reject')))
    ts.append(Task('%s.open[illegal length]' % nm, M['open'], t_open_badlen, CONTRACTS, args=(full,), need_cover=('reject',)))
    ts.append(Task('%s.open[null]' % nm, M['open'], t_open_null, CONTRACTS, args=(full,), need_cover=('reject',)))
    vc = dict(CONTRACTS); vc[M['open']] = c_open(full)
    for L in range(1, 65):
        ts.append(Task('%s.verify[len=%d]' % (nm, L), M['verify'], t_verify, vc, args=(full, L), need_cover=('accept', 'reject')))
    ts.append(Task('%s.verify[illegal length]' % nm, M['verify'], t_verify_badlen, vc, args=(full,), need_cover=('reject',)))
    ts.append(Task('%s.verify[null]' % nm, M['verify'], t_verify_null, vc, args=(full,), need_cover=('reject',)))
    if not full:
        ts.append(Task('dilithium-only verify', V_DIL, t_verify_dil, CONTRACTS, need_cover=('accept', 'reject')))
    return ts
