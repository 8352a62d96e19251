"""Ghost contracts of the SHAKE-256 interfaces (proved in C10): output = SHAKE256(concatenation of everything absorbed).

A context is a heap cell whose ghost state is (phase, absorbed parts, bytes squeezed so far)."""
import term as tm
from engine import *
from hybrid import seq

def parts(E, p, n):
    """canonical parts of n bytes at p: list of ('b', byte) / ('seg', name, off, n)"""
    n = E.norm(n)
    if n.__class__ is int and n == 0: return []
    if n.__class__ is int and not (p.__class__ is Ptr and p.o.cells.__class__ not in (list,)): return [('b', x) for x in E.rd(p, n)]
    out = []
    for d in E.descr(p, n):
        if d[0] == 'rd':
            if d[3].__class__ is int and d[3] <= 4096: out += [('b', tm.app('rd', 8, (d[1], tm.add(64, d[2], i)))) for i in range(d[3])]
            else: out.append(('seg', d[1], d[2], d[3]))
        elif d[0] == 'bytes': out += [('b', x) for x in d[1:]]
        else: raise Unsupported('absorbing filled memory')
    return out

def canon(ps):
    """merge adjacent segments; bytes of a wide term compressed"""
    out = []; run = []
    def flush():
        if run: out.append(('bytes', seq(list(run)))); run.clear()
    for p in ps:
        if p[0] == 'b': run.append(p[1]); continue
        flush()
        if out and out[-1][0] == 'seg' and out[-1][1] == p[1] and tm.eq(64, tm.add(64, out[-1][2], out[-1][3]), p[2]) == 1:
            out[-1] = ('seg', p[1], out[-1][2], tm.add(64, out[-1][3], p[3]))
        else: out.append(p)
    flush()
    return tuple(out)

def H(ps, n, kind='256'):
    """n bytes of SHAKE256 of the given parts, as one wide term"""
    t = tm.app('SHAKE' + kind, 8 * n, (canon(ps),))
    return [tm.ext(t, 8 * n, 8 * i, 8 * i + 8) for i in range(n)] if n > 1 else [t]

def stream(ps, kind='256'):
    return tm.app('SHAKE%sSTREAM' % kind, 8, (canon(ps),))

def bts(bs): return [('b', b) for b in bs]

def st(E, c, what):
    p = E.load(c, 8)
    if p.__class__ is not Ptr or not isinstance(p.o.reads, dict): raise Violation('hash context is initialised', 'in %s: %s' % (E.where(), what), E.model())
    if not p.o.live: raise Violation('no use after free', 'in %s: %s of a released hash context' % (E.where(), what), E.model())
    return p.o

def family(kind, stream_mode, H=H):
    def get(E, c, what):
        o = st(E, c, what)
        E.require(1 if o.reads['kind'] == kind else 0, 'hash context is of the right kind', what)
        return o
    def c_xof(E, out, outlen, m, mlen):
        ps = parts(E, m, mlen)
        E.wr(out, H(ps, conc(E, outlen, 'output length'), kind))
    def c_init(E, c):
        o = E.obj('shakectx%d' % E.nobj, 208, 'undef', 'heap')
        o.reads = dict(phase='absorb', parts=[], pos=0, kind=kind)
        E.heap.append(o)
        E.store(c, 8, Ptr(o, 0))
    def c_absorb(E, c, m, n):
        g = get(E, c, 'absorb').reads
        E.require(1 if g['phase'] == 'absorb' else 0, 'absorb before finalize')
        g['parts'] = g['parts'] + parts(E, m, n)
    def c_finalize(E, c):
        g = get(E, c, 'finalize').reads
        E.require(1 if g['phase'] == 'absorb' else 0, 'finalize once')
        g['phase'] = 'squeeze'
    def c_squeeze(E, out, n, c):
        g = get(E, c, 'squeeze').reads
        E.require(1 if g['phase'] == 'squeeze' else 0, 'squeeze after finalize')
        if not stream_mode:
            n = conc(E, n, 'output length')
            if g['pos'].__class__ is not int or g['pos'] != 0: raise Unsupported('second squeeze')
            E.wr(out, H(g['parts'], n, kind)); g['pos'] = n
            return
        # output bytes are rd(stream, pos + i); any number of squeeze calls of any length
        s = stream(g['parts'], kind); n = E.norm(n)
        if n.__class__ is int:
            E.wr(out, [tm.app('rd', 8, (s, tm.add(64, g['pos'], i))) for i in range(n)])
        else:
            o, off = E.ptr(out, 'squeeze output')
            E.bulk(o, off, n, 'rd', s, g['pos'])
        g['pos'] = tm.add(64, g['pos'], n)
    def c_release(E, c):
        o = get(E, c, 'release'); o.live = False
    k = 'shake' + kind
    return {k: c_xof, k + '_inc_init': c_init, k + '_inc_absorb': c_absorb, k + '_inc_finalize': c_finalize, k + '_inc_squeeze': c_squeeze, k + '_inc_ctx_release': c_release}

def inc(stream_mode=False):
    return {**family('256', stream_mode), **family('128', stream_mode)}

def released(E):
    for o in E.heap: E.post(0 if o.live else 1, 'every hash context is released')
