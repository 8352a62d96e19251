"""Function-by-function symbolic verifier over LLVM IR.

Every function of the module is translated to Python code that manipulates values which are
Python ints (concrete), term.T (symbolic bit-vectors) or Ptr.  A call is replaced by the callee's
contract when the active contract table has one; otherwise the callee's real body is executed in
place (inlined).  Paths are enumerated by re-execution with a decision prefix; every path must
discharge every obligation (safety obligations while executing, postconditions at the end).
"""
import os, sys, time, pickle
import re as _re
from term import *
import term as tm
from llir import Unsupported, PTR
import llir

sys.setrecursionlimit(100000)

class Violation(Exception):
    """an obligation was refuted (model found, or concretely false)"""
    def __init__(self, label, detail='', model=None):
        Exception.__init__(self, label + ': ' + detail)
        self.label = label; self.detail = detail; self.model = model

class Undecided(Exception):
    """an obligation could be neither proved nor refuted"""
    def __init__(self, label, detail=''):
        Exception.__init__(self, label + ': ' + detail)
        self.label = label; self.detail = detail

class PathEnd(Exception):
    """path ends early (exit(), infeasible, assume false)"""

class Infeasible(Exception):
    pass

class Restart(Exception):
    """a branch that was to be joined cannot be: explore again with that branch split into paths"""

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = off
    def __repr__(self): return '&%s+%s' % (self.o.name, tm.show(self.off) if not isinstance(self.off, int) else self.off)

class FuncPtr:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n

UNDEF = object()

class Obj:
    __slots__ = ('seq', 'name', 'size', 'cells', 'ro', 'kind', 'live', 'written', 'lazy', 'reads', 'bulk')
    def __init__(self, name, size, cells, kind='stack', ro=False):
        self.name = name; self.size = size; self.cells = cells; self.kind = kind; self.ro = ro
        self.live = True; self.written = None; self.reads = None

class LazyCells(dict):
    """cells of an input object: byte i is var name[i] until overwritten; supports symbolic size"""
    __slots__ = ('nm',)
    def __init__(self, nm): self.nm = nm
    def __missing__(self, i):
        v = tm.var('%s[%d]' % (self.nm, i), 8)
        self[i] = v
        return v

def sgn64(v):
    return v - (1 << 64) if v >> 63 else v

class Stats:
    def __init__(self):
        self.safety = 0      # safety obligations checked (dynamic)
        self.post = 0        # postcondition obligations
        self.structural = 0
        self.smt = 0
        self.smt_time = 0.0
        self.paths = 0
        self.funcs = set()
        self.contracts = set()
        self.assumed = set()
        self.covers = set()
    def merge(self, o):
        for k in ('safety', 'post', 'structural', 'smt', 'smt_time', 'paths'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ('funcs', 'contracts', 'assumed', 'covers'):
            getattr(self, k).update(getattr(o, k))

# --------------------------------------------------------------------------
class Engine:
    loop_hooks = False
    merging = False
    slicing = True
    libc = {}
    opns = {}        # overrides of term constructors used by compiled code
    def at_header(self, fname, h, fr, phis, widths): return None
    def loop_exit(self, fr, h): pass
    def __init__(self, mod, contracts=None, solver_timeout=20000):
        self.mod = mod
        self.code = {}
        self.contracts = contracts or {}
        self.stats = Stats()
        self.timeout = solver_timeout
        self.check_nsw = True
        self.unbounded = {}      # loop handlers
        self.maxsteps = None
        self._gobj = {}
        self._consts = {}
        self.deadline = None
        self.hooks = {}
        self.childfd = None
        self.lf = None           # label filter: obligations with other labels belong to another property
        self.fork_after = 0.25
        self.reset_path([])

    # ---- path state ----
    def reset_path(self, decisions):
        self.dec = decisions; self.di = 0; self.new = []
        self.path_t0 = time.time()
        self.pc = []; self.bind = {}; self.bindver = 0
        self._subst_cache = {}
        self.heap = []
        self.objs = []
        self.fresh_n = 0
        self.gobjs = {}
        self.nobj = 0
        self._solver = None
        self.events = []
        self.trace = []
        self.fstack = []
        self.log = {}
        self.symbr = 0
        tm.SR.clear()

    def fresh(self, name, w):
        self.fresh_n += 1
        return tm.var('%s#%d' % (name, self.fresh_n), w)

    # ---- conditions ----
    def norm(self, t):
        """apply the current bindings (equalities var=const learned on the path)"""
        if t.__class__ is not T or not self.bind:
            return t
        return subst(t, self.bind, self._subst_cache)

    def assume(self, c):
        c = self.norm(c)
        if c.__class__ is int:
            if not c: raise Infeasible()
            return
        if c.op == 'and':
            for x in c.a[1]: self.assume(x)
            return
        self.pc.append(c)
        self._solver_add(c)
        # learn bindings
        if c.op == 'eq' and c.a[1].__class__ is int and (c.a[0].op in ('var', 'app')):
            self.bind[c.a[0]] = c.a[1]; self._subst_cache = {}
        elif c.op in ('var', 'app'):
            self.bind[c] = 1; self._subst_cache = {}
        elif c.op == 'xor' and c.a[0] == 1 and len(c.a[1]) == 1 :
            t = c.a[1][0]
            self.bind[t] = 0; self._subst_cache = {}

    def _solver_add(self, c):
        if self._solver is not None:
            self._solver.add(c)

    def solver(self):
        if self._solver is None:
            import smt
            self._solver = smt.PathSolver(self.timeout)
            for c in self.pc: self._solver.add(c)
        return self._solver

    def feasible(self, c):
        t0 = time.time()
        if self.slicing and len(self.pc) > 8 and c.__class__ is T:
            # the path condition is satisfiable (every branch taken was feasible), so the conditions that share no variable with c cannot matter
            import smt
            r = smt.sliced_check(self.pc, c, self.timeout)
            if r != 'no':
                self.stats.smt_time += time.time() - t0
                return r
        r = self.solver().check(c)
        self.stats.smt_time += time.time() - t0
        return r   # True / False / None

    def reachable(self):
        """is the path condition itself satisfiable (assumptions made along the path may have contradicted it)?"""
        try: return self.solver().check(1) is not False
        except Exception: return True

    def branch(self, c, hint=''):
        """decide a symbolic condition; returns 0/1"""
        if c.__class__ is int: return c
        if c.__class__ is Ptr: raise Unsupported('branch on pointer')
        c = self.norm(c)
        if c.__class__ is int: return c
        if self.di < len(self.dec):
            d = self.dec[self.di]; self.di += 1
            if not d & 2: self.symbr += 1
            d &= 1
            self.assume(c if d else tm.not_(1, c))
            return d
        f1 = self.feasible(c)
        if f1 is False:
            self.assume(tm.not_(1, c))
            self.dec.append(2); self.di += 1
            return 0
        f0 = self.feasible(tm.not_(1, c))
        if f0 is False:
            self.assume(c)
            self.dec.append(3); self.di += 1
            return 1
        self.symbr += 1
        # both feasible (or unknown): fork; explore 1 first, remember 0
        if time.time() - self.path_t0 > self.fork_after:
            d = self._osfork([1, 0])
            self.dec.append(d); self.di += 1
            self.assume(c if d else tm.not_(1, c))
            return d
        self.new.append(self.dec[:self.di] + [0])
        self.dec.append(1); self.di += 1
        self.assume(c)
        return 1

    def retcode(self, r):
        """a return code, split into zero and non-zero when the code computed it without branching"""
        if r.__class__ is T and self.branch(tm.eq(r.w, r, 0)): return 0
        return r

    def fork(self, n, label=''):
        """nondeterministic choice 0..n-1 (driver-level case split)"""
        if self.di < len(self.dec):
            d = self.dec[self.di]; self.di += 1
            return d
        if time.time() - self.path_t0 > self.fork_after:
            d = self._osfork(list(range(n)))
            self.dec.append(d); self.di += 1
            return d
        for k in range(n - 1, 0, -1):
            self.new.append(self.dec[:self.di] + [k])
        self.dec.append(0); self.di += 1
        return 0

    def _osfork(self, choices):
        """explore all choices but the last in child processes (copy-on-write snapshot of the path), then
        continue with the last one here"""
        for d in choices[:-1]:
            rfd, wfd = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                if self.childfd is not None: os.close(self.childfd)
                self.childfd = wfd
                self.new = []
                self.stats = Stats()
                self.todo = None
                return d
            os.close(wfd)
            with os.fdopen(rfd, 'rb') as f: data = f.read()
            os.waitpid(pid, 0)
            if not data: raise Unsupported('explorer child died (out of memory?)')
            kind, payload, st = pickle.loads(data)
            self.stats.merge(st)
            if kind == 'violation': raise Violation(*payload)
            if kind == 'undecided': raise Undecided(*payload)
            if kind == 'unsupported': raise Unsupported(payload)
        return choices[-1]

    # ---- obligations ----
    def where(self):
        return ' > '.join(self.fstack[-4:])

    def require(self, c, label, detail=''):
        """safety obligation: c must hold on this path"""
        self.stats.safety += 1
        if c.__class__ is int:
            if not c:
                raise Violation(label, 'in %s %s' % (self.where(), detail), self.model())
            return
        self.prove(c, label, detail)

    def prove(self, c, label, detail=''):
        c = self.norm(c)
        if c.__class__ is int:
            self.stats.structural += 1
            if not c: raise Violation(label, 'in %s %s' % (self.where(), detail), self.model())
            return
        t0 = time.time()
        self.stats.smt += 1
        if len(self.pc) > 8:
            # only the conditions connected to the claim (by shared variables); the full path condition decides if that does not suffice
            import smt
            if smt.sliced_unsat(self.pc, tm.not_(1, c), self.timeout):
                self.stats.smt_time += time.time() - t0
                return
        r, m = self.solver().check_model(tm.not_(1, c))
        self.stats.smt_time += time.time() - t0
        if r is False: return
        if r is None: raise Undecided(label, 'in %s %s' % (self.where(), detail))
        raise Violation(label, 'in %s %s  [%s]' % (self.where(), detail, tm.show(c)), m)

    def post(self, c, label, detail=''):
        if self.lf and not self.lf(label): return
        self.stats.post += 1
        self.prove(c, label, detail)

    def same(self, w, a, b, label, detail=''):
        """postcondition a == b"""
        if self.lf and not self.lf(label): return
        self.stats.post += 1
        if a is b or (a.__class__ is int and b.__class__ is int and a == b):
            self.stats.structural += 1
            return
        if isinstance(a, (Ptr, FuncPtr)) or isinstance(b, (Ptr, FuncPtr)) or a is UNDEF or b is UNDEF:
            raise Violation(label, '%s: %r vs %r' % (detail, a, b), self.model())
        a = self.norm(a); b = self.norm(b)
        e = tm.eq(w, a, b)
        if e.__class__ is int:
            self.stats.structural += 1
            if e: return
            raise Violation(label, '%s: computed %s, specified %s' % (detail, tm.show(a), tm.show(b)), self.model())
        import smt
        t0 = time.time()
        self.stats.smt += 1
        r, m = smt.equiv(w, a, b, self.pc, self.timeout)
        self.stats.smt_time += time.time() - t0
        if r is True: return
        if r is None: raise Undecided(label, '%s: computed %s, specified %s' % (detail, tm.show(a), tm.show(b)))
        raise Violation(label, '%s: computed %s, specified %s' % (detail, tm.show(a), tm.show(b)), m)

    def model(self):
        try:
            r, m = self.solver().check_model(1)
            return m if r else None
        except Exception:
            return None

    def cover(self, label):
        self.stats.covers.add(label)

    # ---- objects ----
    def obj(self, name, size, init='undef', kind='stack', ro=False):
        self.nobj += 1
        if init == 'undef':
            cells = [UNDEF] * size if size.__class__ is int else {}
        elif init == 'input':
            cells = LazyCells(name)
            if size.__class__ is int:
                cells = [tm.var('%s[%d]' % (name, i), 8) for i in range(size)]
        elif init == 'zero':
            cells = [0] * size
        else:
            cells = list(init)
        o = Obj(name, size, cells, kind, ro)
        self.objs.append(o)
        return o

    def gobj(self, name):
        o = self.gobjs.get(name)
        if o is None:
            if name not in self.mod.globals: raise Unsupported('global ' + name)
            base = self._gobj.get(name)
            if base is None:
                ty, init, const = self.mod.globals[name]
                if init is None: raise Unsupported('external global ' + name)
                if const or self.mod.never_written(name): base = (self._flat(ty, init), True)
                else: base = ([tm.var('global %s[%d]' % (name, i), 8) for i in range(self.mod.size(ty))], False)   # mutable: any earlier call may have left anything there
                self._gobj[name] = base
            o = Obj('@' + name, len(base[0]), base[0] if base[1] else list(base[0]), 'global', base[1])
            self.gobjs[name] = o
        return o

    def _flat(self, ty, v):
        m = self.mod
        n = m.size(ty)
        if v[0] in ('zero', 'undef', 'null'): return [0] * n
        if v[0] == 'c':
            return list((v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))
        if v[0] == 'str': return list(v[1])
        if v[0] == 'agg':
            if ty[0] == 'arr':
                r = []
                for t, x in v[1]: r += self._flat(t, x)
                return r
            offs, sz = m.layout(ty)
            r = [0] * sz
            for (t, x), o in zip(v[1], offs):
                b = self._flat(t, x); r[o:o + len(b)] = b
            return r
        if v[0] == 'g':
            if v[1] in m.funcs or v[1] in m.decls:
                fp = FuncPtr(v[1])
            else:
                fp = ('gref', v[1])
            return [(fp, i) for i in range(8)]
        raise Unsupported('global initialiser %r' % (v[0],))

    # ---- memory ----
    def _off(self, p, n, what):
        if p.__class__ is not Ptr:
            if p.__class__ is int and p == 0:
                raise Violation('no null dereference', 'in %s: %s of %s bytes through NULL' % (self.where(), what, n), self.model())
            raise Violation('valid pointer', 'in %s: %s through non-pointer value %r' % (self.where(), what, p), self.model())
        o = p.o; off = p.off
        self.stats.safety += 1
        if not o.live:
            raise Violation('no use after free', 'in %s: %s of %s' % (self.where(), what, o.name), self.model())
        if off.__class__ is not int:
            off = self.norm(off)
            if off.__class__ is not int:
                return self._symoff(o, off, n, what)
        off = sgn64(off) if off >> 63 else off
        sz = o.size
        if sz.__class__ is int:
            if off < 0 or off + n > sz:
                raise Violation('in-bounds access', 'in %s: %s of %d bytes at offset %d of %s (size %d)' % (self.where(), what, n, off, o.name, sz), self.model())
        else:
            if off < 0: raise Violation('in-bounds access', 'in %s: offset %d of %s' % (self.where(), off, o.name), self.model())
            self.require(tm.ule(64, off + n, sz), 'in-bounds access', '%s of %d bytes at offset %d of %s (size %s)' % (what, n, off, o.name, tm.show(sz)))
        return off

    def _symoff(self, o, off, n, what):
        h = self.hooks.get('symoff')
        if h: return h(self, o, off, n, what)
        # try a unique value under the path condition
        v = self.unique(off)
        if v is not None:
            p = Ptr(o, v); return self._off(p, n, what)
        raise Unsupported('symbolic offset %s into %s in %s' % (tm.show(off), o.name, self.where()))

    def unique(self, t):
        v = self.solver().unique(t)
        if v is not None and t.op == 'var':
            self.bind[t] = v; self._subst_cache = {}
        return v

    def load(self, p, n):
        """n bytes -> value (little endian)"""
        off = self._off(p, n, 'read')
        if off.__class__ is not int:
            return off[0](off[1], n)
        o = p.o
        cells = o.cells
        if n == 1:
            c = cells[off]
            if c.__class__ is int or c.__class__ is T: return c
            return self._loadcells([c], o, off)
        cs = cells[off:off + n] if cells.__class__ is list else [cells[off + i] for i in range(n)]
        for c in cs:
            if c.__class__ is not int: return self._loadcells(cs, o, off)
        return int.from_bytes(bytes(cs), 'little')

    def _loadcells(self, cs, o, off):
        c0 = cs[0]
        n = len(cs)
        if c0.__class__ is tuple:
            # (value, idx) byte of a pointer or word
            v = c0[0]
            if c0[1] == 0 and all(c.__class__ is tuple and c[0] is v and c[1] == i for i, c in enumerate(cs)) and n == 8:
                if v.__class__ is tuple and v[0] == 'gref': return Ptr(self.gobj(v[1]), 0)
                return v
            raise Unsupported('partial pointer load from %s+%d' % (o.name, off))
        out = []
        for i, c in enumerate(cs):
            if c is UNDEF:
                c = self.undef_read(o, off + i)
            elif c.__class__ is tuple:
                raise Unsupported('partial pointer load')
            out.append(c)
        return tm.from_bytes(out) if n > 1 else out[0]

    def undef_read(self, o, i):
        v = tm.var('undef:%s[%d]' % (o.name, i), 8)
        return v

    def store(self, p, n, v):
        off = self._off(p, n, 'write')
        if off.__class__ is not int:
            return off[2](off[1], n, v)
        o = p.o
        if o.ro:
            raise Violation('frame: read-only memory is not written', 'in %s: write to %s+%d' % (self.where(), o.name, off), self.model())
        if o.written is not None:
            o.written.update(range(off, off + n))
        cells = o.cells
        if n == 1:
            cells[off] = v; return
        if v.__class__ is int:
            bs = v.to_bytes(n, 'little')
            if cells.__class__ is list: cells[off:off + n] = bs
            else:
                for i in range(n): cells[off + i] = bs[i]
        elif v.__class__ is T:
            w = 8 * n
            for i in range(n): cells[off + i] = tm.ext(v, w, 8 * i, 8 * i + 8)
        else:
            for i in range(n): cells[off + i] = (v, i)

    # raw cell access for contracts -------------------------------------
    def rd(self, p, n, what='read'):
        """list of n byte values"""
        if n == 0: return []
        if n.__class__ is not int:
            n = self.norm(n)
            if n.__class__ is not int: raise Unsupported('symbolic length read')
        off = self._off(p, n, what)
        if off.__class__ is not int:
            raise Unsupported('block read at symbolic offset')
        o = p.o; cells = o.cells
        if cells.__class__ is list:
            cs = cells[off:off + n]
        else:
            cs = [cells[off + i] for i in range(n)]
        for i, c in enumerate(cs):
            if c is UNDEF: cs[i] = self.undef_read(o, off + i)
        return cs

    def wr(self, p, bs):
        n = len(bs)
        if n == 0: return
        off = self._off(p, n, 'write')
        if off.__class__ is not int:
            raise Unsupported('block write at symbolic offset')
        o = p.o
        if o.ro:
            raise Violation('frame: read-only memory is not written', 'in %s: write to %s+%d' % (self.where(), o.name, off), self.model())
        if o.written is not None:
            o.written.update(range(off, off + n))
        if o.cells.__class__ is list:
            o.cells[off:off + n] = bs
        else:
            for i, b in enumerate(bs): o.cells[off + i] = b

    def wr_app(self, p, t, n):
        """write the n bytes of a wide term"""
        self.wr(p, [tm.ext(t, 8 * n, 8 * i, 8 * i + 8) for i in range(n)] if n > 1 else [t])

    def copy(self, d, s, n):
        if n == 0: return
        self.wr(d, self.rdraw(s, n))

    def rdraw(self, p, n):
        off = self._off(p, n, 'read')
        if off.__class__ is not int: raise Unsupported('block read at symbolic offset')
        cells = p.o.cells
        if cells.__class__ is list: return cells[off:off + n]
        return [cells[off + i] for i in range(n)]

    # ---- arithmetic helpers with UB obligations ----
    def bin_nsw(self, op, w, a, b):
        if a.__class__ is Ptr or b.__class__ is Ptr: return self.ptrarith(op, w, a, b)
        if a.__class__ is int and b.__class__ is int:
            x, y = tm.sx(w, a), tm.sx(w, b)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            self.stats.safety += 1
            if not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                raise Violation('no signed overflow', 'in %s: %d %s %d (i%d)' % (self.where(), x, op, y, w), self.model())
            return r & ((1 << w) - 1)
        if self.check_nsw:
            l1, h1 = tm.srng(w, a); l2, h2 = tm.srng(w, b)
            if op == 'add': lo, hi = l1 + l2, h1 + h2
            elif op == 'sub': lo, hi = l1 - h2, h1 - l2
            else:
                c = (l1 * l2, l1 * h2, h1 * l2, h1 * h2); lo, hi = min(c), max(c)
            self.stats.safety += 1
            if not (-(1 << (w - 1)) <= lo and hi < (1 << (w - 1))):
                h = self.hooks.get('nsw')
                if h is None or not h(self, op, w, a, b):
                    W = 2 * w
                    f = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul}[op]
                    r = f(W, tm.sext(w, W, a), tm.sext(w, W, b))
                    lim = 1 << (w - 1)
                    ok = tm.ult(W, tm.add(W, r, lim), 2 * lim)
                    self.prove(ok, 'no signed overflow', '%s i%d' % (op, w))
        f = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul}[op]
        return f(w, a, b)

    def bin(self, op, w, a, b):
        if a.__class__ is Ptr or b.__class__ is Ptr: return self.ptrarith(op, w, a, b)
        if op in ('shl', 'lshr', 'ashr'):
            if b.__class__ is not int: b = self.norm(b)
            if b.__class__ is int:
                self.stats.safety += 1
                if b >= w: raise Violation('shift amount in range', 'in %s: shift by %d of i%d' % (self.where(), b, w), self.model())
            else:
                self.require(tm.ult(w, b, w), 'shift amount in range')
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            if b.__class__ is int:
                if b == 0: raise Violation('no division by zero', 'in %s' % self.where(), self.model())
            else:
                self.require(tm.ne(w, b, 0), 'no division by zero')
        return BINF[op](w, a, b)

    def ptrarith(self, op, w, a, b):
        if op == 'sub' and a.__class__ is Ptr and b.__class__ is Ptr and a.o is b.o:
            return tm.sub(64, a.off, b.off)
        if op == 'add' and a.__class__ is Ptr and b.__class__ is not Ptr: return Ptr(a.o, tm.add(64, a.off, b))
        if op == 'add' and b.__class__ is Ptr: return Ptr(b.o, tm.add(64, b.off, a))
        if op == 'sub' and a.__class__ is Ptr: return Ptr(a.o, tm.sub(64, a.off, b))
        raise Unsupported('pointer arithmetic ' + op)

    def icmp(self, pred, w, a, b):
        if a.__class__ is Ptr or b.__class__ is Ptr or a.__class__ is FuncPtr or b.__class__ is FuncPtr:
            if a.__class__ is Ptr and b.__class__ is Ptr and a.o is b.o:
                return ICMP[pred](64, a.off, b.off)
            if pred in ('eq', 'ne'):
                if a.__class__ is FuncPtr and b.__class__ is FuncPtr: s = a.name == b.name
                else: s = False        # distinct objects / null
                return int(s) if pred == 'eq' else int(not s)
            raise Unsupported('ordering comparison of unrelated pointers')
        return ICMP[pred](w, a, b)

    def gep(self, p, off):
        if p.__class__ is Ptr:
            o = p.off
            if o.__class__ is int and off.__class__ is int:
                return Ptr(p.o, (o + off) & M64)
            return Ptr(p.o, tm.add(64, o, off))
        if p.__class__ is int and p == 0 and off.__class__ is int and off == 0:
            return 0
        if p.__class__ is int and p == 0:
            # pointer arithmetic on NULL: UB only matters when dereferenced
            return NullOff()
        raise Unsupported('gep on %r' % (p,))

    def select(self, w, c, a, b):
        if c.__class__ is int: return a if c else b
        if a.__class__ is Ptr or b.__class__ is Ptr or a.__class__ is FuncPtr:
            return a if self.branch(c) else b
        return tm.ite(w, c, a, b)

    # ---- calls ----
    def call(self, name, args):
        if name.__class__ is FuncPtr: name = name.name
        c = self.contracts.get(name)
        if c is not None:
            self.stats.contracts.add(name)
            self.fstack.append(name)
            r = c(self, *args)
            self.fstack.pop()
            return r
        b = self.libc.get(name) or BUILTINS.get(name)
        if b is not None:
            return b(self, *args)
        return self.run(name, args)

    def run(self, name, args):
        """execute the real body"""
        f = self.code.get(name)
        if f is None:
            if name not in self.mod.funcs: raise Unsupported('no body or contract for external function ' + str(name))
            f = compile_func(self, self.mod.funcs[name])
            self.code[name] = f
        self.stats.funcs.add(name)
        self.fstack.append(name)
        if len(self.fstack) > 60: raise Unsupported('recursion')
        pi = self.mod.funcs[name].pinfo
        if len(args) != len(pi): raise Unsupported('argument count mismatch calling ' + name)
        for i, inf in enumerate(pi):
            if 'byval' in inf:
                n = self.mod.size(inf['byval'])
                o = self.obj(name + '.byval', n)
                q = Ptr(o, 0); self.copy(q, args[i], n)
                args = list(args); args[i] = q
        r = f(self, *args)
        self.fstack.pop()
        return r

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time limit', 'in ' + self.where())

class NullOff:
    __slots__ = ()

M64 = (1 << 64) - 1

BINF = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul, 'and': tm.and_, 'or': tm.or_, 'xor': tm.xor, 'shl': tm.shl, 'lshr': tm.lshr,
        'ashr': tm.ashr, 'udiv': tm.udiv, 'sdiv': tm.sdiv, 'urem': tm.urem, 'srem': tm.srem}
ICMP = {'eq': tm.eq, 'ne': tm.ne, 'ult': tm.ult, 'ule': tm.ule, 'ugt': lambda w, a, b: tm.ult(w, b, a), 'uge': lambda w, a, b: tm.ule(w, b, a),
        'slt': tm.slt, 'sle': tm.sle, 'sgt': lambda w, a, b: tm.slt(w, b, a), 'sge': lambda w, a, b: tm.sle(w, b, a)}

# ---- substitution --------------------------------------------------------
def subst(t, env, cache):
    """rebuild t with env (T -> value) applied"""
    if t.__class__ is not T: return t
    r = env.get(t)
    if r is not None: return r
    r = cache.get(t)
    if r is not None: return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in cache: stack.pop(); continue
        if x in env: cache[x] = env[x]; stack.pop(); continue
        ch = children(x)
        todo = [c for c in ch if c not in cache and c not in env]
        if todo:
            stack.extend(todo); continue
        stack.pop()
        if not ch: cache[x] = x; continue
        g = lambda c: (env[c] if c in env else cache[c]) if c.__class__ is T else c
        if all(g(c) is c for c in ch): cache[x] = x; continue
        cache[x] = rebuild(x, g)
    return cache[t]

def children(x):
    op = x.op
    if op == 'var': return ()
    if op == 'app':
        out = []
        for y in x.a[1:]:
            _ch(y, out)
        return out
    if op in ('xor', 'and', 'or'): return x.a[1]
    if op == 'add': return [p[0] for p in x.a[1]]
    if op == 'concat': return [v for _, v in x.a if v.__class__ is T]
    return [y for y in x.a if y.__class__ is T]

def _ch(y, out):
    if y.__class__ is T: out.append(y)
    elif y.__class__ is tuple:
        for z in y: _ch(z, out)

def _mapt(y, g):
    if y.__class__ is T: return g(y)
    if y.__class__ is tuple: return tuple(_mapt(z, g) for z in y)
    return y

def rebuild(x, g):
    op, w, a = x.op, x.w, x.a
    if op == 'app': return tm._mk('app', w, (a[0],) + tuple(_mapt(y, g) for y in a[1:]))
    if op == 'xor':
        r = a[0]
        for t in a[1]: r = tm.xor(w, r, g(t))
        return r
    if op == 'and':
        r = a[0]
        for t in a[1]: r = tm.and_(w, r, g(t))
        return r
    if op == 'or':
        r = a[0]
        for t in a[1]: r = tm.or_(w, r, g(t))
        return r
    if op == 'add':
        r = a[0]
        for t, k in a[1]: r = tm.add(w, r, tm.mul(w, g(t), k))
        return r
    if op == 'concat': return tm.concat_list([(pw, g(v)) for pw, v in a])
    if op == 'ext': return tm.ext(g(a[0]), a[0].w, a[1], a[2])
    if op == 'sext': return tm.sext(a[0].w, w, g(a[0]))
    if op == 'rotl': return tm.rotl(w, g(a[0]), a[1])
    if op == 'ite': return tm.ite(w, g(a[0]), g(a[1]), g(a[2]))
    if op == 'eq':
        ww = a[0].w
        return tm.eq(ww, g(a[0]), g(a[1]))
    if op == 'ult': return tm.ult(a[0], g(a[1]), g(a[2]))
    if op == 'slt': return tm.slt(a[0], g(a[1]), g(a[2]))
    if op in ('mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'): return BINF[op](w, g(a[0]), g(a[1]))
    raise Unsupported('rebuild ' + op)

# ---- builtin models (C library) -------------------------------------------
def b_memcpy(E, d, s, n, *_):
    n = conc(E, n, 'memcpy length')
    if n:
        if d.__class__ is Ptr and s.__class__ is Ptr and d.o is s.o and d.off.__class__ is int and s.off.__class__ is int:
            a, b = d.off, s.off
            E.require(1 if (a == b or a + n <= b or b + n <= a) else 0, 'memcpy regions do not overlap', '%s+%d,%d n=%d' % (d.o.name, a, b, n))
        E.copy(d, s, n)
    return d
def b_memmove(E, d, s, n, *_):
    n = conc(E, n, 'memmove length')
    if n: E.copy(d, s, n)
    return d
def b_memset(E, d, v, n, *_):
    n = conc(E, n, 'memset length')
    if v.__class__ is T and v.w > 8: v = tm.ext(v, v.w, 0, 8)
    elif v.__class__ is int: v &= 255
    if n: E.wr(d, [v] * n)
    return d
def b_memcmp(E, a, b, n):
    n = conc(E, n, 'memcmp length')
    x = E.rd(a, n) if n else []; y = E.rd(b, n) if n else []
    e = 1
    for p, q in zip(x, y): e = tm.and_(1, e, tm.eq(8, p, q))
    if E.branch(e): return 0
    r = E.fresh('memcmp', 32)
    E.assume(tm.ne(32, r, 0))
    return r
def b_malloc(E, n):
    n = conc(E, n, 'malloc size')
    if E.log.get('malloc_may_fail', True) and E.fork(2, 'malloc') == 1:
        E.log['malloc_failed'] = True
        return 0
    o = E.obj('heap%d' % E.nobj, n, 'undef', 'heap')
    E.heap.append(o)
    return Ptr(o, 0)
def b_free(E, p):
    if p.__class__ is int and p == 0: return None
    if p.__class__ is not Ptr: raise Violation('free of a valid pointer', 'in %s' % E.where(), E.model())
    E.stats.safety += 1
    if p.o.kind != 'heap' or p.off != 0: raise Violation('free of a heap block', 'in %s: free(%r)' % (E.where(), p), E.model())
    if not p.o.live: raise Violation('no double free', 'in %s' % E.where(), E.model())
    E.log.setdefault('freed', []).append((p.o, list(p.o.cells) if p.o.cells.__class__ is list else None))
    p.o.live = False
    return None
def b_exit(E, *a):
    E.log['exited'] = True
    raise PathEnd('exit')
def conc(E, n, what):
    if n.__class__ is not int: n = E.norm(n)
    if n.__class__ is not int:
        v = E.unique(n)
        if v is None: raise Unsupported('symbolic ' + what + ' in ' + E.where())
        return v
    return n

BUILTINS = {'memcpy': b_memcpy, 'llvm.memcpy.p0.p0.i64': b_memcpy, 'memmove': b_memmove, 'llvm.memmove.p0.p0.i64': b_memmove,
            'memset': b_memset, 'llvm.memset.p0.i64': b_memset, 'memcmp': b_memcmp, 'malloc': b_malloc, 'free': b_free,
            'bcmp': b_memcmp, 'exit': b_exit, 'abort': b_exit,
            'calloc': lambda E, a, b: _calloc(E, a, b),
            'llvm.stacksave.p0': lambda E: 0, 'llvm.stackrestore.p0': lambda E, p: None,
            'llvm.lifetime.start.p0': lambda E, n, p: None, 'llvm.lifetime.end.p0': lambda E, n, p: None,
            'llvm.dbg.declare': lambda E, *a: None, 'llvm.dbg.value': lambda E, *a: None,
            'explicit_bzero': lambda E, d, n: b_memset(E, d, 0, n),
            'llvm.fshl.i64': lambda E, a, b, c: _fshl(E, 64, a, b, c), 'llvm.fshl.i32': lambda E, a, b, c: _fshl(E, 32, a, b, c),
            }
for _w in (8, 16, 32, 64):
    BUILTINS['llvm.umin.i%d' % _w] = (lambda w: lambda E, a, b: tm.ite(w, tm.ult(w, a, b), a, b))(_w)
    BUILTINS['llvm.umax.i%d' % _w] = (lambda w: lambda E, a, b: tm.ite(w, tm.ult(w, a, b), b, a))(_w)
    BUILTINS['llvm.smin.i%d' % _w] = (lambda w: lambda E, a, b: tm.ite(w, tm.slt(w, a, b), a, b))(_w)
    BUILTINS['llvm.smax.i%d' % _w] = (lambda w: lambda E, a, b: tm.ite(w, tm.slt(w, a, b), b, a))(_w)
def _calloc(E, a, b):
    p = b_malloc(E, tm.mul(64, a, b))
    if p.__class__ is Ptr: p.o.cells = [0] * p.o.size
    return p
def _fshl(E, w, a, b, c):
    if c.__class__ is int:
        c %= w
        if a is b or a == b: return tm.rotl(w, a, c)
        return tm.or_(w, tm.shl(w, a, c), tm.lshr(w, b, w - c)) if c else a
    raise Unsupported('fshl')

def _succ(ins):
    k = ins[0]
    if k == 'br': return [ins[2]]
    if k == 'condbr': return [ins[3], ins[4]]
    if k == 'switch': return [ins[4]] + [l for _, l in ins[5]]
    return []

def natural_loops(f):
    """header -> set of blocks of the natural loop (back edge = edge to a block that is not later in layout order)"""
    idx = {b: i for i, b in enumerate(f.order)}
    succ = {b: _succ(f.blocks[b][-1]) for b in f.order}
    pred = {b: [] for b in f.order}
    for b in f.order:
        for s in succ[b]: pred[s].append(b)
    out = {}
    for b in f.order:
        for h in succ[b]:
            if idx[h] <= idx[b]:
                body = out.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(pred[x])
    return out

# ---- compilation of IR to Python ------------------------------------------
def compile_func(E, f):
    mod = E.mod
    consts = {}; sites = []
    def K(v):
        n = 'k%d' % len(consts); consts[n] = v; return n
    regs = {}
    def R(n):
        r = regs.get(n)
        if r is None:
            r = 'v%d' % len(regs); regs[n] = r
        return r
    def width(t):
        return t[1] if t[0] == 'i' else 64
    lines = []
    def val(t, v):
        k = v[0]
        if k == 'r': return R(v[1])
        if k == 'c': return '(%d)' % (v[1] & ((1 << width(t)) - 1))
        if k in ('null', 'zero'): return '(0)'
        if k == 'undef': return 'E.fresh("undef",%d)' % width(t)
        if k == 'g':
            if v[1] in mod.funcs or v[1] in mod.decls: return K(FuncPtr(v[1]))
            return 'Ptr(E.gobj(%r),0)' % v[1]
        if k == 'gep':
            return gepexpr(v[1], v[2])
        raise Unsupported('operand %r' % (v,))
    def gepexpr(bt, vs):
        base = val(*vs[0])
        const = 0; dyn = []
        t = bt
        for j, (it, iv) in enumerate(vs[1:]):
            if j == 0:
                sc = mod.size(bt)
            else:
                if t[0] == 'arr':
                    t = t[2]; sc = mod.size(t)
                elif t[0] == 'st':
                    offs, _ = mod.layout(t)
                    fi = iv[1]
                    const += offs[fi]
                    t = mod.resolve(t)[2][fi]
                    continue
                else:
                    raise Unsupported('gep into %r' % (t,))
            if iv[0] == 'c': const += sc * iv[1]
            else:
                dyn.append((sc, val(it, iv), width(it)))
        if not dyn:
            if const == 0: return base
            return 'E.gep(%s,%d)' % (base, const & M64)
        e = None
        for sc, x, iw in dyn:
            if iw != 64: x = 'sext(%d,64,%s)' % (iw, x)
            q = x if sc == 1 else 'mul64(%s,%d)' % (x, sc)
            e = q if e is None else 'add64(%s,%s)' % (e, q)
        if const: e = 'add64(%s,%d)' % (e, const & M64)
        return 'gepx(E,%s,%s)' % (base, e)
    # blocks
    idx = {b: i for i, b in enumerate(f.order)}
    heads = {}
    bodies = []
    phis = {b: [i for i in f.blocks[b] if i[0] == 'phi'] for b in f.order}
    loops = natural_loops(f) if E.loop_hooks else {}
    merging = E.merging
    if merging:
        import merge
        ipd, livein = merge.analyse(f)
        edges = []
    def jump(src, dst):
        """list of statements"""
        out = []
        ph = phis[dst]
        if ph:
            ls = []; rs = []
            for i in ph:
                for v, b in i[3]:
                    if b == src:
                        l = R(i[1]); r = val(i[2], v)
                        if l != r: ls.append(l); rs.append(r)
                        break
                else:
                    raise Unsupported('phi without edge')
            if ls: out.append(','.join(ls) + ' = ' + ','.join(rs))
        for h, body in loops.items():
            if src in body and dst not in body: out.insert(0, 'E.loop_exit(fr,%d)' % idx[h])
        out.append('bb = %d' % idx[dst])
        return out
    for b in f.order:
        st = []
        term = None
        if b in loops:
            pl = [(R(i[1]), width(i[2]) if i[2][0] == 'i' else 0) for i in phis[b]]
            st.append('_r = E.at_header(%r,%d,fr,(%s),(%s))' % (f.name, idx[b], ''.join(x + ',' for x, _ in pl), ''.join('%d,' % w for _, w in pl)))
            if pl: st.append('if _r is not None: %s = _r' % ''.join(x + ',' for x, _ in pl))
        for ins in f.blocks[b]:
            k = ins[0]; d = R(ins[1]) if ins[1] else None
            if k == 'phi': continue
            if k == 'bin':
                _, _, op, fl, t, a, bb_ = ins
                w = width(t); x = val(t, a); y = val(t, bb_); M = (1 << w) - 1
                if t[0] != 'i': raise Unsupported('vector arithmetic')
                if op in ('add', 'sub', 'mul'):
                    if 'nsw' in fl:
                        if op == 'add':
                            H = 1 << (w - 1)
                            st.append('%s = %s+%s if (%s.__class__ is int and %s.__class__ is int and %s<%d and %s<%d and %s+%s<%d) else E.bin_nsw("add",%d,%s,%s)' % (d, x, y, x, y, x, H, y, H, x, y, H, w, x, y))
                        else:
                            st.append('%s = E.bin_nsw(%r,%d,%s,%s)' % (d, op, w, x, y))
                    else:
                        sym = {'add': '+', 'sub': '-', 'mul': '*'}[op]
                        st.append('%s = (%s%s%s)&%d if (%s.__class__ is int and %s.__class__ is int) else E.bin(%r,%d,%s,%s)' % (d, x, sym, y, M, x, y, op, w, x, y))
                elif op in ('and', 'or', 'xor'):
                    sym = {'and': '&', 'or': '|', 'xor': '^'}[op]
                    st.append('%s = %s%s%s if (%s.__class__ is int and %s.__class__ is int) else %s(%d,%s,%s)' % (d, x, sym, y, x, y, op + '_' if op != 'xor' else 'xor', w, x, y))
                elif op == 'shl' and 'nsw' in fl:
                    st.append('%s = shl_nsw(E,%d,%s,%s)' % (d, w, x, y))
                else:
                    st.append('%s = E.bin(%r,%d,%s,%s)' % (d, op, w, x, y))
            elif k == 'icmp':
                _, _, pred, t, a, bb_ = ins
                w = width(t); x = val(t, a); y = val(t, bb_)
                py = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}
                H = 1 << (w - 1)
                if pred in py:
                    st.append('%s = int(%s%s%s) if (%s.__class__ is int and %s.__class__ is int) else E.icmp(%r,%d,%s,%s)' % (d, x, py[pred], y, x, y, pred, w, x, y))
                else:
                    ps = {'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pred]
                    st.append('%s = int((%s^%d)%s(%s^%d)) if (%s.__class__ is int and %s.__class__ is int) else E.icmp(%r,%d,%s,%s)' % (d, x, H, ps, y, H, x, y, pred, w, x, y))
            elif k == 'cast':
                _, _, op, t, a, t2 = ins
                x = val(t, a)
                if op == 'trunc':
                    n = t2[1]
                    st.append('%s = %s&%d if %s.__class__ is int else ext(%s,%d,0,%d)' % (d, x, (1 << n) - 1, x, x, t[1], n))
                elif op == 'zext':
                    st.append('%s = %s if %s.__class__ is int else zext(%d,%d,%s)' % (d, x, x, t[1], t2[1], x))
                elif op == 'sext':
                    st.append('%s = %s if (%s.__class__ is int and %s<%d) else sext(%d,%d,%s)' % (d, x, x, x, 1 << (t[1] - 1), t[1], t2[1], x))
                elif op in ('bitcast', 'ptrtoint', 'inttoptr'):
                    st.append('%s = %s' % (d, x))
            elif k == 'freeze':
                st.append('%s = %s' % (d, val(ins[2], ins[3])))
            elif k == 'select':
                st.append('%s = E.select(%d,%s,%s,%s)' % (d, width(ins[2]), val(('i', 1), ins[3]), val(ins[2], ins[4]), val(ins[2], ins[5])))
            elif k == 'load':
                n = mod.size(ins[2])
                if ins[2][0] not in ('i', 'ptr'): raise Unsupported('aggregate load')
                if ins[2] == ('i', 1): st.append('%s = ext1(E.load(%s,1))' % (d, val(PTR, ins[3])))
                else: st.append('%s = E.load(%s,%d)' % (d, val(PTR, ins[3]), n))
            elif k == 'store':
                n = mod.size(ins[2])
                if ins[2][0] not in ('i', 'ptr'): raise Unsupported('aggregate store')
                st.append('E.store(%s,%d,%s)' % (val(PTR, ins[4]), n, val(ins[2], ins[3])))
            elif k == 'alloca':
                n = mod.size(ins[2])
                cnt = val(ins[3], ins[4])
                st.append('%s = Ptr(E.obj(%r, conc(E,%s,"alloca")*%d), 0)' % (d, f.name + ins[1], cnt, n))
            elif k == 'gep':
                st.append('%s = %s' % (d, gepexpr(ins[2], ins[3])))
            elif k == 'call':
                _, _, t, callee, args = ins
                avs = [val(at, av) for at, av, inf in args]
                cal = repr(callee[1:].strip('"')) if callee[0] == '@' else R(callee)
                s = 'E.call(%s,(%s))' % (cal, ''.join(a + ',' for a in avs))
                if d: s = d + ' = ' + s
                st.append(s)
            elif k == 'br':
                term = jump(b, ins[2])
            elif k == 'condbr':
                _, _, c, a, bb_ = ins
                x = val(('i', 1), c)
                if merging and ipd.get(b) is not None and a != bb_:
                    J = ipd[b]
                    ea = len(f.order) + len(edges); edges.append(jump(b, a)); edges.append(jump(b, bb_))
                    site = len(sites); sites.append((f.name, idx[b], idx[J], ea, ea + 1, J))
                    term = ['_m = %s if %s.__class__ is int else E.mbranch(%s,k_sites[%d])' % (x, x, x, site),
                            'if _m is None:', '  (@ALL@) = E.merge(core, %s, k_sites[%d], (@ALL@))' % (x, site), '  bb = %d' % idx[J],
                            'elif _m:'] + ['  ' + z for z in jump(b, a)] + ['else:'] + ['  ' + z for z in jump(b, bb_)]
                else: term = ['if (%s if %s.__class__ is int else E.branch(%s)):' % (x, x, x)] + ['  ' + z for z in jump(b, a)] + ['else:'] + ['  ' + z for z in jump(b, bb_)]
            elif k == 'switch':
                _, _, t, v, dflt, cs = ins
                x = val(t, v)
                term = []
                for j, (c, lab) in enumerate(cs):
                    cc = c & ((1 << t[1]) - 1)
                    term += ['%s (%s==%d if %s.__class__ is int else E.branch(eq(%d,%s,%d))):' % ('if' if j == 0 else 'elif', x, cc, x, t[1], x, cc)] + ['  ' + z for z in jump(b, lab)]
                if cs: term += ['else:'] + ['  ' + z for z in jump(b, dflt)]
                else: term += jump(b, dflt)
            elif k == 'ret':
                term = ['return ' + (val(ins[2], ins[3]) if ins[3] else 'None')]
                if merging: term = ['return (RET, %s)' % (val(ins[2], ins[3]) if ins[3] else 'None')]
            elif k == 'unreachable':
                term = ['raise Violation("unreachable is not reached", "in %s" % E.where(), E.model())']
            else:
                raise Unsupported('instruction ' + k)
        bodies.append(st + term)
    if merging:
        bodies += edges
        names = list(regs.values())
        ws = {}
        for _, n in f.params: ws[n] = 0
        for b in f.order:
            for ins in f.blocks[b]:
                ty = {'phi': 2, 'bin': 4, 'cast': 5, 'load': 2, 'select': 2, 'call': 2, 'freeze': 2}.get(ins[0])
                if ins[1] and ty: ws[ins[1]] = ins[ty][1] if ins[ty][0] == 'i' else 0
                if ins[0] == 'icmp': ws[ins[1]] = 1
        for t_, n in f.params:
            if t_[0] == 'i': ws[n] = t_[1]
        rn = list(regs)
        consts['k_sites'] = tuple((fn_, bi, ji, e1, e2, tuple((k, ws.get(r, 0)) for k, r in enumerate(rn) if r in livein[J_])) for fn_, bi, ji, e1, e2, J_ in sites)
        ALL = ''.join(x + ',' for x in names)
        out = ['def core(E, bb, stop, regs):', '  (%s) = regs' % ALL if ALL else '  pass', '  it = 0', '  fr = {}', '  while True:',
               '    if bb == stop: return (%s)' % ALL, '    it += 1', '    if it & 4095 == 0: E.tick()']
    else: out = ['def fn(E%s):' % ''.join(',' + R(n) for _, n in f.params), '  bb = 0', '  it = 0', '  fr = {}', '  while True:',
           '    it += 1', '    if it & 4095 == 0: E.tick()']
    def emit(lo, hi, ind):
        pad = ' ' * ind
        if hi - lo == 1:
            for l in bodies[lo]: out.append(pad + l)
            return
        mid = (lo + hi) // 2
        out.append(pad + 'if bb < %d:' % mid)
        emit(lo, mid, ind + 1)
        out.append(pad + 'else:')
        emit(mid, hi, ind + 1)
    emit(0, len(bodies), 4)
    if merging:
        out += ['def fn(E%s):' % ''.join(',' + R(n) for _, n in f.params), '  return core(E, 0, -1, (%s))[1]' % ''.join((x if x in [R(n) for _, n in f.params] else 'None') + ',' for x in names)]
        out = [l.replace('@ALL@', ALL) for l in out]
    src = '\n'.join(out)
    src = _re.sub(r'\(\d+\)\.__class__ is int and ', '', src)
    src = _re.sub(r' and \(\d+\)\.__class__ is int', '', src)
    ns = dict(Ptr=Ptr, T=T, ext=tm.ext, zext=tm.zext, sext=tm.sext, and_=tm.and_, or_=tm.or_, xor=tm.xor, eq=tm.eq, conc=conc,
              mul64=lambda a, b: tm.mul(64, a, b), add64=lambda a, b: tm.add(64, a, b), gepx=_gepx, shl_nsw=_shl_nsw, ext1=_ext1, Violation=Violation)
    ns.update(consts)
    if merging: ns['RET'] = merge.RET
    ns.update(E.opns)
    exec(compile(src, '<ir:%s>' % f.name, 'exec'), ns)
    return ns['fn']

def _ext1(v):
    return v & 1 if v.__class__ is int else tm.ext(v, 8, 0, 1)

def _gepx(E, p, off):
    if p.__class__ is Ptr and off.__class__ is int and p.off.__class__ is int:
        return Ptr(p.o, (p.off + off) & M64)
    return E.gep(p, off)

def _shl_nsw(E, w, x, y):
    return E.bin('shl', w, x, y)

# ---- path driver -----------------------------------------------------------
def explore(E, fn, maxpaths=20000, budget=None):
    """run fn(E) on every path; fn raises Violation/Undecided on failure"""
    todo = [[]]
    n = 0
    t_end = time.time() + budget if budget else None
    E.deadline = t_end
    root = os.getpid()
    E.todo = todo
    try:
        while todo:
            d = todo.pop()
            E.reset_path(list(d))
            try:
                fn(E)
            except Restart:
                todo[:] = [[]]; n = 0
                continue
            except (PathEnd, Infeasible):
                pass
            except Violation as e:
                if (E.lf is None or E.lf(e.label)) and E.reachable(): raise
            except (Unsupported, Undecided):
                if E.reachable(): raise
            if E.todo is None:      # we became a child explorer: own only the paths found after the snapshot
                todo = []; E.todo = todo
            n += 1
            E.stats.paths += 1
            todo.extend(E.new)
            if n > maxpaths: raise Undecided('path limit', '%d paths' % n)
            if t_end and time.time() > t_end: raise Undecided('time limit', '%d paths explored' % n)
    except BaseException as e:
        if os.getpid() == root: raise
        if isinstance(e, Violation): msg = ('violation', (e.label, e.detail, e.model), E.stats)
        elif isinstance(e, Undecided): msg = ('undecided', (e.label, e.detail), E.stats)
        else:
            import traceback
            msg = ('unsupported', str(e) + traceback.format_exc()[-1500:], E.stats)
        with os.fdopen(E.childfd, 'wb') as f: f.write(pickle.dumps(msg))
        os._exit(0)
    if os.getpid() != root:
        with os.fdopen(E.childfd, 'wb') as f: f.write(pickle.dumps(('ok', None, E.stats)))
        os._exit(0)
    return n
