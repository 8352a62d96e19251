"""Hash-consed bit-vector terms with canonicalising constructors.

Constants are plain Python ints (unsigned, normalised to the width that the context gives).
A T has: op, w (width), a (argument tuple), id, and an unsigned interval [lo,hi].
"""
import itertools

class T:
    __slots__ = ('op', 'w', 'a', 'id', 'lo', 'hi')
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

_tab = {}
_ids = itertools.count(1)

def reset():
    _tab.clear()

def _mk(op, w, a, lo=0, hi=None):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.w = w; t.a = a; t.id = next(_ids)
        t.lo = lo
        t.hi = ((1 << w) - 1) if hi is None else hi
        _tab[k] = t
    return t

def isT(x):
    return x.__class__ is T

def rng(w, x):
    if x.__class__ is int:
        return x, x
    return x.lo, x.hi

SR = {}      # signed ranges assumed for variables on the current path

def srng(w, x):
    if x.__class__ is T and x.op in ('var', 'app'):
        r = SR.get(x)
        if r is not None: return r
    lo, hi = rng(w, x)
    H = 1 << (w - 1)
    if hi < H:
        return lo, hi
    if lo >= H:
        return lo - 2 * H, hi - 2 * H
    if x.__class__ is T and x.op == 'sext':
        return srng(x.a[0].w if isT(x.a[0]) else w, x.a[0])
    if x.__class__ is T and x.op == 'add':
        # try signed sum
        sl = sh = 0
        cst, ts = _addparts(w, x)
        c = cst if cst < H else cst - 2 * H
        sl = sh = c
        ok = True
        for k, t in ts.items():
            kk = k  # (coef keyed below)
        for t, co in ts.items():
            cc = co if co < H else co - 2 * H
            l, h = srng(w, t)
            if cc >= 0:
                sl += cc * l; sh += cc * h
            else:
                sl += cc * h; sh += cc * l
        if -H <= sl and sh < H:
            return sl, sh
    if x.__class__ is T and x.op == 'ashr' and x.a[1].__class__ is int:
        l, h = srng(w, x.a[0])
        return l >> x.a[1], h >> x.a[1]
    if x.__class__ is T and x.op == 'ite':
        l1, h1 = srng(w, x.a[1]); l2, h2 = srng(w, x.a[2])
        return min(l1, l2), max(h1, h2)
    if x.__class__ is T and x.op == 'mul':
        l1, h1 = srng(w, x.a[0]); l2, h2 = srng(w, x.a[1])
        c = [l1*l2, l1*h2, h1*l2, h1*h2]
        if -H <= min(c) and max(c) < H:
            return min(c), max(c)
    return -H, H - 1

def var(name, w):
    return _mk('var', w, (name,))

def app(name, w, args):
    """uninterpreted application; args is a tuple of hashable things"""
    return _mk('app', w, (name,) + tuple(args))

# ---- arithmetic -------------------------------------------------------
def _addparts(w, x):
    """-> (const, {term: coef})"""
    if x.__class__ is int:
        return x, {}
    if x.op == 'add':
        return x.a[0], dict(x.a[1])
    return 0, {x: 1}

def _addbuild(w, c, parts):
    M = (1 << w) - 1
    c &= M
    parts = {t: k & M for t, k in parts.items()}
    parts = {t: k for t, k in parts.items() if k}
    if not parts:
        return c
    if c == 0 and len(parts) == 1:
        (t, k), = parts.items()
        if k == 1:
            return t
    items = tuple(sorted(parts.items(), key=lambda p: p[0].id))
    lo = hi = c
    for t, k in items:
        lo += t.lo * k; hi += t.hi * k
    if hi > M:
        # negative constant with non-wrapping result?
        if c > M // 2:
            lo2 = lo - M - 1; hi2 = hi - M - 1
            if lo2 >= 0 and hi2 <= M:
                return _mk('add', w, (c, items), lo2, hi2)
        lo, hi = 0, M
    return _mk('add', w, (c, items), lo, hi)

def add(w, x, y):
    if x.__class__ is int and y.__class__ is int:
        return (x + y) & ((1 << w) - 1)
    c1, p1 = _addparts(w, x)
    c2, p2 = _addparts(w, y)
    if len(p1) < len(p2):
        p1, p2 = p2, p1
    for t, k in p2.items():
        p1[t] = p1.get(t, 0) + k
    return _addbuild(w, c1 + c2, p1)

def neg(w, x):
    if x.__class__ is int:
        return (-x) & ((1 << w) - 1)
    c, p = _addparts(w, x)
    return _addbuild(w, -c, {t: -k for t, k in p.items()})

def sub(w, x, y):
    if x.__class__ is int and y.__class__ is int:
        return (x - y) & ((1 << w) - 1)
    return add(w, x, neg(w, y))

def mul(w, x, y):
    M = (1 << w) - 1
    if x.__class__ is int:
        if y.__class__ is int:
            return (x * y) & M
        x, y = y, x
    if y.__class__ is int:
        if y == 0: return 0
        if y == 1: return x
        c, p = _addparts(w, x)
        return _addbuild(w, c * y, {t: k * y for t, k in p.items()})
    if x.id > y.id:
        x, y = y, x
    hi = x.hi * y.hi
    if hi <= M:
        return _mk('mul', w, (x, y), x.lo * y.lo, hi)
    return _mk('mul', w, (x, y))

def udiv(w, x, y):
    if x.__class__ is int and y.__class__ is int:
        return x // y
    if y.__class__ is int:
        if y == 1: return x
        if y & (y - 1) == 0:
            return lshr(w, x, y.bit_length() - 1)
        lo, hi = rng(w, x)
        if lo // y == hi // y:
            return lo // y
        return _mk('udiv', w, (x, y), lo // y, hi // y)
    return _mk('udiv', w, (x, y))

def urem(w, x, y):
    if x.__class__ is int and y.__class__ is int:
        return x % y
    if y.__class__ is int:
        if y & (y - 1) == 0:
            return and_(w, x, y - 1)
        lo, hi = rng(w, x)
        if hi < y: return x
        return _mk('urem', w, (x, y), 0, y - 1)
    return _mk('urem', w, (x, y))

def sx(w, v):
    return v - (1 << w) if v >> (w - 1) else v

def sdiv(w, x, y):
    if x.__class__ is int and y.__class__ is int:
        a, b = sx(w, x), sx(w, y)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return q & ((1 << w) - 1)
    lo, hi = rng(w, x)
    if y.__class__ is int and hi < (1 << (w - 1)) and y < (1 << (w - 1)):
        return udiv(w, x, y)
    return _mk('sdiv', w, (x, y))

def srem(w, x, y):
    if x.__class__ is int and y.__class__ is int:
        a, b = sx(w, x), sx(w, y)
        r = abs(a) % abs(b)
        if a < 0: r = -r
        return r & ((1 << w) - 1)
    lo, hi = rng(w, x)
    if y.__class__ is int and hi < (1 << (w - 1)) and y < (1 << (w - 1)):
        return urem(w, x, y)
    return _mk('srem', w, (x, y))

# ---- bitwise -----------------------------------------------------------
def _nary_parts(op, x):
    if x.op == op:
        return x.a
    return (0 if op != 'and' else (1 << x.w) - 1, (x,))

def not_(w, x):
    return xor(w, x, (1 << w) - 1)

def xor(w, x, y):
    if x.__class__ is int:
        if y.__class__ is int:
            return x ^ y
        x, y = y, x
    if y.__class__ is int:
        if y == 0: return x
        if x.op == 'concat' :
            return _mapconcat(w, x, y, xor)
        c, ts = _nary_parts('xor', x)
        return _xorbuild(w, c ^ y, ts)
    if x is y: return 0
    if x.op == 'concat' or y.op == 'concat':
        r = _zipconcat(w, x, y, xor)
        if r is not None: return r
    c1, t1 = _nary_parts('xor', x)
    c2, t2 = _nary_parts('xor', y)
    s = set(t1)
    for t in t2:
        if t in s: s.discard(t)
        else: s.add(t)
    return _xorbuild(w, c1 ^ c2, tuple(sorted(s, key=lambda t: t.id)))

def _xorbuild(w, c, ts):
    if not ts: return c
    if c == 0 and len(ts) == 1: return ts[0]
    hb = c
    for t in ts: hb |= t.hi
    return _mk('xor', w, (c, tuple(ts)), 0, (1 << hb.bit_length()) - 1)

def and_(w, x, y):
    M = (1 << w) - 1
    if x.__class__ is int:
        if y.__class__ is int:
            return x & y
        x, y = y, x
    if y.__class__ is int:
        if y == 0: return 0
        if y == M: return x
        if (y & (y + 1)) == 0:       # low mask
            k = y.bit_length()
            if x.hi <= y: return x
            return zext(k, w, trunc(w, k, x))
        # contiguous mask / high mask: split into pieces
        tz = (y & -y).bit_length() - 1
        yy = y >> tz
        if (yy & (yy + 1)) == 0:
            k = yy.bit_length()
            return concat_list(([(ext(x, w, tz + k, w), 0)] and ([(w - tz - k, 0)] if w - tz - k else [])) +
                               [(k, ext(x, w, tz, tz + k))] + ([(tz, 0)] if tz else []))
        if x.op == 'concat':
            return _mapconcat(w, x, y, and_)
        c, ts = _nary_parts('and', x)
        return _andbuild(w, c & y, ts)
    if x is y: return x
    if x.op == 'concat' or y.op == 'concat':
        r = _zipconcat(w, x, y, and_)
        if r is not None: return r
    c1, t1 = _nary_parts('and', x)
    c2, t2 = _nary_parts('and', y)
    s = set(t1) | set(t2)
    return _andbuild(w, c1 & c2, tuple(sorted(s, key=lambda t: t.id)))

def _andbuild(w, c, ts):
    if c == 0: return 0
    M = (1 << w) - 1
    if c == M and len(ts) == 1: return ts[0]
    # x & ~x
    st = set(ts)
    for t in ts:
        if t.op == 'xor' and t.a[0] == M and len(t.a[1]) == 1 and t.a[1][0] in st:
            return 0
    hi = c
    for t in ts: hi = min(hi, (1 << t.hi.bit_length()) - 1) if t.hi < hi else hi
    return _mk('and', w, (c, tuple(ts)), 0, hi)

def or_(w, x, y):
    M = (1 << w) - 1
    if x.__class__ is int:
        if y.__class__ is int:
            return x | y
        x, y = y, x
    if y.__class__ is int:
        if y == 0: return x
        if y == M: return M
        if w > 1 or x.op == 'concat':
            r = _zipconcat(w, x, y, or_)
            if r is not None: return r
        c, ts = _nary_parts('or', x)
        return _orbuild(w, c | y, ts)
    if x is y: return x
    if w > 1:
        r = _rotmatch(w, x, y)
        if r is not None: return r
        r = _zipconcat(w, x, y, or_)
        if r is not None: return r
    c1, t1 = _nary_parts('or', x)
    c2, t2 = _nary_parts('or', y)
    s = set(t1) | set(t2)
    return _orbuild(w, c1 | c2, tuple(sorted(s, key=lambda t: t.id)))

def _orbuild(w, c, ts):
    M = (1 << w) - 1
    if c == M: return M
    if c == 0 and len(ts) == 1: return ts[0]
    st = set(ts)
    for t in ts:
        if t.op == 'xor' and t.a[0] == M and len(t.a[1]) == 1 and t.a[1][0] in st:
            return M
    hb = c
    for t in ts: hb |= (1 << t.hi.bit_length()) - 1
    return _mk('or', w, (c, tuple(ts)), 0, hb)

def _rotmatch(w, x, y):
    return None

# ---- concat / extract ---------------------------------------------------
# concat: a = ((w_hi, v_hi), ..., (w_lo, v_lo)), most significant first; v int or T
def concat_list(parts):
    out = []
    W = 0
    for pw, v in parts:
        W += pw
    for pw, v in parts:
        if pw == 0: continue
        if v.__class__ is T and v.op == 'concat':
            for q in v.a: _cc_push(out, q[0], q[1])
        else:
            _cc_push(out, pw, v)
    if len(out) == 1:
        return out[0][1]
    return _ccfinish(W, out)

def _cc_push(out, pw, v):
    if out:
        qw, u = out[-1]
        if v.__class__ is int and u.__class__ is int:
            out[-1] = (qw + pw, (u << pw) | v); return
        if v.__class__ is T and u.__class__ is T:
            # adjacent extracts of one term
            b1, l1, h1 = _extparts(u); b2, l2, h2 = _extparts(v)
            if b1 is b2 and l1 == h2:
                out[-1] = (qw + pw, ext(b1, b1.w, l2, h1)); 
                # may have become mergeable further left; single pass is enough for in-order pushes
                return
    out.append((pw, v))

def _ccfinish(W, out):
    # rotation: (ext(x,0,k) , ext(x,k,w)) -> rotl
    if len(out) == 2 and out[0][1].__class__ is T and out[1][1].__class__ is T:
        b1, l1, h1 = _extparts(out[0][1]); b2, l2, h2 = _extparts(out[1][1])
        if b1 is b2 and b1.w == W and l1 == 0 and h2 == W and h1 == l2:
            return rotl(W, b1, W - h1)
    if len(out) == 2 and out[0][1] == 0 and out[0][1].__class__ is int and out[1][1].__class__ is T:
        b, l, h = _extparts(out[1][1])
        if l == 0 and b.w == W and b.hi < (1 << h):
            return b
    lo = hi = 0
    for pw, v in out:
        l, h = rng(pw, v)
        lo = (lo << pw) | l; hi = (hi << pw) | h
    return _mk('concat', W, tuple(out), lo, hi)

def _extparts(x):
    if x.op == 'ext':
        return x.a[0], x.a[1], x.a[2]
    return x, 0, x.w

def rotl(w, x, k):
    k %= w
    if k == 0: return x
    if x.__class__ is int:
        return ((x << k) | (x >> (w - k))) & ((1 << w) - 1)
    if x.op == 'rotl':
        return rotl(w, x.a[0], x.a[1] + k)
    return _mk('rotl', w, (x, k))

def ext(x, w, lo, hi):
    """bits [lo,hi) of x (width w)"""
    if x.__class__ is int:
        return (x >> lo) & ((1 << (hi - lo)) - 1)
    if lo == 0 and hi == w:
        return x
    op = x.op
    n = hi - lo
    if op == 'ext':
        return ext(x.a[0], x.a[0].w, x.a[1] + lo, x.a[1] + hi)
    if op == 'concat':
        pos = w
        parts = []
        for pw, v in x.a:
            top = pos; bot = pos - pw
            a = max(lo, bot); b = min(hi, top)
            if a < b:
                parts.append((b - a, ext(v, pw, a - bot, b - bot)))
            pos = bot
        return concat_list(parts)
    if op == 'add' and lo == 0 and not any(k & ((1 << hi) - 1) for _, k in x.a[1]): return x.a[0] & ((1 << hi) - 1)
    if op == 'sext':
        iw = x.a[0].w
        if hi <= iw:
            return ext(x.a[0], iw, lo, hi)
        if lo < iw and lo == 0:
            return sext(iw, n, x.a[0])
    if op == 'xor' or op == 'and' or op == 'or':
        # distribute only over plain data, or when a piece becomes constant (keeps store/load of whole words mergeable)
        if (op == 'xor' and all(t.op in ('concat', 'ext', 'app') for t in x.a[1])) or any(t.op == 'concat' for t in x.a[1]) and any(ext(t, w, lo, hi).__class__ is int for t in x.a[1] if t.op == 'concat'):
            ps = [ext(t, w, lo, hi) for t in x.a[1]]
            f = xor if op == 'xor' else and_ if op == 'and' else or_
            r = (x.a[0] >> lo) & ((1 << n) - 1)
            for p in ps:
                r = f(n, r, p)
            return r
    if op == 'ite' and (x.a[1].__class__ is int or x.a[2].__class__ is int):
        return ite(n, x.a[0], ext(x.a[1], w, lo, hi), ext(x.a[2], w, lo, hi))
    if op == 'ashr' and x.a[1].__class__ is int and hi + x.a[1] <= w:
        return ext(x.a[0], w, lo + x.a[1], hi + x.a[1])
    if op == 'rotl':
        # bits of a rotation = bits of the base
        k = x.a[1]
        l2 = (lo - k) % w
        if l2 + n <= w:
            return ext(x.a[0], w, l2, l2 + n)
        return concat_list([(l2 + n - w, ext(x.a[0], w, 0, l2 + n - w)), (w - l2, ext(x.a[0], w, l2, w))])
    if (x.hi >> lo) == (x.lo >> lo):
        return (x.lo >> lo) & ((1 << n) - 1)
    if x.hi < (1 << lo):
        return 0
    h = None; l = 0
    if x.hi < (1 << hi):
        h = x.hi >> lo; l = x.lo >> lo
        # trim to the significant part so that zext/ext compose canonically
        k = x.hi.bit_length()
        if k < hi:
            return concat_list([(hi - k, 0), (k - lo, _mk('ext', k - lo, (x, lo, k), l, h))]) 
    return _mk('ext', n, (x, lo, hi), l, h)

def trunc(w, n, x):
    return ext(x, w, 0, n)

def zext(w, n, x):
    if x.__class__ is int: return x
    if n == w: return x
    return concat_list([(n - w, 0), (w, x)])

def sext(w, n, x):
    if x.__class__ is int:
        return sx(w, x) & ((1 << n) - 1)
    if n == w: return x
    if x.hi < (1 << (w - 1)):
        return zext(w, n, x)
    if x.op == 'sext':
        return sext(x.a[0].w, n, x.a[0])
    if w == 1:
        return ite(n, x, (1 << n) - 1, 0)
    if x.op == 'ite' and (x.a[1].__class__ is int or x.a[2].__class__ is int):
        return ite(n, x.a[0], sext(w, n, x.a[1]), sext(w, n, x.a[2]))
    return _mk('sext', n, (x,))

def _cuts(w, x):
    """set of cut positions of a concat (from lsb)"""
    if x.__class__ is int: return None
    if x.op != 'concat': return set()
    s = set(); pos = w
    for pw, v in x.a:
        pos -= pw
        if pos: s.add(pos)
    return s

def _mapconcat(w, x, y, f):
    return _zipconcat(w, x, y, f)

def _intcuts(w, y):
    """cut an int where runs of 0s/1s longer than 1 byte-ish change: all transitions"""
    s = set(); prev = y & 1
    for i in range(1, w):
        b = (y >> i) & 1
        if b != prev: s.add(i); prev = b
    return s

def _zipconcat(w, x, y, f):
    if x.__class__ is int: x, y = y, x
    cx = _cuts(w, x)
    if y.__class__ is int:
        if f is or_:
            # constant bits: cut at transitions
            cs = cx | _intcuts(w, y) if (cx or y) else cx
        else:
            cs = cx
        if not cs: return None
    else:
        cy = _cuts(w, y)
        cs = cx | cy
        if not cs: return None
    pts = sorted(cs) + [w]
    parts = []
    lo = 0
    # only worthwhile when some piece simplifies (one side constant)
    simp = False
    ps = []
    for hi in pts:
        a = ext(x, w, lo, hi); b = ext(y, w, lo, hi)
        if a.__class__ is int or b.__class__ is int: simp = True
        ps.append((hi - lo, a, b)); lo = hi
    if not simp and f is not xor and f is not and_ : return None
    if not simp: return None
    for pw, a, b in ps:
        parts.append((pw, f(pw, a, b)))
    return concat_list(parts[::-1])

def shl(w, x, y):
    if y.__class__ is int:
        if y >= w: return 0
        if y == 0: return x
        if x.__class__ is int:
            return (x << y) & ((1 << w) - 1)
        return concat_list([(w - y, ext(x, w, 0, w - y)), (y, 0)])
    return _mk('shl', w, (x, y))

def lshr(w, x, y):
    if y.__class__ is int:
        if y >= w: return 0
        if y == 0: return x
        if x.__class__ is int:
            return x >> y
        return concat_list([(y, 0), (w - y, ext(x, w, y, w))])
    return _mk('lshr', w, (x, y))

def ashr(w, x, y):
    if y.__class__ is int:
        if y == 0: return x
        if x.__class__ is int:
            return (sx(w, x) >> min(y, w - 1)) & ((1 << w) - 1)
        if x.hi < (1 << (w - 1)):
            return lshr(w, x, y)
        if x.op == 'sext' :
            iw = x.a[0].w
            if y < iw:
                return sext(iw - y, w, ext(x.a[0], iw, y, iw))
            return sext(1, w, ext(x.a[0], iw, iw - 1, iw))
        if x.op == 'ashr' and x.a[1].__class__ is int:
            return ashr(w, x.a[0], min(w - 1, x.a[1] + y))
        return _mk('ashr', w, (x, y))
    return _mk('ashr', w, (x, y))

# ---- booleans (width 1) --------------------------------------------------
def eq(w, x, y):
    if x.__class__ is int:
        if y.__class__ is int:
            return 1 if x == y else 0
        x, y = y, x
    if x is y: return 1
    if w == 1:
        return not_(1, xor(1, x, y))
    if y.__class__ is int:
        if y < x.lo or y > x.hi: return 0
        if x.op == 'ite':
            a, b = x.a[1], x.a[2]
            if a.__class__ is int and b.__class__ is int:
                if a == y: return x.a[0] if b != y else 1
                return not_(1, x.a[0]) if b == y else 0
        if x.op == 'concat':
            # split
            r = 1; pos = w
            nz = [p for p in x.a if p[1].__class__ is not int]
            for pw, v in x.a:
                pos -= pw
                if v.__class__ is int and v != ((y >> pos) & ((1 << pw) - 1)):
                    return 0
            if len(nz) < len(x.a) :
                pos = w
                for pw, v in x.a:
                    pos -= pw
                    if v.__class__ is not int:
                        r = and_(1, r, eq(pw, v, (y >> pos) & ((1 << pw) - 1)))
                return r
        if x.op == 'sext':
            iw = x.a[0].w
            if sx(iw, y & ((1 << iw) - 1)) & ((1 << w) - 1) != y: return 0
            return eq(iw, x.a[0], y & ((1 << iw) - 1))
        if x.op == 'xor' and x.a[0]:
            return eq(w, xor(w, x, x.a[0]), y ^ x.a[0])
        if x.op == 'add' and len(x.a[1]) == 1 and x.a[1][0][1] == 1:
            return eq(w, x.a[1][0][0], (y - x.a[0]) & ((1 << w) - 1))
        return _mk('eq', 1, (x, y))
    if x.hi < y.lo or y.hi < x.lo: return 0
    if x.id > y.id: x, y = y, x
    return _mk('eq', 1, (x, y))

def ne(w, x, y):
    return not_(1, eq(w, x, y))

def ult(w, x, y):
    if x.__class__ is int and y.__class__ is int:
        return 1 if x < y else 0
    lx, hx = rng(w, x); ly, hy = rng(w, y)
    if hx < ly: return 1
    if lx >= hy: return 0
    if x is y: return 0
    if y.__class__ is int and y == 1:
        return eq(w, x, 0)
    # strip common zero high bits
    if w > 1:
        k = max(hx, hy).bit_length()
        if k < w:
            return ult(k, ext(x, w, 0, k), ext(y, w, 0, k))
    return _mk('ult', 1, (w, x, y))

def ule(w, x, y):
    return not_(1, ult(w, y, x))

def slt(w, x, y):
    if x.__class__ is int and y.__class__ is int:
        return 1 if sx(w, x) < sx(w, y) else 0
    lx, hx = srng(w, x); ly, hy = srng(w, y)
    if hx < ly: return 1
    if lx >= hy: return 0
    if lx >= 0 and ly >= 0:
        return ult(w, x, y)
    if x is y: return 0
    return _mk('slt', 1, (w, x, y))

def sle(w, x, y):
    return not_(1, slt(w, y, x))

def ite(w, c, x, y):
    if c.__class__ is int:
        return x if c else y
    if x is y or (x.__class__ is int and y.__class__ is int and x == y):
        return x
    if c.op == 'xor' and c.a[0] == 1 and len(c.a[1]) == 1:
        return ite(w, c.a[1][0], y, x)
    if w == 1:
        if x.__class__ is int:
            return or_(1, c, y) if x else and_(1, not_(1, c), y)
        if y.__class__ is int:
            return or_(1, not_(1, c), x) if y else and_(1, c, x)
    lx, hx = rng(w, x); ly, hy = rng(w, y)
    return _mk('ite', w, (c, x, y), min(lx, ly), max(hx, hy))

def byte(x, w, i):
    """byte i (little endian) of x"""
    if x.__class__ is int:
        return (x >> (8 * i)) & 255
    return ext(x, w, 8 * i, 8 * i + 8)

def from_bytes(cells):
    """little-endian list of byte values -> term"""
    if all(c.__class__ is int for c in cells):
        return int.from_bytes(bytes(cells), 'little')
    return concat_list([(8, c) for c in reversed(cells)])

# ---- printing ------------------------------------------------------------
def show(t, d=4):
    if t.__class__ is int: return hex(t) if t > 9 else str(t)
    if t.__class__ is tuple: return '<%d>' % len(t)
    if t.__class__ is not T: return str(t)
    if t.op == 'var': return t.a[0]
    if d == 0: return '..%d' % t.id
    if t.op == 'app':
        return '%s(%s)' % (t.a[0], ','.join(show(x, d - 1) if isT(x) or x.__class__ is int else ('[%d]' % len(x) if x.__class__ is tuple else str(x)) for x in t.a[1:]))
    if t.op == 'ext': return '%s[%d:%d]' % (show(t.a[0], d - 1), t.a[1], t.a[2])
    if t.op in ('xor', 'and', 'or'):
        return '(' + (' %s ' % t.op).join(([show(t.a[0])] if t.a[0] not in ((0,) if t.op != 'and' else ((1 << t.w) - 1,)) else []) + [show(x, d - 1) for x in t.a[1]]) + ')'
    if t.op == 'add':
        return '(' + '+'.join([show(t.a[0])] + [show(x, d - 1) + ('*%d' % sx(t.w, k) if k != 1 else '') for x, k in t.a[1]]) + ')'
    if t.op == 'concat':
        return '{' + ','.join(show(v, d - 1) + ':%d' % pw for pw, v in t.a) + '}'
    return '%s(%s)' % (t.op, ','.join(show(x, d - 1) for x in t.a))
