"""Native replay helpers: builds /repo's sources into a shared object and offers guarded buffers."""
import os, sys, ctypes as C, subprocess, mmap, random, json, faulthandler
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'irv'))
import build
REPO = build.REPO
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
rng = random.Random(SEED)

def compile_so(work, name, extra=(), skip=(), muldefs=False, cflags=()):
    """shared object of the real sources (optionally with stand-ins given first, which take precedence)"""
    out = os.path.join(work, name)
    if muldefs:
        # stand-ins replace the real definitions: their symbols are weakened in the objects that define them
        objs = []
        ps = []
        for f in list(extra) + [os.path.join(REPO, s) for s in build.sources() if s not in skip]:
            o = os.path.join(work, 'n_' + f.strip('/').replace('/', '_') + '.o')
            ps.append((f, o, subprocess.Popen(['gcc', '-w', '-O1', '-g', '-fPIC', '-fsemantic-interposition', '-fno-inline', '-DNDEBUG', '-I', os.path.join(build.VERIF, 'stubs')] + list(cflags) + ['-c', '-o', o, f], stderr=subprocess.PIPE)))
        for f, o, p in ps:
            e = p.communicate()[1]
            if p.returncode: raise Exception('gcc %s: %s' % (f, e.decode()))
            objs.append(o)
        syms = []
        for o in objs[:len(extra)]:
            for l in subprocess.run(['nm', '--defined-only', o], capture_output=True, text=True).stdout.splitlines():
                w = l.split()
                if len(w) == 3 and w[1] == 'T': syms.append(w[2])
        for o in objs[len(extra):]:
            subprocess.run(['objcopy'] + ['--weaken-symbol=' + s for s in syms] + [o], check=True)
        r = subprocess.run(['gcc', '-shared', '-Wl,-Bsymbolic', '-o', out] + objs, capture_output=True, text=True)
    else:
        r = subprocess.run(['gcc', '-w', '-O1', '-g', '-fPIC', '-DNDEBUG', '-shared', '-I', os.path.join(build.VERIF, 'stubs')] + list(cflags) + ['-o', out] + list(extra) +
                           [os.path.join(REPO, s) for s in build.sources() if s not in skip], capture_output=True, text=True)
    if r.returncode: raise Exception('gcc: ' + r.stderr[-2000:])
    return C.CDLL(out)

libc = C.CDLL(None, use_errno=True)
libc.mprotect.argtypes = [C.c_void_p, C.c_size_t, C.c_int]
RECENT = []
class Buf:
    """n bytes ending right before (or starting right after) an inaccessible page"""
    PG = mmap.PAGESIZE
    def __init__(self, n, data=None, ro=False, front=False):
        self.n = n
        RECENT.append(self)
        if len(RECENT) > 64: RECENT.pop(0)
        pages = (n + self.PG - 1) // self.PG + 2
        self.m = mmap.mmap(-1, pages * self.PG)
        self.base = C.addressof(C.c_char.from_buffer(self.m))
        self.addr = self.base + self.PG if front else self.base + (pages - 1) * self.PG - n
        if data is not None: C.memmove(self.addr, bytes(data), n)
        libc.mprotect(self.base, self.PG, 0)
        libc.mprotect(self.base + (pages - 1) * self.PG, self.PG, 0)
        if ro and pages > 2: libc.mprotect(self.base + self.PG, (pages - 2) * self.PG, 1)
    def get(self): return C.string_at(self.addr, self.n)
    def set(self, d): C.memmove(self.addr, bytes(d), len(d))
    @property
    def p(self): return C.c_void_p(self.addr)

def rb(n):
    return bytes(rng.getrandbits(8) for _ in range(n)) if n < 5000 else rng.randbytes(n)

LAST = [None]
def about(s):
    """remember what is being tried (reported if the real code crashes on it)"""
    LAST[0] = s

def fail(msg):
    print('FAILING-INPUT ' + msg); sys.stdout.flush()
    sys.exit(1)

def guarded(fn):
    """run fn in a child; a crash of the real code is a failing input"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            global about
            fn(lambda s: os.write(w, (s[:3000] + '\n\0').encode()) )
            sys.stdout.flush()
            os._exit(0)
        except SystemExit as e:
            sys.stdout.flush(); os._exit(e.code or 0)
        except BaseException as e:
            import traceback; traceback.print_exc(); sys.stderr.flush(); os._exit(3)
    os.close(w)
    last = b''
    with os.fdopen(r, 'rb') as f:
        while True:
            b = f.read1(65536)
            if not b: break
            last = (last + b)[-200000:]
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        parts = last.split(b'\n\0')
        t = parts[-2] if len(parts) > 1 else b'?'
        print('FAILING-INPUT the real code crashed with signal %d on: %s' % (os.WTERMSIG(st), t.decode(errors='replace')))
        return 1
    return os.WEXITSTATUS(st)
