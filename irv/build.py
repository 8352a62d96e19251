"""Builds the verification input from /repo's current working tree: LLVM IR of every library source."""
import os, re, subprocess, sys, tempfile, shutil, concurrent.futures as cf
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class BuildError(Exception): pass

def sources():
    """library sources: the SOURCE_FILES list of CMakeLists.txt (what the shipped library is made of) plus the wasm wrapper"""
    s = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'set\s*\(\s*SOURCE_FILES\s+([^)]*)\)', s)
    out = []
    if m:
        for x in re.findall(r'"([^"]+)"|([^\s"]+)', m.group(1)):
            x = x[0] or x[1]
            if x.endswith('.c'): out.append(x)
    if not out:
        raise BuildError('cannot find SOURCE_FILES in CMakeLists.txt')
    if os.path.exists(os.path.join(REPO, 'wasm/hybrid-pqc.c')): out.append('wasm/hybrid-pqc.c')
    return out

CFLAGS = ['-w', '-O0', '-Xclang', '-disable-O0-optnone', '-std=gnu11', '-DNDEBUG', '-fno-strict-aliasing', '-I', os.path.join(VERIF, 'stubs')]

def build_ir(workdir, srcs=None, passes='mem2reg'):
    srcs = srcs or sources()
    lls = []
    def one(f):
        o = os.path.join(workdir, f.replace('/', '_') + '.ll')
        r = subprocess.run(['clang'] + CFLAGS + ['-S', '-emit-llvm', '-o', o, os.path.join(REPO, f)], capture_output=True, text=True)
        if r.returncode: raise BuildError('clang failed on %s:\n%s' % (f, r.stderr))
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(one, srcs))
    allll = os.path.join(workdir, 'all.ll')
    r = subprocess.run(['llvm-link', '-S', '-o', allll] + lls, capture_output=True, text=True)
    if r.returncode: raise BuildError('llvm-link: ' + r.stderr)
    out = os.path.join(workdir, 'all2.ll')
    r = subprocess.run(['opt', '-S', '-passes=' + passes, '-o', out, allll], capture_output=True, text=True)
    if r.returncode: raise BuildError('opt: ' + r.stderr)
    return out
