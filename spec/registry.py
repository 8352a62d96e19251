"""Property id -> obligations, native replay driver, assumptions."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Ctx:
    def __init__(self, **k): self.__dict__.update(k)
    @property
    def thorough(self): return self.tier == 'thorough'

TRUSTED = ['clang 18 front end and mem2reg (C to LLVM IR, x86-64 data layout)', 'irv (this IR verifier: parser, memory model, term rewriting)', 'z3',
           'models of malloc/free/memcpy/memmove/memset/memcmp']
ASSUMPTIONS = ['caller buffers do not overlap unless stated', 'machine integers are exact bit-vectors (no mathematical-integer abstraction); signed overflow, shift range and division by zero are obligations',
               'malloc may return NULL; exit() then ends the path (the library exits with status 111)', 'assert() is compiled out as in the Release build']

def known_findings(pid):
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:'):
                # KNOWN-FINDING: property=<id> key=<key> text
                w = l.split(None, 3)
                if w[1] == 'property=' + pid and w[2].startswith('key='): out[w[2][4:]] = w[3]
    return out

COMP = ['Ed25519, Dilithium, SPHINCS+ component operations, SHA3-512, randombytes and the seed expander enter the hybrid layer through their contracts (uninterpreted functions of exactly the bytes they may depend on)']
PROPS = {}

def prop(pid, tasks, native=None, **k):
    PROPS[pid] = dict(tasks=tasks, native=native, **k)

def c01(ctx):
    import p_hybrid_open as p
    return p.tasks(True)
def c02(ctx):
    import p_hybrid_open as p
    return p.tasks(False)
def c03(ctx):
    import p_hybrid_sign as p
    return p.sign_tasks(True) + p.sign_tasks(False)
def c04(ctx):
    import p_hybrid_sign as p
    return p.roundtrip_tasks()
def c06(ctx):
    import p_hybrid_sign as p
    return p.kp_tasks()
POST_ONLY = ('message buffer untouched', 'message length untouched', 'message untouched', 'length untouched')
SAFETY = ('in-bounds access', 'no null dereference', 'valid pointer', 'no use after free', 'frame:', 'no signed overflow', 'shift amount in range', 'no division by zero',
          'memcpy regions', 'unreachable', 'free of', 'no double free', 'time limit', 'path limit')
def only(*prefixes):
    return lambda label: label.startswith(prefixes)
def refilter(ts, lf):
    out = []
    for t in ts:
        t.lf = lf; t.need_cover = (); out.append(t)
    return out
def c05(ctx):
    import p_hybrid_open as o, p_hybrid_sign as s
    return refilter(o.tasks(True) + o.tasks(False) + s.sign_tasks(True) + s.sign_tasks(False) + s.kp_tasks(), only(*(SAFETY + POST_ONLY)))
prop('C05', c05, ('native_hybrid.py', 'C05'), assumptions=COMP)
prop('C01', c01, ('native_hybrid.py', 'C01'), assumptions=COMP)
prop('C02', c02, ('native_hybrid.py', 'C02'), assumptions=COMP)
prop('C03', c03, ('native_hybrid.py', 'C03'), assumptions=COMP)
prop('C04', c04, ('native_hybrid.py', 'C04'), assumptions=COMP + ['each component verifier accepts its own honest signatures (premise of the property)'])
prop('C06', c06, ('native_hybrid.py', 'C06'), assumptions=COMP)

def c07(ctx):
    import p_misc, p_hybrid_sign as hs
    return hs.expand_tasks() + p_misc.expander_tasks()
def c08(ctx):
    import p_misc
    return p_misc.c08_tasks()
def c09(ctx):
    import p_rand
    return p_rand.tasks()
def c10(ctx):
    import p_hash
    return p_hash.tasks(ctx.thorough)
def c17(ctx):
    import p_misc
    return p_misc.c17_tasks()
def c22(ctx):
    import p_misc
    return p_misc.c22_tasks()
SHAKE = ['SHAKE-256 enters through its incremental contract (stream = function of the absorbed bytes); that contract is what C10 proves of fips202.c']
prop('C07', c07, [('native_hybrid.py', 'C07'), ('native_misc.py', 'C07')], assumptions=SHAKE)
prop('C08', c08, [('native_misc.py', 'C08'), ('native_hybrid.py', 'C08')], assumptions=COMP + ['the random source either fills the whole request or reports failure (C09)'])
prop('C09', c09, ('native_misc.py', 'C09'), assumptions=['getrandom(2): returns -1 with errno, or r with 0 <= r <= min(request, 33554431) after writing r bytes', 'the code path compiled on this platform (glibc getrandom); the Windows, BSD, WASI, Emscripten and /dev/urandom variants are not compiled here', 'buffers smaller than 2^63 bytes'])
prop('C10', c10, ('native_misc.py', 'C10'), assumptions=['message and output lengths below 2^48 blocks'])
prop('C17', c17, ('native_misc.py', 'C17'), assumptions=['the detached signer and verifier enter through their contracts (functions of key, message and signature bytes)'])
prop('C22', c22, ('native_misc.py', 'C22'), assumptions=['compiled for x86-64 with a stand-in emscripten.h (EMSCRIPTEN_KEEPALIVE only marks exports)'])

def c11(ctx):
    import p_dil
    import p_vec
    return p_dil.scalar_tasks() + p_dil.poly_tasks() + p_vec.tasks11()
def c12(ctx):
    import p_pack
    return p_pack.tasks(ctx.thorough)
def c13(ctx):
    import p_ntt, p_dil, p_vec
    return p_ntt.tasks() + p_vec.tasks13() + [t for t in p_dil.scalar_tasks() if 'montgomery' in t.name]
def c14(ctx):
    import p_samp, p_pack
    return p_samp.tasks(ctx.thorough) + [t for t in p_pack.tasks() if t.name.startswith('polyz_unpack')]
def c15(ctx):
    import p_dilsign
    return p_dilsign.tasks() + c11(ctx) + c12(ctx) + c13(ctx) + c14(ctx)
prop('C11', c11, ('native_dil.py', 'C11'))
prop('C12', c12, ('native_dil.py', 'C12'))
prop('C13', c13, ('native_dil.py', 'C13'), assumptions=['ring lemma: a polynomial is determined by its values at the 256 roots of X^256+1 modulo q (Chinese remainder), so equal evaluations mean equal products'])
prop('C14', c14, ('native_dil.py', 'C14'), assumptions=SHAKE)
prop('C15', c15, ('native_dil.py', 'C15'), assumptions=SHAKE + ['the expanded matrix, short vectors, masks and challenge enter through the sampler contracts proved in C14; transforms and products through those of C13; both are discharged again in this check'])

def c16(ctx):
    import p_spx
    return p_spx.tasks(ctx.thorough)
prop('C16', c16, ('native_spx.py', 'C16'), assumptions=['SHAKE-256 enters through its contract (function of exactly the bytes absorbed; proved of fips202.c in C10)', 'message length below 2^62', 'composition of the lemmas (chain completion, authentication path, single top tree) into `honest signatures are accepted` is the short argument given in DESIGN.md'])

def c19(ctx):
    import p_c25519, p_field
    return p_c25519.tasks() + p_field.tasks()
prop('C19', c19, ('native_nacl.py', 'C19'), assumptions=['the Edwards addition law with these coefficients is complete and associative on the curve (d is not a square), so that sums of known multiples are multiples; the contracts prove the formulas',
    'x^(p-2) is the inverse of x for x nonzero (Fermat)', 'limbs handed to multiplication are within +-2^26, to packing within +-2^20: obligations at every call'])

def c18(ctx):
    import p_sha, p_ed
    return p_ed.tasks() + p_sha.tasks() + c19(ctx)
prop('C18', c18, ('native_nacl.py', 'C18'), assumptions=['messages shorter than 2^30 bytes in signing and opening (opening counts with an int); SHA-512 for every length below 2^55 bytes',
    'signing and opening are proved over the contracts of the hash, scalar and group functions (uninterpreted functions of exactly the bytes given); those contracts are discharged in the same check (p_sha, and the C19 obligations with their assumptions)'])
