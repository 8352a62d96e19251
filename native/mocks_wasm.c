/* stand-ins recording how the wrappers call the library; malloc/free are renamed by -D */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
typedef unsigned char u8; typedef unsigned long long u64;
u64 rec[8]; int nrec, rc, which, ncalls;
static void R(int w, int n, u64 a, u64 b, u64 c, u64 d, u64 e) { which = w; nrec = n; rec[0] = a; rec[1] = b; rec[2] = c; rec[3] = d; rec[4] = e; ncalls++; }
#define P(x) ((u64)(uintptr_t)(x))
int crypto_sign_dilithium_ed25519_sphincs_keypair_seed(u8*a,u8*b,u8*c){R(1,3,P(a),P(b),P(c),0,0);return rc;}
int crypto_sign_dilithium_ed25519_sphincs_keypair(u8*a,u8*b){R(2,2,P(a),P(b),0,0,0);return rc;}
int crypto_sign_compact_dilithium_ed25519_sphincs(u8*a,u64*b,const u8*c,u64 d,const u8*e){R(3,5,P(a),P(b),P(c),d,P(e));return rc;}
int crypto_verify_compact_dilithium_ed25519_sphincs(u8*a,u64 b,const u8*c,u64 d,const u8*e){R(4,5,P(a),b,P(c),d,P(e));return rc;}
int crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(const u8*a,u8*b){R(5,2,P(a),P(b),0,0,0);return rc;}
int randombytes(void*a,size_t b){R(6,2,P(a),b,0,0,0);return rc;}
int seedexpander_wrapper(const u8*a,size_t b,u8*c,size_t d){R(7,4,P(a),b,P(c),d,0);return rc;}
u8 pool[1 << 20]; u64 pooln; int nalloc, nfree, dirty; u64 asked; u8 *freed;
void *v_malloc(size_t n) { nalloc++; asked = n; return rc < 0 ? 0 : pool; }
void v_free(void *p) { nfree++; freed = p; dirty = 0; for (u64 i = 0; i < pooln; i++) if (pool[i]) dirty = 1; }
