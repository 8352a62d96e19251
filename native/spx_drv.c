/* The real SPHINCS+ code over a cheap stand-in hash and a scripted message digest, against an independent reference.  prints FAILING-INPUT ... */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#define X(s) PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_##s
int X(crypto_sign_seed_keypair)(uint8_t *, uint8_t *, const uint8_t *);
int X(crypto_sign_keypair)(uint8_t *, uint8_t *);
int X(crypto_sign_signature)(uint8_t *, size_t *, const uint8_t *, size_t, const uint8_t *);
int X(crypto_sign_verify)(const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *);
typedef uint8_t u8;
/* ---- stand-ins ---- */
static void mix(u8 *out, size_t n, const u8 *in, size_t len) {
    uint64_t a = 0x9e3779b97f4a7c15ull ^ len, b = 0xc2b2ae3d27d4eb4full, w;
    size_t i = 0;
    for (; i + 8 <= len; i += 8) { memcpy(&w, in + i, 8); a = (a ^ w) * 0xff51afd7ed558ccdull; a ^= a >> 32; b = (b + a) * 0xc4ceb9fe1a85ec53ull; b ^= b >> 29; }
    w = 0; memcpy(&w, in + i, len - i); a = (a ^ w) * 0xff51afd7ed558ccdull; a ^= a >> 32; b = (b + a) * 0xc4ceb9fe1a85ec53ull; b ^= b >> 29;
    for (i = 0; i < n; i += 8) { uint64_t z = (a += 0x9e3779b97f4a7c15ull) ^ b; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; memcpy(out + i, &z, n - i < 8 ? n - i : 8); }
}
static u8 digest[49]; static int script; static u8 seen[8192]; static size_t nseen; static long live;
struct sctx { size_t n; int fin; u8 b[8192]; };
void shake256(u8 *o, size_t n, const u8 *in, size_t len) { mix(o, n, in, len); }
void shake256_inc_init(void **c) { struct sctx *s = calloc(1, sizeof *s); live++; *c = s; }
void shake256_inc_absorb(void **c, const u8 *p, size_t n) { struct sctx *s = *c; if (s->n + n > sizeof s->b) abort(); memcpy(s->b + s->n, p, n); s->n += n; }
void shake256_inc_finalize(void **c) { (void)c; }
void shake256_inc_squeeze(u8 *o, size_t n, void **c) { struct sctx *s = *c; if (n == 49 && script) { memcpy(seen, s->b, s->n); nseen = s->n; memcpy(o, digest, 49); } else mix(o, n, s->b, s->n); }
void shake256_inc_ctx_release(void **c) { free(*c); *c = 0; live--; }
static int rfail; static u8 rnd[96]; static uint64_t S = 1;
static uint64_t r64(void) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S; }
int randombytes(void *p, size_t n) { if (rfail) return -1; memcpy(p, rnd, n < 96 ? n : 96); return 0; }
/* ---- reference ---- */
static const u8 *seed, *skseed;
static void ad(u8 *a, int layer, uint64_t tree, int ty, int kp, int b27, uint32_t w) {
    memset(a, 0, 32); a[3] = layer; for (int i = 0; i < 8; i++) a[8 + i] = tree >> (56 - 8 * i); a[19] = ty; a[23] = kp; a[27] = b27; for (int i = 0; i < 4; i++) a[28 + i] = w >> (24 - 8 * i);
}
static void H(u8 *o, const u8 *a, const u8 *x, size_t n) { u8 b[64 + 67 * 32]; memcpy(b, seed, 32); memcpy(b + 32, a, 32); memcpy(b + 64, x, n); mix(o, 32, b, 64 + n); }
static void prf(u8 *o, const u8 *a) { H(o, a, skseed, 32); }
static void digs(int *d, const u8 *m) { int c = 0; for (int i = 0; i < 32; i++) { d[2 * i] = m[i] >> 4; d[2 * i + 1] = m[i] & 15; } for (int i = 0; i < 64; i++) c += 15 - d[i]; d[64] = c >> 8; d[65] = c >> 4 & 15; d[66] = c & 15; }
static void chn(u8 *x, int lo, int hi, int layer, uint64_t tree, int kp, int i) { u8 a[32]; for (int k = lo; k < hi; k++) { ad(a, layer, tree, 0, kp, i, k); H(x, a, x, 32); } }
static void wleaf(u8 *o, u8 *sig, const int *d, int layer, uint64_t tree, int kp) {
    u8 a[32], pk[67 * 32];
    for (int i = 0; i < 67; i++) { u8 *x = pk + 32 * i; ad(a, layer, tree, 5, kp, i, 0); prf(x, a); int s = sig ? d[i] : 0; chn(x, 0, s, layer, tree, kp, i); if (sig) memcpy(sig + 32 * i, x, 32); chn(x, s, 15, layer, tree, kp, i); }
    ad(a, layer, tree, 1, kp, 0, 0); H(o, a, pk, sizeof pk);
}
static u8 nodes[10][512][32];
static void climbtree(int h, int layer, uint64_t tree, int ty, int kp, uint32_t off) {
    u8 a[32], b[64];
    for (int l = 1; l <= h; l++) for (int j = 0; j < 1 << (h - l); j++) { memcpy(b, nodes[l - 1][2 * j], 32); memcpy(b + 32, nodes[l - 1][2 * j + 1], 32); ad(a, layer, tree, ty, kp, l, j + (off >> l)); H(nodes[l][j], a, b, 64); }
}
static void ref_merkle(u8 *sig, u8 *root, int layer, uint64_t tree, int idx) {
    int d[67]; digs(d, root);
    for (int i = 0; i < 16; i++) wleaf(nodes[0][i], i == idx ? sig : 0, d, layer, tree, i);
    climbtree(4, layer, tree, 2, 0, 0);
    if (idx >= 0) for (int l = 0; l < 4; l++) memcpy(sig + 67 * 32 + 32 * l, nodes[l][idx >> l ^ 1], 32);
    memcpy(root, nodes[4][0], 32);
}
static void fidx(int *ix, const u8 *m) { for (int i = 0; i < 35; i++) { ix[i] = 0; for (int j = 0; j < 9; j++) { int k = 9 * i + j; ix[i] = ix[i] * 2 + (m[k / 8] >> (7 - k % 8) & 1); } } }
static void ref_fors(u8 *sig, u8 *pk, const u8 *m, uint64_t tree, int kp) {
    int ix[35]; u8 a[32], roots[35 * 32]; fidx(ix, m);
    for (int i = 0; i < 35; i++) {
        for (int j = 0; j < 512; j++) { u8 s[32]; ad(a, 0, tree, 6, kp, 0, j + 512 * i); prf(s, a); if (j == ix[i]) memcpy(sig + 320 * i, s, 32); ad(a, 0, tree, 3, kp, 0, j + 512 * i); H(nodes[0][j], a, s, 32); }
        climbtree(9, 0, tree, 3, kp, 512 * i);
        for (int l = 0; l < 9; l++) memcpy(sig + 320 * i + 32 + 32 * l, nodes[l][ix[i] >> l ^ 1], 32);
        memcpy(roots + 32 * i, nodes[9][0], 32);
    }
    ad(a, 0, tree, 4, kp, 0, 0); H(pk, a, roots, sizeof roots);
}
static void climb(u8 *x, int idx, const u8 *auth, int h, int layer, uint64_t tree, int ty, int kp, uint32_t off) {
    u8 a[32], b[64];
    for (int l = 0; l < h; l++) { int r = idx >> l & 1; memcpy(b + 32 * r, x, 32); memcpy(b + 32 - 32 * r, auth + 32 * l, 32); ad(a, layer, tree, ty, kp, l + 1, (idx >> (l + 1)) + (off >> (l + 1))); H(x, a, b, 64); }
}
static int ref_verify(const u8 *sig, const u8 *pk, const u8 *dg) {
    u8 root[32], roots[35 * 32], a[32], w[67 * 32]; int ix[35], d[67]; seed = pk; uint64_t tree = 0; for (int i = 0; i < 8; i++) tree = tree << 8 | dg[40 + i]; int leaf = dg[48] & 15;
    fidx(ix, dg); const u8 *p = sig + 32;
    for (int i = 0; i < 35; i++, p += 320) { ad(a, 0, tree, 3, leaf, 0, ix[i] + 512 * i); H(roots + 32 * i, a, p, 32); climb(roots + 32 * i, ix[i], p + 32, 9, 0, tree, 3, leaf, 512 * i); }
    ad(a, 0, tree, 4, leaf, 0, 0); H(root, a, roots, sizeof roots);
    for (int l = 0; l < 17; l++) {
        digs(d, root); memcpy(w, p, sizeof w); for (int i = 0; i < 67; i++) chn(w + 32 * i, d[i], 15, l, tree, leaf, i);
        ad(a, l, tree, 1, leaf, 0, 0); H(root, a, w, sizeof w); p += sizeof w; climb(root, leaf, p, 4, l, tree, 2, 0, 0); p += 128; leaf = tree & 15; tree >>= 4;
    }
    return memcmp(root, pk + 32, 32) != 0;
}
static u8 pk[64], sk[128], rpk[64], rsk[128], sig[49856 + 64], rsig[49856], msg[4096], sd[96];
static void hex(const char *n, const u8 *p, size_t k) { printf(" %s=", n); for (size_t i = 0; i < k; i++) printf("%02x", p[i]); }
static void die(const char *what, size_t mlen) { printf("FAILING-INPUT %s; stand-in hash, message length %zu,", what, mlen); hex("seed", sd, 96); hex("optrand", rnd, 32); hex("digest", digest, 49); printf("\n"); fflush(stdout); exit(1); }
static void fill(u8 *p, size_t n, int mode) { for (size_t i = 0; i < n; i++) p[i] = mode == 1 ? 0 : mode == 2 ? 255 : mode == 3 ? (r64() & 7 ? 0 : r64()) : mode == 4 ? (u8)(1 << (r64() & 7)) : r64(); }
int main(int argc, char **argv) {
    S = argc > 1 ? strtoull(argv[1], 0, 10) * 2654435761u + 99 : 1; for (int i = 0; i < 20; i++) r64();
    time_t end = time(0) + (argc > 2 ? atoi(argv[2]) : 60);
    setvbuf(stdout, 0, _IOLBF, 0);
    for (int it = 0; time(0) < end; it++) {
        fill(sd, 96, it % 4 == 3 ? 3 : 0); fill(rnd, 96, 0); size_t mlen = it < 40 ? it : r64() % 700; fill(msg, mlen + 1, 0);
        fill(digest, 49, it < 3 ? it : it % 5); script = it % 7 != 6;
        if (it % 4 == 0) { memcpy(rnd, sd, 96); if (X(crypto_sign_keypair)(pk, sk)) die("key generation failed", 0); fill(rnd, 96, 0); }
        else if (X(crypto_sign_seed_keypair)(pk, sk, sd)) die("key generation failed", 0);
        memcpy(rsk, sd, 96); seed = sd + 64; skseed = sd; memset(rsk + 96, 7, 32); ref_merkle(rsig, rsk + 96, 16, 0, -1); memcpy(rpk, sd + 64, 32); memcpy(rpk + 32, rsk + 96, 32);
        if (memcmp(pk, rpk, 64) || memcmp(sk, rsk, 128)) die("generated key differs from the specification", 0);
        u8 b[96 + 4096], R[32]; memcpy(b, sk + 32, 32); memcpy(b + 32, rnd, 32); memcpy(b + 64, msg, mlen); mix(R, 32, b, 64 + mlen);
        memcpy(b, R, 32); memcpy(b + 32, pk, 64); memcpy(b + 96, msg, mlen);
        u8 dg[49]; if (script) memcpy(dg, digest, 49); else { mix(dg, 49, b, 96 + mlen); memcpy(digest, dg, 49); }
        memcpy(rsig, R, 32); u8 root[32]; uint64_t tree = 0; for (int i = 0; i < 8; i++) tree = tree << 8 | dg[40 + i]; int leaf = dg[48] & 15;
        ref_fors(rsig + 32, root, dg, tree, leaf); u8 *p = rsig + 32 + 11200;
        for (int l = 0; l < 17; l++, p += 67 * 32 + 128) { ref_merkle(p, root, l, tree, leaf); leaf = tree & 15; tree >>= 4; }
        size_t sl = 12345; memset(sig, 0xa7, sizeof sig); nseen = 0;
        if (X(crypto_sign_signature)(sig, &sl, msg, mlen, sk)) die("signing failed", mlen);
        if (script && (nseen != 96 + mlen || memcmp(seen, b, nseen))) die("message digest is not computed from randomiser, public key and message", mlen);
        if (sl != 49856) die("wrong signature length reported", mlen);
        for (int i = 0; i < 49856; i++) if (sig[i] != rsig[i]) { char t[99]; sprintf(t, "signature byte %d differs from the specification", i); die(t, mlen); }
        for (int i = 49856; i < 49856 + 64; i++) if (sig[i] != 0xa7) die("signing wrote beyond the signature", mlen);
        u8 *q = malloc(49856); memcpy(q, rsig, 49856); nseen = 0;
        if (ref_verify(q, pk, dg)) { printf("reference inconsistent\n"); return 3; }
        if (X(crypto_sign_verify)(q, 49856, msg, mlen, pk)) die("honest signature refused", mlen);
        if (script && (nseen != 96 + mlen || memcmp(seen, b, nseen))) die("verifier's message digest is not computed from randomiser, public key and message", mlen);
        if (!X(crypto_sign_verify)(q, 49855, msg, mlen, pk)) die("signature of 49855 bytes accepted", mlen);
        u8 *z = malloc(49857); memcpy(z, q, 49856); z[49856] = 0; if (!X(crypto_sign_verify)(z, 49857, msg, mlen, pk)) die("signature of 49857 bytes accepted", mlen); free(z);
        for (int k = 0; k < 60; k++) {
            u8 pk2[64]; memcpy(pk2, pk, 64); int i = k < 32 ? -1 - k : k < 36 ? 32 + (int)(r64() % 32) : 32 + (int)(r64() % 49824); u8 f = 1 << (r64() & 7);
            if (i < 0) pk2[32 + k] ^= f; else q[i] ^= f;
            script = 1; int w = ref_verify(q, pk2, dg), g = X(crypto_sign_verify)(q, 49856, msg, mlen, pk2);
            if (!w != !g) { char t[160]; sprintf(t, "%s %s with bit flipped at %s byte %d", w ? "accepted" : "refused", "signature", i < 0 ? "public root" : "signature", i < 0 ? k : i); die(t, mlen); }
            if (i >= 0) q[i] ^= f;
        }
        /* random digests with a matching root: structure of the recomputation alone */
        for (int k = 0; k < 12; k++) { u8 pk2[64]; memcpy(pk2, pk, 64); u8 d2[49]; fill(d2, 49, k % 5); memcpy(digest, d2, 49); script = 1; fill(q + 32, 320, 0); seed = pk2; /* compute root by trial */
            int g = X(crypto_sign_verify)(q, 49856, msg, mlen, pk2), w = ref_verify(q, pk2, d2); if (!w != !g) die("verifier differs from the specification on a random digest", mlen); }
        free(q); if (live) die("hash contexts left unreleased", mlen);
        rfail = 1; sl = 5; if (!X(crypto_sign_signature)(sig, &sl, msg, mlen, sk)) die("signing succeeded although the random source failed", mlen); if (!X(crypto_sign_keypair)(rpk, rsk)) die("key generation succeeded although the random source failed", mlen); rfail = 0; live = 0;
        if (it == 0) fprintf(stderr, "first iteration done\n");
        if (it % 20 == 0) fprintf(stderr, "%d iterations\n", it);
    }
    puts("no difference found");
    return 0;
}
