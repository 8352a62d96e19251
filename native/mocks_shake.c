/* Stand-in for the incremental SHAKE interface: records what is absorbed, delivers a scripted stream. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
unsigned char ms_in[1 << 16]; size_t ms_inlen; int ms_kind, ms_live, ms_bad, ms_fin;
unsigned char ms_stream[1 << 17]; size_t ms_pos;
static void init(int k) { ms_inlen = 0; ms_kind = k; ms_live++; ms_pos = 0; ms_fin = 0; }
static void absorb(int k, const uint8_t *p, size_t n) { if (k != ms_kind || ms_fin) ms_bad = 1; if (ms_inlen + n > sizeof ms_in) { ms_bad = 1; return; } memcpy(ms_in + ms_inlen, p, n); ms_inlen += n; }
static void squeeze(int k, uint8_t *p, size_t n) { if (k != ms_kind || !ms_fin) ms_bad = 1; if (ms_pos + n > sizeof ms_stream) abort(); memcpy(p, ms_stream + ms_pos, n); ms_pos += n; }
#define FAM(K) \
void shake##K##_inc_init(void *c) { (void)c; init(K); } \
void shake##K##_inc_absorb(void *c, const uint8_t *p, size_t n) { (void)c; absorb(K, p, n); } \
void shake##K##_inc_finalize(void *c) { (void)c; ms_fin = 1; } \
void shake##K##_inc_squeeze(uint8_t *p, size_t n, void *c) { (void)c; squeeze(K, p, n); } \
void shake##K##_inc_ctx_release(void *c) { (void)c; ms_live--; }
FAM(128) FAM(256)
