/* Exhaustive sweeps of the Dilithium scalar functions against their mathematical definitions. */
#include <stdint.h>
#include <stdio.h>
#define Q 8380417
#define G2 ((Q - 1) / 88)
#define P(x) PQCLEAN_DILITHIUM2_CLEAN_##x
int32_t P(montgomery_reduce)(int64_t); int32_t P(reduce32)(int32_t); int32_t P(caddq)(int32_t); int32_t P(freeze)(int32_t);
int32_t P(power2round)(int32_t *, int32_t); int32_t P(decompose)(int32_t *, int32_t); unsigned P(make_hint)(int32_t, int32_t); int32_t P(use_hint)(int32_t, unsigned);
#define F(...) do { snprintf(msg, 400, __VA_ARGS__); return 1; } while (0)
static int64_t md(int64_t x) { x %= Q; return x < 0 ? x + Q : x; }
static void dec(int32_t a, int32_t *hi, int32_t *lo) { /* Dilithium specification: Decompose */
    int32_t r = a % (2 * G2); if (r > G2) r -= 2 * G2;
    if (a - r == Q - 1) { *hi = 0; *lo = r - 1; } else { *hi = (a - r) / (2 * G2); *lo = r; }
}
int sweep(int which, char *msg, uint64_t seed) {
    int64_t i; int32_t x, y, h, l; uint64_t s = seed * 0x9E3779B97F4A7C15ull + 1;
    const int64_t QR = (int64_t)Q << 31, R = (int64_t)1 << 32;
    switch (which) {
    case 0:
        for (i = 0; i < 60000000; i++) {
            int64_t a;
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            if (i < 4000000) a = (int64_t)(s % (2 * (uint64_t)QR)) - QR; else if (i < 4100000) a = QR - 1 - (i - 4000000); else if (i < 4200000) a = -QR + (i - 4100000);
            else if (i < 4300000) a = i - 4250000; else if (i < 20000000) a = ((int64_t)((s >> 20) % 65536) - 32768) << 32 | (s & 0xffff0000u); else a = ((int64_t)(s % (2 * (uint64_t)QR)) - QR) >> (s >> 58 & 31);
            if (a < -QR || a >= QR) continue;
            x = P(montgomery_reduce)(a);
            if (x <= -Q || x >= Q || md((int64_t)x * (R % Q)) != md(a)) F("montgomery_reduce(%lld) = %d", (long long)a, x);
        }
        return 0;
    case 1:
        for (i = INT32_MIN; i <= 2147483647 - (1 << 22); i++) { x = P(reduce32)((int32_t)i); if (md(x) != md(i) || x < -6283009 || x > 6283008) F("reduce32(%lld) = %d", (long long)i, x); }
        return 0;
    case 2:
        for (i = INT32_MIN; i <= INT32_MAX; i++) { x = P(caddq)((int32_t)i); if (x != (i < 0 ? i + Q : i)) F("caddq(%lld) = %d", (long long)i, x); }
        return 0;
    case 3:
        for (i = INT32_MIN; i <= 2147483647 - (1 << 22); i++) { x = P(freeze)((int32_t)i); if (x != md(i)) F("freeze(%lld) = %d", (long long)i, x); }
        return 0;
    case 4:
        for (i = 0; i < Q; i++) { x = P(power2round)(&y, (int32_t)i); if ((int64_t)x * 8192 + y != i || y <= -4096 || y > 4096) F("power2round(%lld) = (%d, %d)", (long long)i, x, y); }
        return 0;
    case 5:
        for (i = 0; i < Q; i++) { x = P(decompose)(&y, (int32_t)i); dec((int32_t)i, &h, &l); if (x != h || y != l) F("decompose(%lld) = (%d, %d), specified (%d, %d)", (long long)i, x, y, h, l); }
        return 0;
    case 6:
        for (i = 0; i < Q; i++) for (int b = 0; b < 2; b++) {
            x = P(use_hint)((int32_t)i, b); dec((int32_t)i, &h, &l);
            if (b) h = (l > 0 ? h + 1 : h + 43) % 44;
            if (x != h) F("use_hint(%lld, %d) = %d, specified %d", (long long)i, b, x, h);
        }
        return 0;
    case 7: /* the hint made for (low part + z, high part) recovers the high bits of the undisturbed value */
        for (i = 0; i < Q; i++) {
            int32_t zs[] = {0, 1, -1, G2, -G2, G2 - 1, 1 - G2, (int32_t)(i % G2), -(int32_t)(i % G2)};
            dec((int32_t)i, &h, &l);
            for (int k = 0; k < 9; k++) {
                int64_t lo = (int64_t)l + zs[k];
                unsigned hb = P(make_hint)((int32_t)lo, h);
                int want = lo > G2 || lo < -G2 || (lo == -G2 && h != 0);
                if ((hb != 0) != want || hb > 1) F("make_hint(%lld, %d) = %u", (long long)lo, h, hb);
                x = P(use_hint)((int32_t)md(i + zs[k]), hb);
                if (x != h) F("use_hint(%lld, make_hint(%lld, %d)) = %d, high bits are %d", (long long)md(i + zs[k]), (long long)lo, h, x, h);
            }
        }
        return 0;
    }
    return 0;
}
