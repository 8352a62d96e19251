/* scripted getrandom: script[i] > 0: at most that many bytes; 0: everything asked for; < 0: fail with errno = -script[i] */
#include <stddef.h>
#include <sys/types.h>
#include <errno.h>
long script[64]; int nscript, calls, bad; unsigned char *gbuf; size_t gn, gdone;
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    unsigned char *p = buf;
    long s = calls < nscript ? script[calls] : 0;
    calls++;
    if (p != gbuf + gdone || n > gn - gdone) { bad = 1; }
    if (n > 33554431) n = 33554431;
    if (s < 0) { errno = (int)-s; return -1; }
    if (s > 0 && (size_t)s < n) n = (size_t)s;
    for (size_t i = 0; i < n; i++) { if (p + i >= gbuf && p + i < gbuf + gn) p[i] = (unsigned char)(0x5a ^ (i + gdone)); else { bad = 2; break; } }
    gdone += n;
    return (ssize_t)n;
}
ssize_t getentropy_(void) { return 0; }
