/* replays a prescribed sequence of RDRAND successes and failures: VP_RD_FILE holds "ok value" lines */
#ifndef VP_RDRAND_SHIM
#define VP_RDRAND_SHIM
#if defined(__RDRND__)
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdio.h>
#include <stdlib.h>
#include <immintrin.h>
__attribute__((weak)) long vp_rd_pos = -1;
__attribute__((weak)) int vp_rd_ok[8192];
__attribute__((weak)) unsigned long long vp_rd_val[8192];
static inline int vp_rdrand64_step(unsigned long long *p) {
  if (vp_rd_pos < 0) {
    const char *fn = getenv("VP_RD_FILE");
    FILE *f = fn ? fopen(fn, "r") : NULL;
    long n = 0;
    for (n = 0; n < 8192; n++) { vp_rd_ok[n] = 1; vp_rd_val[n] = 0x9E3779B97F4A7C15ULL * (n + 1); }
    n = 0;
    while (f && n < 8192 && fscanf(f, "%d %llu", &vp_rd_ok[n], &vp_rd_val[n]) == 2) n++;
    if (f) fclose(f);
    vp_rd_pos = 0;
  }
  int ok = vp_rd_ok[vp_rd_pos & 8191];
  *p = ok ? vp_rd_val[vp_rd_pos & 8191] : 0;
  vp_rd_pos++;
  return ok;
}
#define _rdrand64_step(p) vp_rdrand64_step(p)
#endif
#endif
