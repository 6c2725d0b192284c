/* prescribes the address residue (mod 64) and the failures of the blocks the package's aligned storage asks for.
   VP_AL_FILE holds "al.res:i v" / "al.fail:i v" lines; VP_AL_LOG receives "alloc i ok", "free i 1", "bad i code". */
#ifndef VP_AL_SHIM
#define VP_AL_SHIM
#include "Python.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static struct { char *raw, *p; size_t n; int id, live; } vp_al_tab[4096];
static int vp_al_used = 0, vp_al_calls = 0;
static inline unsigned long long vp_al_get(const char *k, int i) {
  char want[64], name[64]; unsigned long long v, r = 0;
  FILE *f = fopen(getenv("VP_AL_FILE"), "r");
  snprintf(want, 64, "%s:%d", k, i);
  while (f && fscanf(f, "%63s %llu", name, &v) == 2) if (!strcmp(name, want)) r = v;
  if (f) fclose(f);
  return r;
}
static inline void vp_al_log(const char *k, long a, long b) {
  FILE *f = fopen(getenv("VP_AL_LOG"), "a");
  if (f) { fprintf(f, "%s %ld %ld\n", k, a, b); fclose(f); }
}
#define VP_AL_PAD 4096
static inline void *vp_al_malloc(size_t n) {
  if (!getenv("VP_AL_FILE") || vp_al_used >= 4096) return PyMem_Malloc(n);
  int id = vp_al_calls++;
  if (vp_al_get("al.fail", id) & 1) { vp_al_log("alloc", id, 0); return 0; }
  char *raw = (char *)aligned_alloc(64, ((n + 2 * VP_AL_PAD + 64) / 64 + 1) * 64);
  memset(raw, 0xA5, n + 2 * VP_AL_PAD + 64);
  char *p = raw + VP_AL_PAD + (vp_al_get("al.res", id) & 3) * 16;
  vp_al_tab[vp_al_used].raw = raw; vp_al_tab[vp_al_used].p = p; vp_al_tab[vp_al_used].n = n;
  vp_al_tab[vp_al_used].id = id; vp_al_tab[vp_al_used++].live = 1;
  vp_al_log("alloc", id, 1);
  return p;
}
static inline int vp_al_find(char *p) {
  for (int i = 0; i < vp_al_used; i++)
    if (p >= vp_al_tab[i].raw && p < vp_al_tab[i].raw + vp_al_tab[i].n + 2 * VP_AL_PAD) return i;
  return -1;
}
static inline void vp_al_free(void *q) {
  int i = vp_al_find((char *)q);
  if (i < 0) { if (!getenv("VP_AL_FILE") || !q) PyMem_Free(q); else vp_al_log("bad", -1, 0); return; }
  if (vp_al_tab[i].p != (char *)q) { vp_al_log("bad", vp_al_tab[i].id, 1); return; }
  if (!vp_al_tab[i].live) { vp_al_log("bad", vp_al_tab[i].id, 2); return; }
  for (char *c = vp_al_tab[i].raw; c < vp_al_tab[i].p; c++) if ((unsigned char)*c != 0xA5) { vp_al_log("bad", vp_al_tab[i].id, 3); break; }
  for (char *c = vp_al_tab[i].p + vp_al_tab[i].n; c < vp_al_tab[i].raw + vp_al_tab[i].n + 2 * VP_AL_PAD; c++) if ((unsigned char)*c != 0xA5) { vp_al_log("bad", vp_al_tab[i].id, 4); break; }
  vp_al_tab[i].live = 0;
  vp_al_log("free", vp_al_tab[i].id, 1);
}
static inline void *vp_al_realloc(void *q, size_t n) {
  int i = vp_al_find((char *)q);
  if (!q) return vp_al_malloc(n);
  if (i < 0) return PyMem_Realloc(q, n);
  void *r = vp_al_malloc(n);
  if (r) { memcpy(r, q, n < vp_al_tab[i].n ? n : vp_al_tab[i].n); vp_al_free(q); }
  return r;
}
static inline void *vp_al_calloc(size_t a, size_t b) { void *p = vp_al_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
#undef PyMem_Malloc
#undef PyMem_Free
#undef PyMem_Realloc
#undef PyMem_Calloc
#define PyMem_Malloc(n) vp_al_malloc(n)
#define PyMem_Free(p) vp_al_free(p)
#define PyMem_Realloc(p, n) vp_al_realloc(p, n)
#define PyMem_Calloc(a, b) vp_al_calloc(a, b)
#endif
