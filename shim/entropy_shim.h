/* replays a prescribed history of open/read/close/malloc/clock results for the entropy source: VP_ENT_FILE holds "name value" lines,
   VP_ENT_LOG receives what was called.  Only descriptors this shim handed out are intercepted. */
#ifndef VP_ENT_SHIM
#define VP_ENT_SHIM
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
static int vp_ent_no = 0, vp_ent_nr = 0, vp_ent_nc = 0, vp_ent_nm = 0, vp_ent_np = 0, vp_ent_nt = 0, vp_ent_nk = 0;
static int vp_ent_live[64];
static char *vp_ent_base = 0;
static inline int vp_ent_on(void) { return getenv("VP_ENT_FILE") != 0; }
static inline unsigned long long vp_ent_get(const char *k, int i, int j) {
  char want[64], name[64]; unsigned long long v, r = 0;
  FILE *f = fopen(getenv("VP_ENT_FILE"), "r");
  if (j >= 0) snprintf(want, 64, "%s:%d:%d", k, i, j); else snprintf(want, 64, "%s:%d", k, i);
  while (f && fscanf(f, "%63s %llu", name, &v) == 2) if (!strcmp(name, want)) r = v;
  if (f) fclose(f);
  return r;
}
static inline void vp_ent_log(const char *k, long a, long b) {
  FILE *f = fopen(getenv("VP_ENT_LOG"), "a");
  if (f) { fprintf(f, "%s %ld %ld\n", k, a, b); fclose(f); }
}
static inline int vp_ent_open(const char *p, int fl) {
  if (!vp_ent_on()) return open(p, fl);
  int v = (int)(vp_ent_get("ent.open", vp_ent_no++, -1) & 3);
  int fd = v == 0 ? -1 : v == 1 ? 0 : 7 + vp_ent_no;
  if (fd >= 0) vp_ent_live[fd] = 1;
  vp_ent_log("open", fd, 0);
  return fd;
}
static inline ssize_t vp_ent_read(int fd, void *d, size_t n) {
  if (!vp_ent_on() || fd < 0 || fd >= 64 || !vp_ent_live[fd]) return read(fd, d, n);
  int k = vp_ent_nr++;
  long v = (long)(vp_ent_get("ent.read", k, -1) & 255) - 1;
  if (v > (long)n) v = (long)n;
  if (!vp_ent_base) vp_ent_base = (char *)d;
  for (long i = 0; i < v; i++) ((unsigned char *)d)[i] = (unsigned char)vp_ent_get("ent.byte", k, (int)i);
  vp_ent_log("read", (long)n, v);
  vp_ent_log("dest", (long)((char *)d - vp_ent_base), 0);
  return v;
}
static inline int vp_ent_close(int fd) {
  if (!vp_ent_on()) return close(fd);
  int ok = !(vp_ent_get("ent.close", vp_ent_nc++, -1) & 1);
  vp_ent_log("close", fd, ok);
  if (fd >= 0 && fd < 64) vp_ent_live[fd] = 0;
  return ok ? 0 : -1;
}
static inline void *vp_ent_malloc(size_t n) {
  if (!vp_ent_on()) return malloc(n);
  int bad = (int)(vp_ent_get("ent.malloc", vp_ent_nm++, -1) & 1);
  vp_ent_log("malloc", (long)n, !bad);
  return bad ? 0 : malloc(n);
}
static inline int vp_ent_getpid(void) { return vp_ent_on() ? (int)vp_ent_get("ent.pid", vp_ent_np++, -1) : (int)getpid(); }
static inline int vp_ent_gtod(struct timeval *t, void *z) {
  if (!vp_ent_on()) return gettimeofday(t, z);
  t->tv_sec = (long)vp_ent_get("ent.sec", vp_ent_nt, -1); t->tv_usec = (long)vp_ent_get("ent.usec", vp_ent_nt, -1); vp_ent_nt++;
  return 0;
}
static inline clock_t vp_ent_clock(void) { return vp_ent_on() ? (clock_t)vp_ent_get("ent.clock", vp_ent_nk++, -1) : clock(); }
#define open(p, f) vp_ent_open(p, f)
#define read(a, b, c) vp_ent_read(a, b, c)
#define close(a) vp_ent_close(a)
#define malloc(n) vp_ent_malloc(n)
#define getpid() vp_ent_getpid()
#define gettimeofday(t, z) vp_ent_gtod(t, z)
#define clock() vp_ent_clock()
#endif
