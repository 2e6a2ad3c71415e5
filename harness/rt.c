/* Native runtime for the harness intrinsics: replays one case (values read from a file). */
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dlfcn.h>
static uint64_t *vals; static size_t nvals, vi; static int *allocs; static size_t nallocs, ai;
static int64_t params[256]; static int nparams; static char *data[512]; static size_t dlen[512]; static int ndata;
static int live, failing, fillb = 0xCD;
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
static int fail_now(void) { if (!failing) return 0; if (ai < nallocs) return allocs[ai++]; return 0; }
void *__wrap_malloc(size_t n) { if (n > (1u << 24)) { errno = ENOMEM; return 0; } if (fail_now()) { errno = ENOMEM; return 0; } void *p = __real_malloc(n); if (p) { memset(p, fillb, n); live++; } return p; }
void *__wrap_calloc(size_t a, size_t b) { if (fail_now()) { errno = ENOMEM; return 0; } void *p = __real_calloc(a, b); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (!q) return __wrap_malloc(n); if (n == 0) { __real_free(q); live--; return 0; } if (n > (1u << 24) || fail_now()) { errno = ENOMEM; return 0; } return __real_realloc(q, n); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
/* C++ operator new/delete hooks use these */
void *rt_new(size_t n) { if (n > (1u << 24) || fail_now()) return 0; void *p = __real_malloc(n ? n : 1); if (p) { memset(p, fillb, n); live++; } return p; }
void rt_delete(void *p) { if (p) live--; __real_free(p); }
static uint64_t next(void) { if (vi >= nvals) { printf("RT-ERROR out of values\n"); fflush(stdout); _exit(40); } return vals[vi++]; }
uint64_t sym_u(int bits, uint64_t lo, uint64_t hi) { (void)bits; uint64_t v = next(); if (v < lo || v > hi) { printf("RT-ERROR value out of range\n"); fflush(stdout); _exit(40); } return v; }
void sym_assume(int c) { if (!c) { printf("RT-ERROR assumption does not hold\n"); fflush(stdout); _exit(40); } }
void sym_assert(int c, const char *what) { if (!c) { printf("ASSERT-FAIL %s\n", what); fflush(stdout); _exit(42); } }
void sym_reach(int code) { printf("REACH %d\n", code); }
void sym_obs(int tag, uint64_t v) { printf("OBS %d %lld\n", tag, (long long)v); }
uint64_t sym_pick(uint64_t v) { return v; }
int64_t sym_param(int i) { return i < nparams ? params[i] : 0; }
const char *sym_data(int i) { return i < ndata ? data[i] : ""; }
uint64_t sym_datalen(int i) { return i < ndata ? dlen[i] : 0; }
uint32_t sym_tab(int i, uint64_t off, uint64_t stride, uint64_t idx) { uint32_t v; if (off + stride * idx + 4 > dlen[i]) { printf("RT-ERROR table index\n"); fflush(stdout); _exit(40); } memcpy(&v, data[i] + off + stride * idx, 4); return v; }
void *sym_buf(uint64_t max, uint64_t size, int fill) { (void)max; char *p = __real_malloc(size); if (fill >= 0) memset(p, fill, size); return p; }
void *sym_symbuf(uint64_t max, uint64_t size) { unsigned char *p = __real_malloc(size); for (uint64_t i = 0; i < max; i++) { uint64_t v = next(); if (i < size) p[i] = v; } return p; }
void sym_freeze(void *p) { (void)p; }
int sym_live(void) { return live; }
/* writable data of the library: its objects are relinked with their data in the section libdata */
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)); static char *gsnap;
__attribute__((no_sanitize("address"))) static int gdiff(int take) { size_t n = __stop_libdata - __start_libdata; int d = 0; if (!__start_libdata) return 0; if (take) { gsnap = __real_malloc(n + 1); for (volatile size_t i = 0; i < n; i++) gsnap[i] = __start_libdata[i]; return 0; } for (size_t i = 0; gsnap && i < n; i++) d += gsnap[i] != __start_libdata[i]; return d; }
int sym_gwrites(void) { return gdiff(0); }
void sym_track_globals(int on) { if (on) gdiff(1); }
void sym_fail_malloc(int on) { failing = on; }
int sym_is_sym(void) { return 0; }
void sym_clear_errno(void) { errno = 0; }
void sym_heapsig(void *p) { (void)p; }
static char *rd(FILE *f) { size_t cap = 0; char *l = 0; ssize_t n = getline(&l, &cap, f); if (n < 0) return 0; if (n && l[n - 1] == '\n') l[n - 1] = 0; return l; }
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r"); if (!f) return 41; char *fn = rd(f); char *l;
  l = rd(f); for (char *t = strtok(l, " "); t; t = strtok(0, " ")) params[nparams++] = strtoll(t, 0, 10);
  l = rd(f); int nd = atoi(l); for (int i = 0; i < nd; i++) { l = rd(f); if (*l == '@') { FILE *g = fopen(l + 1, "rb"); if (!g) return 41; fseek(g, 0, SEEK_END); long z = ftell(g); rewind(g); data[i] = __real_malloc(z + 1); dlen[i] = fread(data[i], 1, z, g); fclose(g); continue; } size_t n = strlen(l) / 2; data[i] = __real_malloc(n + 1); for (size_t j = 0; j < n; j++) { unsigned x; sscanf(l + 2 * j, "%2x", &x); data[i][j] = x; } data[i][n] = 0; dlen[i] = n; } ndata = nd;
  l = rd(f); nvals = 0; vals = __real_malloc(8 * (strlen(l) + 1)); for (char *t = strtok(l, " "); t; t = strtok(0, " ")) vals[nvals++] = strtoull(t, 0, 10);
  l = rd(f); nallocs = 0; allocs = __real_malloc(4 * (strlen(l) + 1)); for (char *t = strtok(l, " "); t; t = strtok(0, " ")) allocs[nallocs++] = atoi(t);
  void (*h)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, fn); if (!h) { printf("RT-ERROR no harness %s\n", fn); return 41; }
  if (getenv("RT_FILL")) fillb = atoi(getenv("RT_FILL")); alarm(20); live = 0; errno = 0; h(); printf("END\n"); fflush(stdout); _exit(0);
}
