#ifndef CORE_H
#define CORE_H
#include "sym.h"
#include <cppp/reiconv.h>
#define ERR ((size_t)-1)
#define INTERNAL "UCS-4-INTERNAL"
/* All harness code uses only the public API. Names hx_ and h_ tell the executor not to merge paths here. */
static reiconv_t hx_open(const char *from, const char *to, int flags) {
  int f = reiconv_lookup_from_name(from), t = reiconv_lookup_from_name(to);
  sym_assert(f >= 0, "source encoding name is known"); sym_assert(t >= 0, "target encoding name is known");
  reiconv_t cd = reiconv_open_from_index(f, t, (enum ConvertFlag)flags);
  sym_assert(cd != (reiconv_t)-1, "descriptor opened");
  return cd;
}
/* feed a concrete prefix to put the descriptor into a given state */
static void hx_prefix(reiconv_t cd, const char *p, size_t n) {
  if (n) { char scratch[512]; char *ip = (char *)p, *op = scratch; size_t il = n, ol = sizeof scratch; reiconv_iconv(cd, &ip, &il, &op, &ol); }
}
/* range of the units after the first: params 10 and 11 when given, else everything */
static uint64_t hx_hi2(int mode) { uint64_t h = sym_param(11); return h ? h : mode == 0 ? 255 : mode == 2 ? 0x10ffff : 0xffffffffu; }
/* mode 0: n bytes; mode 1: n UCS-4 words; mode 2: n UCS-4 words that are Unicode code points. The first unit lies in [lo,hi]. */
static char *hx_input(int mode, uint64_t n, uint64_t lo, uint64_t hi) {
  if (mode == 0) { unsigned char *p = sym_buf(n, n, 0); for (uint64_t i = 0; i < n; i++) p[i] = sym_u(8, i ? sym_param(10) : lo, i ? hx_hi2(mode) : hi); sym_freeze(p); return (char *)p; }
  uint32_t *w = sym_buf(4 * n, 4 * n, 0); for (uint64_t i = 0; i < n; i++) w[i] = sym_u(32, i ? sym_param(10) : lo, i ? hx_hi2(mode) : hi); sym_freeze(w); return (char *)w;
}
static size_t hx_inlen(int mode, uint64_t n) { return mode == 0 ? n : 4 * n; }
static int hx_eq(const char *a, const char *b, uint64_t n) { int ok = 1; for (uint64_t i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
/* a deprecated tag character among the input code points (dropped when the target cannot represent it) */
static int hx_hastag(int mode, const char *in, uint64_t n) { int t = 0; if (mode) for (uint64_t i = 0; i < n; i++) t |= (((const uint32_t *)in)[i] >> 7) == (0xE0000 >> 7); return t; }
#endif
