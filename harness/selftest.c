/* Self-test of the engine: constructs that the library does not use today but a change could introduce. */
#include "sym.h"
#include <stdlib.h>
#include <string.h>
#include <stdatomic.h>
#ifndef __clang__
#define __builtin_rotateleft32(v, n) (((v) << (n)) | ((v) >> (32 - (n))))
#endif
struct in { uint16_t a; uint8_t b[3]; };
struct big { struct in x; uint32_t y; struct in z[2]; };
static struct big mk(uint32_t v) { struct big r = {{(uint16_t)v, {1, (uint8_t)(v >> 16), 3}}, v, {{7, {0}}, {(uint16_t)(v + 1), {9, 9, (uint8_t)v}}}}; return r; }
static atomic_int cnt;
static int cmpi(const void *a, const void *b) { int x = *(const unsigned char *)a, y = *(const unsigned char *)b; return x - y; }
struct pr { uint64_t p; uint32_t q; };
static struct pr twopart(uint64_t a, uint32_t b) { struct pr r = {a, b}; return r; }
void h_misc(void) {
  uint32_t v = sym_u(32, 0, 0xffffffff); struct big b = mk(v), c = b; c.z[0] = b.z[1];
  sym_assert(c.z[0].a == (uint16_t)(v + 1) && c.x.b[1] == (uint8_t)(v >> 16) && c.z[0].b[2] == (uint8_t)v, "nested structs");
  struct pr t = twopart(v, v ^ 5); struct pr u = v & 1 ? t : twopart(1, 2); sym_assert(v & 1 ? u.p == v : u.q == 2, "pair");
  unsigned n = sym_u(8, 0, 9); char vla[n + 1]; memset(vla, 'x', n); vla[n] = 0; sym_assert(strlen(vla) == n, "vla");
  sym_assert(v == 0 || (v >> (31 - __builtin_clz(v))) == 1, "clz"); sym_assert(v == 0 || (v & ((1u << __builtin_ctz(v)) - 1)) == 0, "ctz");
  uint32_t w = sym_u(32, 0, 0xffffffff), r; int o = __builtin_add_overflow(v, w, &r); sym_assert(o == ((uint64_t)v + w > 0xffffffffull) && r == v + w, "add overflow");
  int32_t sr; o = __builtin_sub_overflow((int32_t)v, (int32_t)w, &sr); sym_assert(o == ((int64_t)(int32_t)v - (int32_t)w != (int64_t)sr), "sub overflow");
  size_t z; o = __builtin_mul_overflow((size_t)v, (size_t)4, &z); sym_assert(!o && z == (size_t)v * 4, "mul overflow");
  sym_assert(((v << 7) | (v >> 25)) == __builtin_rotateleft32(v, 7), "rotate");
  atomic_fetch_add(&cnt, 3); sym_assert(atomic_load(&cnt) == 3, "atomic"); int ex = 3; sym_assert(atomic_compare_exchange_strong(&cnt, &ex, 4) && cnt == 4, "cas");
  sym_reach(1); sym_obs(1, z); sym_obs(2, r);
}
void h_libc(void) {
  unsigned char b[3]; for (int i = 0; i < 3; i++) b[i] = sym_u(8, 0, 5); qsort(b, 3, 1, cmpi); sym_assert(b[0] <= b[1] && b[1] <= b[2], "qsort");
  char s[4] = "12x"; s[1] = sym_u(8, '0', '9'); char *e; long l = strtol(s, &e, 10); sym_assert(l == 10 + s[1] - '0' && e == s + 2, "strtol"); sym_assert(atoi(s) == l, "atoi");
  char *d = strndup(s, 2); sym_assert(strcmp(d, "12") == 0 || s[1] != '2', "strndup"); free(d);
  sym_assert(strpbrk(s, "xyz") == s + 2 && strspn(s, "0123456789") == 2, "strpbrk");
  sym_reach(2); sym_obs(1, l); sym_obs(2, b[1]);
}
/* must be reported */
void h_bad_oob(void) { unsigned n = sym_u(8, 1, 9); volatile char v[n]; v[sym_u(8, 0, 9)] = 1; sym_obs(1, n); }
void h_bad_uninit(void) { char *p = malloc(4); unsigned i = sym_u(8, 0, 3); p[0] = p[1] = p[2] = 1; sym_assert(p[i] != 77, "uninitialised memory is arbitrary"); free(p); }
void h_bad_assert(void) { uint32_t v = sym_u(32, 0, 0xffffffff); sym_assert(v * v != 0x2710 * 0x2710u + 0u || v > 0x80000000u, "square"); }
void h_bad_leak(void) { char *p = malloc(4); sym_assert(p != 0, "p"); sym_assert(sym_live() == 0, "leak"); }
