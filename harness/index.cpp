#include "sym.h"
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>
#define ERR ((size_t)-1)
/* C17. All constants of both headers, by the number of the encoding in the frozen list */
#define X(c, i) ENCODING_##c,
static const int c_const[] = {
#include "consts.inc"
};
#undef X
#define X(c, i) (int)reiconv::Encodings::c,
static const int cxx_const[] = {
#include "consts.inc"
};
#undef X
#define X(c, i) i,
static const int c_enc[] = {
#include "consts.inc"
};
#undef X
extern "C" {
/* any two constants agree exactly when they stand for the same encoding, in both headers.  params: lo hi */
void h_pair(void) {
  unsigned n = sizeof c_const / sizeof *c_const; uint64_t i = sym_u(16, sym_param(0), sym_param(1)), j = sym_u(16, 0, n - 1);
  sym_assert(c_const[i] == cxx_const[i], "the constants of the C and the C++ header agree");
  sym_assert((c_const[i] == c_const[j]) == (c_enc[i] == c_enc[j]), "constants agree exactly when they stand for the same encoding");
  sym_assert((c_const[i] == cxx_const[j]) == (c_enc[i] == c_enc[j]), "constants of different headers agree exactly when they stand for the same encoding");
  sym_reach(1); sym_obs(1, c_enc[i] == c_enc[j]);
}
static int hx_eq(const char *a, const char *b, uint64_t n) { int ok = 1; for (uint64_t i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
static void hx_same(reiconv_t a, reiconv_t b, const char *in, uint64_t len) {
  sym_assert(a != (reiconv_t)-1, "the index opens"); sym_assert(b != (reiconv_t)-1, "the name opens");
  char *o1 = (char *)sym_buf(160, 160, 0), *o2 = (char *)sym_buf(160, 160, 0), *p1 = o1, *p2 = o2; const char *i1 = in, *i2 = in; size_t l1 = len, l2 = len, r1 = 160, r2 = 160;
  size_t x = reiconv_iconv(a, (char **)&i1, &l1, &p1, &r1); int e1 = errno; size_t y = reiconv_iconv(b, (char **)&i2, &l2, &p2, &r2); int e2 = errno;
  sym_assert(x == y, "same result"); sym_assert((x != ERR) | (e1 == e2), "same error"); sym_assert(l1 == l2, "same input consumed"); sym_assert(r1 == r2, "same amount of output"); sym_assert(hx_eq(o1, o2, 160), "same output");
  reiconv_iconv(a, 0, 0, &p1, &r1); reiconv_iconv(b, 0, 0, &p2, &r2); sym_assert(r1 == r2, "same amount of output after a flush"); sym_assert(hx_eq(o1, o2, 160), "same output after a flush");
  reiconv_handle_close(a); reiconv_handle_close(b);
}
/* params: constant, nbytes, part, parts, lo, hi; data: the names, each followed by 0; the codepages (4 bytes each) */
void h_ways(void) {
  int k = sym_param(0), idx = c_const[k]; uint64_t n = sym_param(1), part = sym_param(2), parts = sym_param(3), c = 0; const char *d = sym_data(0); uint64_t dl = sym_datalen(0);
  int u = reiconv_lookup_from_name("UTF-8"), w = reiconv_lookup_from_name("UCS-4-INTERNAL"); sym_assert((u >= 0) & (w >= 0), "names are known");
  char *in = (char *)sym_buf(n, n, 0); for (uint64_t i = 0; i < n; i++) in[i] = sym_u(8, 0, 255); sym_freeze(in);
  uint32_t *cp = (uint32_t *)sym_buf(4, 4, 0); *cp = sym_u(32, sym_param(4), sym_param(5)); sym_freeze(cp);
  for (uint64_t a = 0; a < dl; c++) {
    const char *s = d + a; while (d[a]) a++; a++;
    sym_assert(reiconv_lookup_from_name(s) == idx, "every name of the encoding resolves to its constant");
    sym_assert((int)reiconv::Encoding(s) == idx, "every name of the encoding resolves to its constant in C++");
    if (c % parts != part) continue;
    hx_same(reiconv_open_from_index(idx, u, (enum ConvertFlag)0), reiconv_open("UTF-8", s), in, n);
    hx_same(reiconv_open_from_index(w, idx, (enum ConvertFlag)0), reiconv_open(s, "UCS-4-INTERNAL"), (char *)cp, 4);
  }
  for (uint64_t q = 0; q < sym_datalen(1); q += 4) {
    const unsigned char *b = (const unsigned char *)sym_data(1) + q; int p = b[0] | b[1] << 8 | b[2] << 16 | b[3] << 24;
    sym_assert(reiconv_lookup_from_codepage(p) == idx, "every codepage of the encoding resolves to its constant");
    sym_assert((int)reiconv::Encoding(p) == idx, "every codepage of the encoding resolves to its constant in C++");
    if (c++ % parts != part) continue;
    hx_same(reiconv_open_from_index(idx, u, (enum ConvertFlag)0), reiconv_open_from_codepage(p, 65001, (enum ConvertFlag)0), in, n);
    hx_same(reiconv_open_from_index(u, idx, (enum ConvertFlag)0), reiconv_open_from_codepage(65001, p, (enum ConvertFlag)0), in, n);
  }
  sym_reach(2); sym_obs(1, c);
}
}
