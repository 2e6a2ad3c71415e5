#include "core.h"
#include <stdlib.h>
/* C15: every allocation may fail */
static int hx_openfail(reiconv_t cd, int live) {
  if (cd == (reiconv_t)-1) { sym_assert(errno == ENOMEM, "a failed allocation while opening is reported as ENOMEM"); sym_assert(sym_live() == live, "a failed open leaves nothing allocated"); return 1; }
  sym_assert(sym_live() > live, "an opened descriptor is allocated"); return 0;
}
/* params: how codepage codepage flags; data: from to (names in the form of the opening function) */
void h_openfail(void) {
  int how = sym_param(0), flags = sym_param(3); sym_clear_errno(); int live = sym_live(); reiconv_t cd; sym_fail_malloc(1);
  if (how == 0) cd = reiconv_open(sym_data(1), sym_data(0)); else if (how == 1) cd = reiconv_open_from_name(sym_data(0), sym_data(1), (enum ConvertFlag)flags); else if (how == 2) cd = reiconv_open_from_codepage(sym_param(1), sym_param(2), (enum ConvertFlag)flags);
  else cd = reiconv_open_from_index(reiconv_lookup_from_name(sym_data(0)), reiconv_lookup_from_name(sym_data(1)), (enum ConvertFlag)flags);
  int f = hx_openfail(cd, live); sym_reach(f ? 1 : 2); sym_obs(1, f); if (f) return;
  sym_fail_malloc(0); reiconv_handle_close(cd); sym_assert(sym_live() == live, "closing releases everything");
}
/* params: mode n lo hi flags; data: from to prefix.  Conversion, sizes and fixed buffers never allocate: no matter what malloc does. */
void h_noalloc(void) {
  int mode = sym_param(0); uint64_t n = sym_param(1), hl = sym_datalen(2), u = hx_inlen(mode, n), len = hl + u; char *x = hx_input(mode, n, sym_param(2), sym_param(3)), *in = sym_buf(len, len, 0);
  for (uint64_t i = 0; i < hl; i++) in[i] = sym_data(2)[i]; for (uint64_t i = 0; i < u; i++) in[hl + i] = x[i]; sym_freeze(in);
  reiconv_t cd = hx_open(sym_data(0), sym_data(1), sym_param(4)), ref = hx_open(sym_data(0), sym_data(1), sym_param(4)); char *o1 = sym_buf(64, 64, 0), *o2 = sym_buf(64, 64, 0), *i1 = in, *i2 = in, *p1 = o1, *p2 = o2; size_t l1 = len, l2 = len, q1 = 64, q2 = 64;
  size_t r1 = reiconv_iconv(ref, &i1, &l1, &p1, &q1); int e1 = errno; size_t f1 = reiconv_iconv(ref, 0, 0, &p1, &q1); reiconv_iconv(ref, 0, 0, 0, 0);
  int live = sym_live(); sym_fail_malloc(1);
  size_t r2 = reiconv_iconv(cd, &i2, &l2, &p2, &q2); int e2 = errno; size_t f2 = reiconv_iconv(cd, 0, 0, &p2, &q2); reiconv_iconv(cd, 0, 0, 0, 0);
  sym_assert((r1 == r2) & (l1 == l2) & (q1 == q2) & (f1 == f2), "conversion does not depend on allocation"); if (r1 == ERR && r2 == ERR) sym_assert(e1 == e2, "conversion does not depend on allocation: error");
  sym_assert(sym_live() == live, "conversion allocates nothing");
  sym_fail_malloc(0); reiconv_handle_close(cd); reiconv_handle_close(ref); sym_assert(sym_live() == 0, "closing releases everything"); sym_reach(3); sym_obs(1, r2); sym_obs(2, q2);
}
/* params: mode n lo hi flags own (bytes of the caller's block, 0: none) second; data: from to prefix */
void h_convfail(void) {
  int mode = sym_param(0); uint64_t n = sym_param(1), hl = sym_datalen(2), u = hx_inlen(mode, n), len = hl + u, own = sym_param(5); char *x = hx_input(mode, n, sym_param(2), sym_param(3)), *in = sym_buf(len, len, 0);
  for (uint64_t i = 0; i < hl; i++) in[i] = sym_data(2)[i]; for (uint64_t i = 0; i < u; i++) in[hl + i] = x[i]; sym_freeze(in);
  reiconv_t cd = hx_open(sym_data(0), sym_data(1), sym_param(4)), ref = hx_open(sym_data(0), sym_data(1), sym_param(4));
  char *o = sym_buf(64, 64, 0), *ip = in, *op = o; size_t il = len, ol = 64; size_t r = reiconv_iconv(ref, &ip, &il, &op, &ol); if (r != ERR) r = reiconv_iconv(ref, 0, 0, &op, &ol); int ok = sym_pick(r != ERR), bad = 0; uint64_t rl = sym_pick(64 - ol); reiconv_handle_close(ref);
  for (int k = 0; k < 2; k++) {
    char *mine = own ? malloc(own) : 0; for (uint64_t i = 0; i < own; i++) mine[i] = 0x41 + i;
    char *p = mine; size_t l = 77; int live = sym_live(); sym_clear_errno(); sym_fail_malloc(k == 0); int c = reiconv_convert(cd, in, len, &p, &l); sym_fail_malloc(0); int e = errno; c = sym_pick(c);
    if (c == 0) { sym_assert(ok, "succeeds only for input that can be converted"); sym_assert(l == rl, "length of the result"); if (l == rl) sym_assert(hx_eq(p, o, rl), "bytes of the result"); sym_assert(sym_live() == live + (own ? 0 : 1), "one block for the result"); free(p); }
    else {
      sym_assert(c == -1, "failure is -1"); 
      if (!ok) sym_assert(e == EILSEQ, "input that cannot be converted is EILSEQ"); else { sym_assert(k == 0, "fails only if an allocation fails"); sym_assert(e == ENOMEM, "a failed allocation is reported as ENOMEM"); bad = 1; }
      sym_assert(p == mine, "the caller's pointer is unchanged"); if (p == mine) { for (uint64_t i = 0; i < own; i++) sym_assert(p[i] == (char)(0x41 + i), "the caller's block is unchanged"); }
      sym_assert(sym_live() == live, "a failed conversion neither leaks nor frees the caller's block"); if (p) free(p);
    }
  }
  sym_reach(ok ? bad ? 5 : 6 : 7); sym_obs(1, ok); sym_obs(2, bad); reiconv_handle_close(cd); sym_assert(sym_live() == 0, "closing releases everything");
}
