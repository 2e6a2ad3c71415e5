#include "core.h"
#include <stdlib.h>
/* C14: whole-string functions against stepwise conversion.  */
struct hx_res { int ok, err; uint64_t n; char *o; };
#define CAP 64
/* stepwise: convert, flush, then reset; the output of len bytes of input needs at most cap bytes */
static struct hx_res hx_step(reiconv_t cd, const char *in, size_t len, uint64_t cap) {
  struct hx_res s; s.o = sym_buf(cap, cap, 0); char *ip = (char *)in, *op = s.o; size_t il = len, ol = cap; size_t r = 0; s.ok = 1; s.err = 0;
  if (len) { r = reiconv_iconv(cd, &ip, &il, &op, &ol); if (r == ERR) { s.ok = 0; s.err = errno == EINVAL ? EILSEQ : errno; } }
  if (s.ok) { r = reiconv_iconv(cd, 0, 0, &op, &ol); if (r == ERR) { s.ok = 0; s.err = errno; } }
  reiconv_iconv(cd, 0, 0, 0, 0); s.n = sym_pick(cap - ol); return s;
}
/* one whole-string operation, checked against the stepwise result; op: 0 size, 1 exact buffer, 2 larger buffer, 3 too small buffer, 4 allocating, 5 reallocating */
static void hx_op(reiconv_t cd, int op, const char *in, size_t len, struct hx_res w) {
  if (op == 0) { size_t r = reiconv_result_size(cd, in, len); int e = errno; if (w.ok) sym_assert(r == w.n, "the announced size is the number of bytes produced"); else { sym_assert(r == ERR, "input that cannot be converted has no size"); sym_assert(e == w.err, "size: the error is reported"); } return; }
  if (op <= 3) {
    uint64_t cap = op == 1 ? w.n : w.n + 3; if (op == 3) { if (w.n == 0 || !w.ok) return; cap = sym_pick(sym_u(16, 0, w.n < 8 ? w.n - 1 : 7)); if (w.n >= 8) cap = w.n - 1 - cap; }
    unsigned char *o = sym_buf(cap, cap, 0x5a); int r = reiconv_convert_static_size(cd, in, len, (char *)o, cap); int e = errno;
    if (op == 3) { sym_assert(r == -1, "a buffer that is too small is reported"); sym_assert(e == E2BIG, "the error for a small buffer is E2BIG"); return; }
    sym_assert(r == (w.ok ? 0 : -1), "the fixed-buffer conversion succeeds exactly when stepwise conversion does");
    if (r == 0 && w.ok) sym_assert(hx_eq((char *)o, w.o, w.n), "same bytes as stepwise"); if (r) sym_assert((e == w.err) | (!w.ok & (e == E2BIG)), "fixed buffer: the error is reported");
    if (w.ok) for (uint64_t i = w.n; i < cap; i++) sym_assert(o[i] == 0x5a, "the rest of the buffer does not change");
    return;
  }
  int live = sym_live(); char *old = op == 5 ? malloc(5) : 0, *p = old; size_t l = 77; int r = reiconv_convert(cd, in, len, &p, &l); int e = errno;
  sym_assert(r == (w.ok ? 0 : -1), "the allocating conversion succeeds exactly when stepwise conversion does");
  if (r) sym_assert(e == w.err, "allocating: the error is reported");
  if (r == 0 && w.ok) { sym_assert(l == w.n, "allocating: the length is that of the result"); sym_assert(p != 0, "allocating: there is a result"); if (l == w.n) sym_assert(hx_eq(p, w.o, w.n), "allocating: same bytes as stepwise"); }
  free(p); sym_assert(sym_live() == live, "the block belongs to the caller and nothing else stays allocated");
}
/* params: mode n op op2 lo hi flags cap bo; op 9: any; bo: the source has byte order marks, so how much of it was read matters.  data: from to head tail second-input.  input = head + n arbitrary units + tail */
void h_whole(void) {
  int mode = sym_param(0), flags = sym_param(6); uint64_t n = sym_param(1), hl = sym_datalen(2), tl = sym_datalen(3), u = hx_inlen(mode, n), len = hl + u + tl, cap = sym_param(7);
  char *x = hx_input(mode, n, sym_param(4), sym_param(5)), *in = sym_buf(len, len, 0);
  for (uint64_t i = 0; i < hl; i++) in[i] = sym_data(2)[i]; for (uint64_t i = 0; i < u; i++) in[hl + i] = x[i]; for (uint64_t i = 0; i < tl; i++) in[hl + u + i] = sym_data(3)[i]; sym_freeze(in);
  reiconv_t ref = hx_open(sym_data(0), sym_data(1), flags), cd = hx_open(sym_data(0), sym_data(1), flags);
  struct hx_res w = hx_step(ref, in, len, cap); w.ok = sym_pick(w.ok);
  int op = sym_param(2) == 9 ? (int)sym_pick(sym_u(3, 0, 5)) : (int)sym_param(2), op2 = sym_param(3);
  hx_op(cd, op, in, len, w); sym_reach(w.ok ? 1 : 2); sym_obs(1, w.n); sym_obs(2, w.ok);
  if (op2 < 6 && !(op == 3 && (w.n == 0 || !w.ok)) && !(sym_param(8) && (op == 3 || !w.ok))) { /* the descriptor is in its initial state: a second operation on it agrees with a descriptor that has never failed */
    uint64_t l2 = sym_datalen(4); reiconv_t r2 = op == 0 ? hx_open(sym_data(0), sym_data(1), flags) : ref; struct hx_res y = hx_step(r2, sym_data(4), l2, cap); hx_op(cd, op2, sym_data(4), l2, y); if (r2 != ref) reiconv_handle_close(r2);
  }
  reiconv_handle_close(ref); reiconv_handle_close(cd); sym_assert(sym_live() == 0, "closing releases everything");
}
