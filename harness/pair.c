#include "core.h"
/* C21: a conversion between any two encodings is the one through Unicode.  params: n lo hi flags all; data: from to prefix
   all: the target is symbolic: encoding numbers all-1, all-1+step, ... */
static void hx_pair(int f, int t, int w, const char *in, uint64_t len, int flags, int count) {
  size_t lost = 0, lost2 = 0;
  enum { C = 64, CO = 512 };
  reiconv_t d = reiconv_open_from_index(f, t, (enum ConvertFlag)flags), a = reiconv_open_from_index(f, w, (enum ConvertFlag)flags), b = reiconv_open_from_index(w, t, (enum ConvertFlag)flags);
  sym_assert((d != (reiconv_t)-1) & (a != (reiconv_t)-1) & (b != (reiconv_t)-1), "any two encodings can be opened");
  uint32_t *u = sym_buf(4 * C, 4 * C, 0); char *up = (char *)u, *ip = (char *)in; size_t ul = 4 * C, il = len;
  size_t r = reiconv_iconv(a, &ip, &il, &up, &ul); int e1 = r == ERR ? errno : 0; if (!e1) { lost += r; r = reiconv_iconv(a, 0, 0, &up, &ul); lost += r; sym_assert(r != ERR, "the decoder can be flushed"); }
  uint64_t nb = sym_pick(4 * C - ul); 
  char *o = sym_buf(CO, CO, 0), *op = o, *wp = (char *)u; size_t wl = nb, ol = CO; r = reiconv_iconv(b, &wp, &wl, &op, &ol); int e2 = r == ERR ? errno : 0;
  if (!e1 && !e2) { lost += r; r = reiconv_iconv(b, 0, 0, &op, &ol); lost += r; e2 = r == ERR ? errno : 0; }
  char *o2 = sym_buf(CO, CO, 0), *p2 = o2, *i2 = (char *)in; size_t l2 = len, ol2 = CO; r = reiconv_iconv(d, &i2, &l2, &p2, &ol2); int e3 = r == ERR ? errno : 0;
  if (!e3) { lost2 += r; r = reiconv_iconv(d, 0, 0, &p2, &ol2); lost2 += r; e3 = r == ERR ? errno : 0; }
  sym_assert(e3 == (e2 ? e2 : e1), "the outcome is that of decoding and then encoding");
  sym_assert(ol == ol2, "as much output as from decoding and then encoding"); sym_assert(hx_eq(o, o2, CO), "the output is that of decoding and then encoding");
  if (count && !e1 && !e2) sym_assert(lost == lost2, "as many lossy conversions are counted as in decoding and then encoding");
  if (!e2) sym_assert(l2 == il, "the input consumed is that of decoding"); else sym_assert(l2 >= il, "an error in encoding consumes no more than decoding");
  reiconv_handle_close(d); reiconv_handle_close(a); reiconv_handle_close(b); sym_reach(e2 ? 2 : e1 ? 3 : 1); sym_obs(1, ol2); sym_obs(2, e3);
}
void h_pair(void) {
  int f = reiconv_lookup_from_name(sym_data(0)), t, w = reiconv_lookup_from_name(INTERNAL); uint64_t n = sym_param(0), hl = sym_datalen(2), len = hl + n, all = sym_param(4);
  if (all) t = (all - 1) + sym_param(5) * sym_pick(sym_u(16, 0, sym_param(6))); else t = reiconv_lookup_from_name(sym_data(1));
  sym_assert((f >= 0) & (t >= 0) & (w >= 0), "the names are known");
  char *in = sym_buf(len, len, 0); for (uint64_t i = 0; i < hl; i++) in[i] = sym_data(2)[i]; for (uint64_t i = 0; i < n; i++) in[hl + i] = i ? sym_u(8, 0, 255) : sym_u(8, sym_param(1), sym_param(2)); sym_freeze(in);
  hx_pair(f, t, w, in, len, sym_param(3), sym_param(7));
}
