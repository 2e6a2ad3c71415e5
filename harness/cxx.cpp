#include "sym.h"
#include <cppp/reiconv.h>
#include <cppp/reiconv.hpp>
#include <new>
#include <stdexcept>
#include <system_error>
#include <string>
#define ERR ((size_t)-1)
static int hx_eq(const char *a, const char *b, uint64_t n) { int ok = 1; for (uint64_t i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
extern "C" {
/* params: mode n lo hi flags fail big; data: from to prefix tail.  fail: allocations may fail */
void h_cxxconv(void) {
  int mode = sym_param(0), flags = sym_param(4), fail = sym_param(5); uint64_t n = sym_param(1), hl = sym_datalen(2), u = mode ? 4 * n : n, tl = sym_datalen(3), len = hl + u + tl;
  char *in = (char *)sym_buf(len, len, 0); for (uint64_t i = 0; i < hl; i++) in[i] = sym_data(2)[i]; for (uint64_t i = 0; i < tl; i++) in[hl + u + i] = sym_data(3)[i];
  for (uint64_t i = 0; i < n; i++) { uint64_t v = sym_u(mode ? 32 : 8, sym_param(2), sym_param(3)); if (mode) for (int k = 0; k < 4; k++) in[hl + 4 * i + k] = v >> 8 * k; else in[hl + i] = v; } sym_freeze(in);
  int f = reiconv_lookup_from_name(sym_data(0)), t = reiconv_lookup_from_name(sym_data(1)); sym_assert((f >= 0) & (t >= 0), "names are known");
  reiconv_t ref = reiconv_open_from_index(f, t, (enum ConvertFlag)flags); uint64_t cap = 128 + 2 * len; char *o = (char *)sym_buf(cap, cap, 0), *ip = in, *op = o; size_t il = len, ol = cap; size_t r = len ? reiconv_iconv(ref, &ip, &il, &op, &ol) : 0; int e = errno == EINVAL ? EILSEQ : errno;
  if (r != ERR) { r = reiconv_iconv(ref, 0, 0, &op, &ol); e = errno; } int ok = sym_pick(r != ERR); uint64_t rl = sym_pick(cap - ol); reiconv_handle_close(ref);
  reiconv::Encoding from{sym_data(0)}, to{sym_data(1)}; int live = sym_live(), what = 0, code = 0; sym_fail_malloc(fail);
  try {
    std::string s = reiconv::convert(from, to, std::string_view(in, len), (reiconv::ConvertFlag)flags); sym_fail_malloc(0); what = 1;
    sym_assert(ok, "returns only for input that can be converted"); sym_assert(s.size() == rl, "as many bytes as the C interface produces"); if (s.size() == rl) sym_assert(hx_eq(s.data(), o, rl), "the bytes the C interface produces");
  } catch (const std::system_error &x) { sym_fail_malloc(0); what = 2; code = x.code().value(); }
  catch (const std::bad_alloc &) { sym_fail_malloc(0); what = 3; }
  catch (...) { sym_fail_malloc(0); what = 4; }
  what = sym_pick(what); code = sym_pick(code);
  sym_assert(what != 4, "only std::system_error or std::bad_alloc is thrown");
  if (what == 2) { if (fail) sym_assert((code == ENOMEM) | (!ok & (code == e)), "the error is that of the input or ENOMEM"); else { sym_assert(!ok, "throws only for input that cannot be converted"); sym_assert(code == e, "the error code is that of the C interface"); } }
  if (what == 3) sym_assert(fail, "std::bad_alloc only if memory is short");
  sym_assert(sym_live() == live, "the descriptor and all memory are released"); sym_reach(what); sym_obs(1, what); sym_obs(2, rl);
}
/* a name given as characters or std::string.  params: window how; data: template */
void h_cxxname(void) {
  uint64_t n = sym_datalen(0), fr = sym_param(0); char *s = (char *)sym_buf(n + 1, n + 1, 0); if (fr > n) fr = n; uint64_t at = fr < n ? sym_pick(sym_u(8, 0, n - fr)) : 0;
  for (uint64_t i = 0; i < n; i++) s[i] = i >= at && i < at + fr ? sym_u(8, 1, 255) : sym_data(0)[i]; sym_freeze(s);
  int idx = reiconv_lookup_from_name(s), live = sym_live(), what = 0, got = -1; idx = sym_pick(idx);
  try { if (sym_param(1)) { std::string str(s); reiconv::Encoding e(str); got = e; } else { reiconv::Encoding e(s); got = e; } what = 1; } catch (const std::invalid_argument &) { what = 2; } catch (...) { what = 3; }
  what = sym_pick(what); sym_assert(what != 3, "only std::invalid_argument is thrown"); sym_assert((what == 1) == (idx >= 0), "throws exactly when there is no such encoding"); if (what == 1) sym_assert(got == idx, "the encoding the C lookup finds");
  sym_assert(sym_live() == live, "nothing leaks"); sym_reach(what + 4); sym_obs(1, what); sym_obs(2, got);
}
/* params: lo hi */
void h_cxxcp(void) {
  int cp = (int)(uint32_t)sym_u(32, sym_param(0), sym_param(1)), idx = reiconv_lookup_from_codepage(cp), live = sym_live(), what = 0, got = -1;
  try { reiconv::Encoding e(cp); got = e; what = 1; } catch (const std::invalid_argument &) { what = 2; } catch (...) { what = 3; }
  sym_assert(what != 3, "only std::invalid_argument is thrown"); sym_assert((what == 1) == (idx >= 0), "throws exactly when there is no such codepage"); if (what == 1) sym_assert(got == idx, "the encoding the C lookup finds");
  if (what == 1) { reiconv::Encoding a(cp), b((reiconv::Encodings)idx), c("UTF8"); sym_assert(a == b, "encodings with the same index are equal"); sym_assert((a == c) == (idx == (int)c), "encodings with different indexes are different"); }
  sym_assert(sym_live() == live, "nothing leaks"); sym_reach(what + 6); sym_obs(1, what); sym_obs(2, got);
}
}
