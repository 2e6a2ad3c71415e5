#include "core.h"
/* C19: params mode n lo hi limit surrogates-allowed flags; data: from prefix */
void h_scalar(void) {
  uint64_t n = sym_param(1), lim = sym_param(4); int sur = sym_param(5); reiconv_t cd = hx_open(sym_data(0), INTERNAL, sym_param(6)); uint64_t pl = sym_datalen(1), len = pl + n;
  char *in = sym_buf(len, len, 0); for (uint64_t i = 0; i < pl; i++) in[i] = sym_data(1)[i]; for (uint64_t i = 0; i < n; i++) in[pl + i] = sym_u(8, i ? sym_param(10) : sym_param(2), i ? hx_hi2(0) : sym_param(3)); sym_freeze(in);
  uint32_t *o = sym_buf(256, 256, 0); char *ip = in, *op = (char *)o; size_t il = len, ol = 256; size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); int e = errno;
  if (r == ERR) sym_assert((e == EILSEQ) | (e == EINVAL), "ample space");
  reiconv_iconv(cd, 0, 0, &op, &ol); uint64_t k = sym_pick(256 - ol); sym_assert(k % 4 == 0, "whole characters are produced");
  for (uint64_t i = 0; i < k / 4; i++) { uint32_t c = o[i]; sym_assert(c <= lim, "the character is at most U+10FFFF"); if (!sur) sym_assert((c < 0xd800) | (c > 0xdfff), "the character is not a surrogate"); }
  sym_reach(k ? 1 : 2); sym_obs(1, k); sym_obs(2, r); reiconv_handle_close(cd);
}
/* the same seen from outside: any bytes converted to UTF-8, UTF-16 or UTF-32 give well-formed text.  params: - n lo hi target; data: from prefix to */
static int hx_wf8(const unsigned char *s, uint64_t n) { /* n concrete */
  int st = 0, ok = 1; /* st: continuation bytes expected; the next one limited by lo/hi */
  int lo = 0x80, hi = 0xbf;
  for (uint64_t i = 0; i < n; i++) {
    int c = s[i], lead = st == 0;
    int k2 = (c >= 0xc2) & (c <= 0xdf), k3 = (c >= 0xe0) & (c <= 0xef), k4 = (c >= 0xf0) & (c <= 0xf4), a = c < 0x80;
    int good = lead ? (a | k2 | k3 | k4) : ((c >= lo) & (c <= hi));
    ok &= good; int nst = lead ? k2 + 2 * k3 + 3 * k4 : st - 1;
    lo = 0x80 + lead * (0x20 * (c == 0xe0) + 0x10 * (c == 0xf0)); hi = 0xbf - lead * (0x20 * (c == 0xed) + 0x30 * (c == 0xf4)); st = nst;
    st = sym_pick(st);
  }
  return ok & (st == 0);
}
void h_wellformed(void) {
  uint64_t n = sym_param(1); reiconv_t cd = hx_open(sym_data(0), sym_data(2), sym_param(5)); uint64_t pl = sym_datalen(1), len = pl + n;
  char *in = sym_buf(len, len, 0); for (uint64_t i = 0; i < pl; i++) in[i] = sym_data(1)[i]; for (uint64_t i = 0; i < n; i++) in[pl + i] = sym_u(8, i ? sym_param(10) : sym_param(2), i ? hx_hi2(0) : sym_param(3)); sym_freeze(in);
  unsigned char *o = sym_buf(256, 256, 0); char *ip = in, *op = (char *)o; size_t il = len, ol = 256; size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); reiconv_iconv(cd, 0, 0, &op, &ol);
  uint64_t k = sym_pick(256 - ol);
  if (sym_param(4) == 8) sym_assert(hx_wf8(o, k), "the output is well-formed UTF-8");
  else if (sym_param(4) == 16) { int hi = 0, ok = k % 2 == 0; for (uint64_t i = 0; i + 1 < k; i += 2) { int u = o[i] << 8 | o[i + 1], ih = (u >= 0xd800) & (u < 0xdc00), il2 = (u >= 0xdc00) & (u < 0xe000); ok &= hi == il2; hi = ih; } sym_assert(ok & !hi, "the output is well-formed UTF-16"); }
  else { int ok = k % 4 == 0; for (uint64_t i = 0; i + 3 < k; i += 4) { uint32_t u = (uint32_t)o[i] << 24 | o[i + 1] << 16 | o[i + 2] << 8 | o[i + 3]; ok &= (u <= 0x10ffff) & ((u < 0xd800) | (u > 0xdfff)); } sym_assert(ok, "the output is well-formed UTF-32"); }
  sym_reach(3); sym_obs(1, k); sym_obs(2, r); reiconv_handle_close(cd);
}
/* C18.  feed one character, return the bytes written (concrete length), -1 if refused */
static int hx_feed(reiconv_t cd, uint32_t c, unsigned char **op, size_t *ol) { uint32_t w[1] = {c}; char *ip = (char *)w; size_t il = 4, b = *ol; size_t r = reiconv_iconv(cd, &ip, &il, (char **)op, ol); if (r != 0) return -1; return (int)sym_pick(b - *ol); }
/* params: - n lo hi; data: X prefix.  prefix, n arbitrary characters, newline, 'A', flush */
void h_line(void) {
  const char *x = sym_data(0); reiconv_t cd = hx_open(INTERNAL, x, 0); unsigned char *o = sym_buf(160, 160, 0), *op = o; size_t ol = 160; uint64_t n = sym_param(1), pl = sym_datalen(1) / 4; const uint32_t *pw = (const uint32_t *)sym_data(1);
  for (uint64_t i = 0; i < pl; i++) hx_feed(cd, pw[i], &op, &ol);
  for (uint64_t i = 0; i < n; i++) { int k = hx_feed(cd, sym_u(32, i ? sym_param(10) : sym_param(2), i ? hx_hi2(1) : sym_param(3)), &op, &ol); if (k < 0) { sym_reach(1); } }
  uint32_t c = sym_param(4); unsigned char *b = op; int k = hx_feed(cd, c, &op, &ol); sym_assert(k > 0, "a control character is always representable");
  if (k > 0) { sym_assert(op[-1] == (unsigned char)c, "a control character is encoded as itself"); for (unsigned char *q = b; q + 1 < op; q++) sym_assert(*q != (unsigned char)c, "only once"); }
  b = op; k = hx_feed(cd, 'A', &op, &ol); sym_assert(k == 1, "after a control character the encoder is in ASCII"); if (k == 1) sym_assert(*b == 'A', "after a control character ASCII is ASCII");
  b = op; size_t r = reiconv_iconv(cd, 0, 0, (char **)&op, &ol); sym_assert((r == 0) & (op == b), "nothing is left to flush in ASCII"); 
  uint64_t t = sym_pick(op - o); int hi = 0; for (uint64_t i = 0; i < t; i++) hi |= o[i] & 0x80; sym_assert(!hi, "only 7-bit bytes are emitted");
  sym_reach(2); sym_obs(1, t); reiconv_handle_close(cd);
}
/* params: - - lo hi newline; data: X prefix.  After a newline the encoder has forgotten everything: an arbitrary character is written as by a new descriptor after a newline */
void h_newline(void) {
  const char *x = sym_data(0); reiconv_t cd = hx_open(INTERNAL, x, 0), f = hx_open(INTERNAL, x, 0); unsigned char *o = sym_buf(160, 160, 0), *op = o, *o2 = sym_buf(160, 160, 0), *op2 = o2; size_t ol = 160, ol2 = 160; uint64_t pl = sym_datalen(1) / 4; const uint32_t *pw = (const uint32_t *)sym_data(1);
  for (uint64_t i = 0; i < pl; i++) hx_feed(cd, pw[i], &op, &ol);
  for (uint64_t i = 0; i < pl; i++) if (pw[i] >> 7 == 0xE0000 >> 7) hx_feed(f, pw[i], &op2, &ol2); /* a newline does not end the preference for a language */
  uint32_t nl = sym_param(4); hx_feed(cd, nl, &op, &ol); hx_feed(f, nl, &op2, &ol2); unsigned char *b = op, *b2 = op2; uint32_t c = sym_u(32, sym_param(2), sym_param(3));
  int k = hx_feed(cd, c, &op, &ol), k2 = hx_feed(f, c, &op2, &ol2); reiconv_iconv(cd, 0, 0, (char **)&op, &ol); reiconv_iconv(f, 0, 0, (char **)&op2, &ol2);
  sym_assert(k == k2, "same number of bytes as at the start of the text"); uint64_t t = sym_pick(op - b), t2 = sym_pick(op2 - b2); sym_assert(t == t2, "same number of bytes with the flush"); if (t == t2) sym_assert(hx_eq((char *)b, (char *)b2, t), "every charset is announced again after a newline");
  sym_reach(3); sym_obs(1, t); reiconv_handle_close(cd); reiconv_handle_close(f);
}
/* params: - n lo hi flags m; data: X prefix line-end.  Decoder: after prefix, line end, m... the decoder has forgotten the announcements: same as a new descriptor that has seen data 3 */
void h_decline(void) {
  const char *x = sym_data(0); reiconv_t a = hx_open(x, INTERNAL, 0), b = hx_open(x, INTERNAL, 0); hx_prefix(a, sym_data(1), sym_datalen(1)); hx_prefix(b, sym_data(2), sym_datalen(2));
  uint64_t n = sym_param(1); char *in = hx_input(0, n, sym_param(2), sym_param(3)), *i1 = in, *i2 = in, *o1 = sym_buf(64, 64, 0), *o2 = sym_buf(64, 64, 0), *p1 = o1, *p2 = o2; size_t l1 = n, l2 = n, q1 = 64, q2 = 64;
  size_t r1 = reiconv_iconv(a, &i1, &l1, &p1, &q1); int e1 = r1 == ERR ? errno : 0; size_t r2 = reiconv_iconv(b, &i2, &l2, &p2, &q2); int e2 = r2 == ERR ? errno : 0;
  sym_assert((r1 == r2) & (e1 == e2) & (l1 == l2) & (q1 == q2), "the decoder forgets the announcements at the end of a line"); uint64_t t1 = sym_pick(64 - q1); if (q1 == q2) sym_assert(hx_eq(o1, o2, t1), "the decoder forgets the announcements at the end of a line: same characters");
  sym_reach(4); sym_obs(1, r1); sym_obs(2, q1); reiconv_handle_close(a); reiconv_handle_close(b);
}
