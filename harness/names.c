#include "core.h"
/* C11, C13. data 0: the frozen names, each as length, index (2 bytes), bytes */
static int hx_upper(int c) { int lower = (c >= 'a') & (c <= 'z'); return c - 32 * lower; }
static int hx_strip(int c) { return (c == '-') | (c == '_'); }
/* the index the frozen list gives to the canonical string s of length n, -1 if none */
static int hx_ref(const unsigned char *s, uint64_t n) {
  const unsigned char *d = (const unsigned char *)sym_data(0); uint64_t dl = sym_datalen(0); int r = -1;
  for (uint64_t k = 0; k < dl; k += 3 + d[k]) if (d[k] == n) { int m = 1; for (uint64_t i = 0; i < n; i++) m &= s[i] == d[k + 3 + i]; r += m * ((d[k + 1] | d[k + 2] << 8) + 1); }
  return r;
}
/* a string whose bytes are free in the window [at, at+fr) of the template t (n bytes), first of them in [lo,hi] */
static unsigned char *hx_window(const char *t, uint64_t n, uint64_t at, uint64_t fr, uint64_t lo, uint64_t hi) {
  unsigned char *s = sym_buf(n + 1, n + 1, 0);
  for (uint64_t i = 0; i < n; i++) s[i] = i >= at && i < at + fr ? sym_u(8, i == at ? lo : 1, i == at ? hi : 255) : t[i];
  sym_freeze(s); return s;
}
static uint64_t hx_canon(const unsigned char *s, uint64_t n, unsigned char *c) { uint64_t k = 0; for (uint64_t i = 0; i < n; i++) if (!hx_strip(s[i])) c[k++] = hx_upper(s[i]); return k; }
/* params: window lo hi insert: every window position in the template; insert: the window is put between characters instead of over them. data: names template */
void h_lookup(void) {
  uint64_t fr = sym_param(0), ins = sym_param(3), tl = sym_datalen(1); char *t = sym_buf(tl + fr, tl + fr, 'x'); const char *t0 = sym_data(1); uint64_t n = ins ? tl + fr : tl;
  uint64_t at = sym_pick(sym_u(8, 0, ins ? tl : tl < fr ? 0 : tl - fr)); if (fr > n) fr = n;
  for (uint64_t i = 0; i < n; i++) t[i] = ins ? i < at ? t0[i] : i < at + fr ? 'x' : t0[i - fr] : t0[i];
  unsigned char *s = hx_window(t, n, at, fr, sym_param(1), sym_param(2)), *c = sym_buf(n + 1, n + 1, 0); uint64_t k = hx_canon(s, n, c);
  int r = reiconv_lookup_from_name((const char *)s);
  sym_assert(r == hx_ref(c, k), "the lookup gives the encoding with that name, or -1");
  sym_reach(r >= 0 ? 1 : 2); sym_obs(1, r);
}
/* canonicalization: params n lo hi */
void h_canon(void) {
  uint64_t n = sym_param(0); unsigned char *s = sym_buf(n + 1, n + 1, 0), *o = sym_buf(n + 1, n + 1, 0x5a); 
  for (uint64_t i = 0; i < n; i++) s[i] = sym_u(8, i ? 1 : sym_param(1), i ? 255 : sym_param(2)); sym_freeze(s);
  size_t r = reiconv_name_canonicalize((const char *)s, (char *)o); r = sym_pick(r);
  uint64_t k = 0, m = 0; for (uint64_t i = 0; i < n; i++) m += !hx_strip(s[i]);
  sym_assert(r == m, "the length of the canonical name is returned");
  for (uint64_t i = 0; i < n; i++) if (!hx_strip(s[i])) { if (k < r) sym_assert(o[k] == hx_upper(s[i]), "letters are upper-cased, other characters kept"); k++; }
  if (r <= n) sym_assert(o[r] == 0, "the canonical name is terminated"); for (uint64_t i = r + 1; i <= n; i++) sym_assert(o[i] == 0x5a, "nothing is written behind the terminator");
  sym_reach(3); sym_obs(1, r);
}
/* C13: reiconv_open against lookups of the frozen list.  params: window side lo hi; data: names to-template from-template */
static const unsigned char ref_ign[9] = "//IGNORE", ref_tr[11] = "//TRANSLIT";
void h_openname(void) {
  uint64_t fr = sym_param(0), side = sym_param(1), n[2] = {sym_datalen(1), sym_datalen(2)}; unsigned char *s[2], *c[2]; int idx[2], ends[2], has[2], odd = 0;
  for (int q = 0; q < 2; q++) {
    uint64_t w = q == (int)side ? fr : 0; if (w > n[q]) w = n[q]; uint64_t at = w ? sym_pick(sym_u(8, 0, n[q] - w)) : 0;
    s[q] = hx_window(sym_data(1 + q), n[q], at, w, sym_param(2), sym_param(3)); c[q] = sym_buf(n[q] + 1, n[q] + 1, 0); for (uint64_t i = 0; i < n[q]; i++) odd |= s[q][i] >= 0x80;
    uint64_t k = hx_canon(s[q], n[q], c[q]), e = 0; while (e < k && c[q][e] != '/') e++;
    odd |= k > 57; idx[q] = hx_ref(c[q], e); ends[q] = has[q] = 0;
    for (uint64_t i = e; i + 8 <= k; i++) { int m = 1; for (int j = 0; j < 8; j++) m &= c[q][i + j] == ref_ign[j]; has[q] |= m; if (i + 8 == k) ends[q] |= m; if (q == 0 && i + 18 == k) { for (int j = 0; j < 10; j++) m &= c[q][i + 8 + j] == ref_tr[j]; ends[q] |= m; } }
  }
  sym_clear_errno();
  reiconv_t cd = reiconv_open((const char *)s[0], (const char *)s[1]);
  if (cd == (reiconv_t)-1) { sym_assert((idx[0] < 0) | (idx[1] < 0) | odd, "opening fails only if a name is unknown"); sym_assert(errno == EINVAL, "the error is EINVAL"); sym_assert(sym_live() == 0, "a failed open leaves nothing allocated"); sym_reach(1); sym_obs(1, 0); return; }
  sym_assert((idx[0] >= 0) & (idx[1] >= 0), "opening fails if a name is unknown");
  if ((idx[0] < 0) | (idx[1] < 0)) return;
  int t = sym_pick(idx[0]), f = sym_pick(idx[1]);
  /* behaves like a descriptor for these two encodings, discarding or not */
  int want = sym_pick(ends[0] | ends[1]), may = sym_pick(has[0] | has[1]);
  reiconv_t a = reiconv_open_from_index(f, t, 0), b = reiconv_open_from_index(f, t, 1);
  uint8_t *in = (uint8_t *)sym_data(3); uint64_t il0 = sym_datalen(3); char *o[3]; size_t r[3], il[3], ol[3]; int er[3]; reiconv_t d[3] = {cd, a, b};
  for (int i = 0; i < 3; i++) { o[i] = sym_buf(64, 64, 0); char *ip = (char *)in, *op = o[i]; il[i] = il0; ol[i] = 64; r[i] = reiconv_iconv(d[i], &ip, &il[i], &op, &ol[i]); er[i] = r[i] == ERR ? errno : 0; }
  int likea = (r[0] == r[1]) & (il[0] == il[1]) & (ol[0] == ol[1]) & (er[0] == er[1]), likeb = (r[0] == r[2]) & (il[0] == il[2]) & (ol[0] == ol[2]) & (er[0] == er[2]);
  if (likea) likea &= hx_eq(o[0], o[1], 64 - ol[0]); if (likeb) likeb &= hx_eq(o[0], o[2], 64 - ol[0]);
  sym_assert(!want | likeb, "//IGNORE at the end, or in front of a last //TRANSLIT, makes the descriptor discard"); sym_assert(may | likea, "without //IGNORE nothing is discarded"); sym_assert(likea | likeb, "the descriptor converts between the two named encodings");
  sym_reach(want ? 2 : 3); sym_obs(1, 1); sym_obs(2, r[0]);
  reiconv_handle_close(a); reiconv_handle_close(b); reiconv_handle_close(cd); sym_assert(sym_live() == 0, "closing releases everything");
}
/* reiconv_open_from_name.  params: window side lo hi; data: names from-template to-template probe */
void h_openfrom(void) {
  uint64_t fr = sym_param(0), side = sym_param(1), n[2] = {sym_datalen(1), sym_datalen(2)}; unsigned char *s[2], *c[2]; int idx[2];
  for (int q = 0; q < 2; q++) { uint64_t w = q == (int)side ? fr : 0; if (w > n[q]) w = n[q]; uint64_t at = w ? sym_pick(sym_u(8, 0, n[q] - w)) : 0; s[q] = hx_window(sym_data(1 + q), n[q], at, w, sym_param(2), sym_param(3)); c[q] = sym_buf(n[q] + 1, n[q] + 1, 0); uint64_t k = hx_canon(s[q], n[q], c[q]); idx[q] = hx_ref(c[q], k); }
  int fl = sym_pick(sym_u(1, 0, 1)); sym_clear_errno();
  reiconv_t cd = reiconv_open_from_name((const char *)s[0], (const char *)s[1], (enum ConvertFlag)fl);
  if (cd == (reiconv_t)-1) { sym_assert((idx[0] < 0) | (idx[1] < 0), "opening fails only if a name is unknown"); sym_assert(errno == EINVAL, "the error is EINVAL"); sym_assert(sym_live() == 0, "a failed open leaves nothing allocated"); sym_reach(1); return; }
  sym_assert((idx[0] >= 0) & (idx[1] >= 0), "opening fails if a name is unknown"); if ((idx[0] < 0) | (idx[1] < 0)) return;
  reiconv_t a = reiconv_open_from_index(sym_pick(idx[0]), sym_pick(idx[1]), (enum ConvertFlag)fl);
  char *o1 = sym_buf(64, 64, 0), *o2 = sym_buf(64, 64, 0), *i1 = (char *)sym_data(3), *i2 = i1, *p1 = o1, *p2 = o2; size_t l1 = sym_datalen(3), l2 = l1, q1 = 64, q2 = 64;
  size_t r1 = reiconv_iconv(cd, &i1, &l1, &p1, &q1), r2 = reiconv_iconv(a, &i2, &l2, &p2, &q2);
  sym_assert((r1 == r2) & (l1 == l2) & (q1 == q2), "the descriptor converts between the two named encodings"); if (q1 == q2) sym_assert(hx_eq(o1, o2, 64 - q1), "the descriptor converts between the two named encodings: same output");
  sym_reach(2); sym_obs(1, r1); sym_obs(2, q1); reiconv_handle_close(a); reiconv_handle_close(cd);
}
/* C12: every int as a codepage.  params: lo hi (as unsigned 32-bit); data: pairs codepage, index */
static int hx_refcp(uint32_t cp) { const uint32_t *d = (const uint32_t *)sym_data(0); int r = -1; for (uint64_t i = 0; i < sym_datalen(0) / 8; i++) r += (cp == d[2 * i]) * (int)(d[2 * i + 1] + 1); return r; }
void h_codepage(void) {
  uint32_t cp = sym_u(32, sym_param(0), sym_param(1)); int r = reiconv_lookup_from_codepage((int)cp);
  sym_assert(r == hx_refcp(cp), "the lookup gives the encoding registered for the number, or -1"); sym_obs(1, r); sym_reach(1);
}
/* one number arbitrary, the other fixed.  params: lo hi other side; data: pairs */
void h_opencp(void) {
  uint32_t cp = sym_u(32, sym_param(0), sym_param(1)), other = sym_param(2); int side = sym_param(3); int fl = sym_pick(sym_u(1, 0, 1));
  int known = (hx_refcp(cp) >= 0) & (hx_refcp(other) >= 0); known = sym_pick(known); sym_clear_errno(); sym_track_globals(1);
  if (known) { cp = sym_pick(cp); }
  reiconv_t cd = side ? reiconv_open_from_codepage((int)other, (int)cp, (enum ConvertFlag)fl) : reiconv_open_from_codepage((int)cp, (int)other, (enum ConvertFlag)fl);
  if (cd == (reiconv_t)-1) { sym_assert(!known, "opening fails only if a number is unknown"); sym_assert(errno == EINVAL, "the error is EINVAL"); sym_assert(sym_live() == 0, "a failed open leaves nothing allocated"); sym_obs(1, 0); sym_reach(2); return; }
  sym_assert(known, "opening fails if a number is unknown"); if (!known) return;
  int f = hx_refcp(side ? other : cp), t = hx_refcp(side ? cp : other);
  reiconv_t a = reiconv_open_from_index(f, t, (enum ConvertFlag)fl);
  char *o1 = sym_buf(64, 64, 0), *o2 = sym_buf(64, 64, 0), *i1 = (char *)sym_data(1), *i2 = i1, *p1 = o1, *p2 = o2; size_t l1 = sym_datalen(1), l2 = l1, q1 = 64, q2 = 64;
  size_t r1 = reiconv_iconv(cd, &i1, &l1, &p1, &q1), r2 = reiconv_iconv(a, &i2, &l2, &p2, &q2);
  sym_assert((r1 == r2) & (l1 == l2) & (q1 == q2), "the descriptor converts between the two encodings"); if (q1 == q2) sym_assert(hx_eq(o1, o2, 64 - q1), "the descriptor converts between the two encodings: same output");
  sym_reach(3); sym_obs(1, r1); sym_obs(2, q1); reiconv_handle_close(a); reiconv_handle_close(cd);
}
