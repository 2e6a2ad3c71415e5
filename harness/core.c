#include "core.h"
/* ---- C01: bounds, accounting, error codes.  params: mode n capmax lo hi flushmax; data: from to prefix */
void h_safe(void) {
  int mode = sym_param(0); uint64_t n = sym_param(1), capmax = sym_param(2), fmax = sym_param(5);
  reiconv_t cd = hx_open(sym_data(0), sym_data(1), (int)sym_pick(sym_u(1, 0, 1)));
  hx_prefix(cd, sym_data(2), sym_datalen(2));
  char *in = hx_input(mode, n, sym_param(3), sym_param(4)); size_t len = hx_inlen(mode, n);
  uint64_t cap = sym_u(64, 0, capmax); char *out = sym_buf(capmax, cap, 0xA5);
  char *ip = in, *op = out; size_t il = len, ol = cap;
  sym_clear_errno();
  size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); int e = errno;
  sym_assert((il <= len) & (ip == in + (len - il)), "input pointer and count advance together");
  sym_assert((ol <= cap) & (op == out + (cap - ol)), "output pointer and count advance together");
  sym_assert((r != ERR) | (e == EILSEQ) | (e == EINVAL) | (e == E2BIG), "error code is one of EILSEQ, EINVAL, E2BIG");
  sym_assert((r == ERR) | (il == 0), "success means that all input is consumed");
  sym_assert((r != ERR) | (il > 0), "an error leaves the offending input unconsumed");
  sym_assert((r == ERR) | (r <= n + (sym_datalen(2) ? 2 : 0)), "the count of irreversible conversions is bounded by the input");
  sym_obs(1, r); sym_obs(2, il); sym_obs(3, ol); sym_obs(4, r == ERR ? e : 0);
  sym_reach(1); if (r == ERR) sym_reach(e == E2BIG ? 2 : e == EINVAL ? 3 : 4); else sym_reach(5);
  if (fmax != 99) {
    uint64_t fcap = sym_u(64, 0, fmax); char *fo = sym_buf(fmax, fcap, 0xA5); char *fp = fo; size_t fl = fcap;
    size_t r2 = reiconv_iconv(cd, 0, 0, &fp, &fl); e = errno;
    sym_assert((fl <= fcap) & (fp == fo + (fcap - fl)), "flush: output pointer and count advance together");
    sym_assert((r2 != ERR) | (e == EILSEQ) | (e == E2BIG), "flush: error code is EILSEQ or E2BIG");
    sym_obs(5, r2); sym_obs(6, fl);
  }
  reiconv_iconv(cd, 0, 0, 0, 0);
  sym_assert(reiconv_handle_close(cd) == 0, "close returns 0");
  sym_assert(sym_live() == 0, "closing releases every block");
}
/* ---- C02: stopping for lack of output space loses and duplicates nothing.
   params: mode n capmax lo hi flags flushcapmax(99: no flush); data: from to prefix */
void h_resume(void) {
  int mode = sym_param(0); uint64_t n = sym_param(1), capmax = sym_param(2), fcm = sym_param(6); int flags = sym_param(5);
  reiconv_t a = hx_open(sym_data(0), sym_data(1), flags), b = hx_open(sym_data(0), sym_data(1), flags);
  hx_prefix(a, sym_data(2), sym_datalen(2)); hx_prefix(b, sym_data(2), sym_datalen(2));
  char *in = hx_input(mode, n, sym_param(3), sym_param(4)); size_t len = hx_inlen(mode, n);
  char *o1 = sym_buf(128, 128, 0), *o2 = sym_buf(128, 128, 0);
  char *ip1 = in, *op1 = o1; size_t il1 = len, ol1 = 128;
  size_t r1 = reiconv_iconv(a, &ip1, &il1, &op1, &ol1); int e1 = r1 == ERR ? errno : 0;
  char *f1 = sym_buf(64, 64, 0), *fp1 = f1; size_t fl1 = 64, s1 = 0;
  if (r1 != ERR && fcm != 99) s1 = reiconv_iconv(a, 0, 0, &fp1, &fl1);
  uint64_t cap = sym_pick(sym_u(64, 0, capmax)); char *oc = sym_buf(capmax, cap, 0);
  char *ip2 = in, *op2 = oc; size_t il2 = len, ol2 = cap;
  size_t r2 = reiconv_iconv(b, &ip2, &il2, &op2, &ol2); int e2 = r2 == ERR ? errno : 0;
  uint64_t t1 = 128 - ol1, u = cap - ol2, v = 0;
  sym_assert(e1 != E2BIG, "128 bytes are enough for this input");
  sym_assert((e2 != E2BIG) | (r1 == ERR) | (t1 > cap) | hx_hastag(mode, in, n) | ((mode != 0) & (cap == t1) & ((n > 1) | (t1 == 0))), "a buffer that holds the whole result is large enough");
  if (e2 == E2BIG) {
    sym_reach(1);
    char *op3 = o2; size_t ol3 = 128;
    r2 = reiconv_iconv(b, &ip2, &il2, &op3, &ol3); e2 = r2 == ERR ? errno : 0; v = 128 - ol3;
    sym_assert((r1 == ERR) == (r2 == ERR), "resumed conversion has the same outcome");
    sym_assert((r1 == ERR) | (r2 <= r1), "resumed conversion reports no extra irreversible conversions");
  } else { sym_reach(2); sym_assert(r1 == r2, "same return value"); }
  sym_assert((e1 == e2), "same error"); sym_assert((il1 == il2) & (ip1 == ip2), "same input consumed");
  sym_assert(t1 == u + v, "same amount of output");
  if ((t1 == u + v) & (u <= cap)) sym_assert(hx_eq(o1, oc, u) & hx_eq(o1 + u, o2, v), "same output bytes");
  sym_obs(1, r1); sym_obs(2, r2); sym_obs(3, t1); sym_obs(4, u); sym_obs(5, il1);
  if (r1 != ERR && fcm != 99) {
    /* flush, with a possibly short buffer first */
    char *f2 = sym_buf(64, 64, 0); uint64_t ft = 64 - fl1;
    uint64_t fc = sym_pick(sym_u(64, 0, fcm)); char *fo = sym_buf(fcm, fc, 0); char *fp2 = fo; size_t fl2 = fc;
    size_t s2 = reiconv_iconv(b, 0, 0, &fp2, &fl2); int fe = s2 == ERR ? errno : 0; uint64_t fu = fc - fl2, fv = 0;
    sym_assert((fe != E2BIG) | (ft > fc), "flush: a buffer that holds the whole result is large enough");
    if (fe == E2BIG) { sym_reach(3); char *fp3 = f2; size_t fl3 = 64; s2 = reiconv_iconv(b, 0, 0, &fp3, &fl3); fv = 64 - fl3; sym_assert((s1 == ERR) == (s2 == ERR), "flush: same outcome"); }
    else sym_assert(s1 == s2, "flush: same return value");
    sym_assert(ft == fu + fv, "flush: same amount of output");
    if (ft == fu + fv) sym_assert(hx_eq(f1, fo, fu) & hx_eq(f1 + fu, f2, fv), "flush: same output bytes");
    sym_obs(6, ft); sym_obs(7, fu);
  }
  reiconv_handle_close(a); reiconv_handle_close(b);
}
/* ---- C03: input split anywhere.  params: mode n flush? lo hi flags; data: from to prefix */
void h_split(void) {
  int mode = sym_param(0); uint64_t n = sym_param(1); int flags = sym_param(5);
  reiconv_t a = hx_open(sym_data(0), sym_data(1), flags), b = hx_open(sym_data(0), sym_data(1), flags);
  hx_prefix(a, sym_data(2), sym_datalen(2)); hx_prefix(b, sym_data(2), sym_datalen(2));
  char *in = hx_input(mode, n, sym_param(3), sym_param(4)); size_t len = hx_inlen(mode, n);
  char *o1 = sym_buf(128, 128, 0), *o2 = sym_buf(128, 128, 0);
  char *ip1 = in, *op1 = o1; size_t il1 = len, ol1 = 128;
  size_t r1 = reiconv_iconv(a, &ip1, &il1, &op1, &ol1); int e1 = r1 == ERR ? errno : 0;
  char *f1 = sym_buf(64, 64, 0), *fp1 = f1; size_t fl1 = 64, s1 = 0;
  if (r1 != ERR && sym_param(2)) s1 = reiconv_iconv(a, 0, 0, &fp1, &fl1);
  uint64_t k = sym_pick(sym_u(64, 1, len - 1));
  char *in1 = sym_buf(len, k, 0); for (uint64_t i = 0; i < k; i++) in1[i] = in[i]; sym_freeze(in1);
  char *ip2 = in1, *op2 = o2; size_t il2 = k, ol2 = 128;
  size_t r2 = reiconv_iconv(b, &ip2, &il2, &op2, &ol2); int e2 = r2 == ERR ? errno : 0;
  uint64_t used = k - il2;
  if (e2 == EINVAL || e2 == 0) {
    sym_reach(e2 ? 1 : 2);
    char *ip3 = in + used; size_t il3 = len - used;
    size_t r3 = reiconv_iconv(b, &ip3, &il3, &op2, &ol2); e2 = r3 == ERR ? errno : 0; used = len - il3;
    if (r2 != ERR && r3 != ERR) sym_assert(r2 + r3 == r1, "irreversible conversions are counted once");
    r2 = r3;
  } else sym_reach(3);
  sym_assert((r1 == ERR) == (r2 == ERR), "same outcome"); sym_assert(e1 == e2, "same error"); sym_assert(used == len - il1, "same input consumed");
  sym_assert(ol1 == ol2, "same amount of output");
  if (ol1 == ol2) sym_assert(hx_eq(o1, o2, 128 - ol1), "same output bytes");
  sym_obs(1, r1); sym_obs(2, r2); sym_obs(3, ol1); sym_obs(4, used);
  if (r1 != ERR && sym_param(2)) {
    char *f2 = sym_buf(64, 64, 0), *fp2 = f2; size_t fl2 = 64;
    size_t s2 = reiconv_iconv(b, 0, 0, &fp2, &fl2);
    sym_assert((s1 == s2) & (fl1 == fl2), "flush: same outcome"); if (fl1 == fl2) sym_assert(hx_eq(f1, f2, 64 - fl1), "flush: same output bytes");
  }
  reiconv_handle_close(a); reiconv_handle_close(b);
}
/* ---- C06: what is encoded decodes back.  params: mode n - lo hi ; data: X prefix(UCS-4 words) one-way characters (UCS-4 words) */
void h_roundtrip(void) {
  uint64_t n = sym_param(1); const char *x = sym_data(0);
  reiconv_t e = hx_open(INTERNAL, x, 0), d = hx_open(x, INTERNAL, 0);
  uint64_t pl = sym_datalen(1) / 4; const uint32_t *pw = (const uint32_t *)sym_data(1);
  uint32_t *w = sym_buf(4 * (n + pl), 4 * (n + pl), 0); for (uint64_t i = 0; i < pl; i++) w[i] = pw[i];
  for (uint64_t i = 0; i < n; i++) w[pl + i] = sym_u(32, i ? sym_param(10) : sym_param(3), i ? hx_hi2(2) : sym_param(4));
  uint64_t pk = 0; uint32_t *pe = sym_buf(4 * pl, 4 * pl, 0); for (uint64_t i = 0; i < pl; i++) if (pw[i] >> 7 != 0xE0000 >> 7) pe[pk++] = pw[i]; /* the prefix without tag characters, which may be dropped */
  sym_freeze(w);
  uint64_t xl = sym_datalen(2) / 4; const uint32_t *xw = (const uint32_t *)sym_data(2);
  for (uint64_t i = 0; i < n; i++) { int skip = (w[pl + i] >> 11) == 0x1b; /* surrogates are not characters */ for (uint64_t k = 0; k < xl; k++) skip |= w[pl + i] == xw[k]; sym_assume(!skip); }
  char *o = sym_buf(128, 128, 0); char *ip = (char *)w, *op = o; size_t il = 4 * (n + pl), ol = 128;
  size_t r = reiconv_iconv(e, &ip, &il, &op, &ol);
  sym_assert((r != ERR) | (errno == EILSEQ), "complete characters and ample space can only fail with EILSEQ");
  if (r == 0) {
    size_t s = reiconv_iconv(e, 0, 0, &op, &ol);
    sym_assert(s == 0, "flush succeeds");
    uint64_t t = op - o; /* bytes produced */
    /* deprecated tag characters may be dropped */
    uint32_t tags = 0; for (uint64_t i = 0; i < n; i++) tags |= (w[pl + i] >> 7) == (0xE0000 >> 7);
    sym_assume(!tags);
    char *res = sym_buf(4 * (n + pl) + 64, 4 * (n + pl) + 64, 0); char *jp = o, *qp = res; size_t jl = t, ql = 4 * (n + pl) + 64;
    size_t q = reiconv_iconv(d, &jp, &jl, &qp, &ql);
    sym_assert(q == 0, "the encoder's output is valid and complete");
    if (q == 0) q = reiconv_iconv(d, 0, 0, &qp, &ql);
    sym_assert(q == 0, "decoder flush succeeds");
    uint64_t got = qp - res;
    sym_assert(got == 4 * (n + pk), "as many characters come back as went in");
    if (got == 4 * (n + pk)) { int ok = 1; const uint32_t *g = (const uint32_t *)res; for (uint64_t i = 0; i < pk; i++) ok &= g[i] == pe[i]; for (uint64_t i = 0; i < n; i++) ok &= g[pk + i] == w[pl + i]; sym_assert(ok, "the same characters come back"); }
    sym_reach(1); sym_obs(1, t); sym_obs(2, got);
  } else sym_reach(2);
  reiconv_handle_close(e); reiconv_handle_close(d);
}
/* ---- C04: after a reset the descriptor behaves like a new one.  params: mode n how lo hi flags; data: from to prefix */
void h_reset(void) {
  int mode = sym_param(0); uint64_t n = sym_param(1); int how = sym_param(2), flags = sym_param(5);
  reiconv_t a = hx_open(sym_data(0), sym_data(1), flags), b = hx_open(sym_data(0), sym_data(1), flags);
  hx_prefix(a, sym_data(2), sym_datalen(2));
  char *pre = hx_input(mode, sym_param(6), sym_param(3), sym_param(4)); size_t plen = hx_inlen(mode, sym_param(6));
  char *o1 = sym_buf(160, 160, 0), *o2 = sym_buf(160, 160, 0); char *op1 = o1, *op2 = o2; size_t ol1 = 160, ol2 = 160;
  if (plen) { char *ip = pre; size_t il = plen; reiconv_iconv(a, &ip, &il, &op1, &ol1); }
  if (how == 0) { char *before = op1; size_t r = reiconv_iconv(a, 0, 0, 0, 0); sym_assert(r == 0, "a plain reset returns 0"); sym_assert(op1 == before, "a plain reset writes nothing"); }
  else { size_t r = reiconv_iconv(a, 0, 0, &op1, &ol1); sym_assert((r != ERR) | (errno == EILSEQ), "ample space: flush does not run out of room"); if (r == ERR) { sym_reach(4); return; } }
  char *q1 = op1;
  char *in = hx_input(mode, n, sym_param(7), sym_param(8)); size_t len = hx_inlen(mode, n);
  char *ip1 = in, *ip2 = in; size_t il1 = len, il2 = len;
  size_t r1 = reiconv_iconv(a, &ip1, &il1, &op1, &ol1); int e1 = r1 == ERR ? errno : 0;
  size_t r2 = reiconv_iconv(b, &ip2, &il2, &op2, &ol2); int e2 = r2 == ERR ? errno : 0;
  sym_assert(r1 == r2, "same return value as a new descriptor"); sym_assert(e1 == e2, "same error as a new descriptor"); sym_assert(il1 == il2, "same input consumed as a new descriptor");
  uint64_t t1 = op1 - q1, t2 = op2 - o2; sym_assert(t1 == t2, "same amount of output as a new descriptor");
  if (t1 == t2) sym_assert(hx_eq(q1, o2, t1), "same output as a new descriptor");
  size_t s1 = reiconv_iconv(a, 0, 0, &op1, &ol1), s2 = reiconv_iconv(b, 0, 0, &op2, &ol2);
  sym_assert(s1 == s2, "flush: same return value as a new descriptor"); uint64_t x1 = op1 - q1, x2 = op2 - o2; sym_assert(x1 == x2, "flush: same amount of output as a new descriptor"); if (x1 == x2) sym_assert(hx_eq(q1, o2, x1), "flush: same output as a new descriptor");
  sym_reach(1); sym_obs(1, r1); sym_obs(2, t1);
  reiconv_handle_close(a); reiconv_handle_close(b);
}
/* byte order learned from a mark stays: same prefix on both, reset only one.  params: mode n how lo hi; data: from to prefix */
void h_resetle(void) {
  int mode = sym_param(0); uint64_t n = sym_param(1); int how = sym_param(2);
  reiconv_t a = hx_open(sym_data(0), sym_data(1), 0), b = hx_open(sym_data(0), sym_data(1), 0);
  hx_prefix(a, sym_data(2), sym_datalen(2)); hx_prefix(b, sym_data(2), sym_datalen(2));
  char *o1 = sym_buf(64, 64, 0), *o2 = sym_buf(64, 64, 0); char *op1 = o1, *op2 = o2; size_t ol1 = 64, ol2 = 64;
  size_t r = how ? reiconv_iconv(a, 0, 0, &op1, &ol1) : reiconv_iconv(a, 0, 0, 0, 0);
  sym_assert(r == 0, "reset returns 0"); sym_assert(op1 == o1, "reset writes nothing here");
  char *in = hx_input(mode, n, sym_param(3), sym_param(4)); char *ip1 = in, *ip2 = in; size_t il1 = hx_inlen(mode, n), il2 = il1;
  /* only inputs without another mark: the two byte sequences at the start */
  const unsigned char *u = (const unsigned char *)in;
  sym_assume(!((u[0] == 0xfe) & (u[1] == 0xff)) & !((u[0] == 0xff) & (u[1] == 0xfe)) & !((u[0] == 0) & (u[1] == 0) & (u[2] == 0xfe) & (u[3] == 0xff)));
  size_t r1 = reiconv_iconv(a, &ip1, &il1, &op1, &ol1); int e1 = r1 == ERR ? errno : 0;
  size_t r2 = reiconv_iconv(b, &ip2, &il2, &op2, &ol2); int e2 = r2 == ERR ? errno : 0;
  sym_assert((r1 == r2) & (e1 == e2) & (il1 == il2) & (ol1 == ol2), "the byte order is kept over a reset");
  if (ol1 == ol2) sym_assert(hx_eq(o1, o2, 64 - ol1), "the byte order is kept over a reset: same output");
  sym_reach(1); sym_obs(1, r1); sym_obs(2, ol1);
  reiconv_handle_close(a); reiconv_handle_close(b);
}
/* ---- C04: flushed output is self-contained: two flushed texts can be concatenated.
   data: X prefix(UCS-4 words) one-way characters; params: - n m lo hi lo2 hi2 */
void h_concat(void) {
  const char *x = sym_data(0); reiconv_t e = hx_open(INTERNAL, x, 0), d = hx_open(x, INTERNAL, 0);
  uint64_t n = sym_param(1), m = sym_param(2), pl = sym_datalen(1) / 4; const uint32_t *pw = (const uint32_t *)sym_data(1);
  uint32_t *w = sym_buf(4 * (n + pl), 4 * (n + pl), 0); for (uint64_t i = 0; i < pl; i++) w[i] = pw[i];
  for (uint64_t i = 0; i < n; i++) w[pl + i] = sym_u(32, i ? sym_param(10) : sym_param(3), i ? hx_hi2(2) : sym_param(4));
  uint32_t *y = sym_buf(4 * m, 4 * m, 0); for (uint64_t i = 0; i < m; i++) y[i] = sym_u(32, sym_param(5), sym_param(6));
  uint64_t xl = sym_datalen(2) / 4; const uint32_t *xw = (const uint32_t *)sym_data(2);
  for (uint64_t i = 0; i < m; i++) { int skip = (y[i] >> 11) == 0x1b; for (uint64_t k = 0; k < xl; k++) skip |= y[i] == xw[k]; sym_assume(!skip); }
  char *o = sym_buf(128, 128, 0); char *ip = (char *)w, *op = o; size_t il = 4 * (n + pl), ol = 128;
  size_t r = reiconv_iconv(e, &ip, &il, &op, &ol); if (r != 0) { sym_reach(3); return; }
  r = reiconv_iconv(e, 0, 0, &op, &ol); sym_assert(r == 0, "flush succeeds"); if (r) return;
  uint64_t first = op - o;
  ip = (char *)y; il = 4 * m; r = reiconv_iconv(e, &ip, &il, &op, &ol); if (r != 0) { sym_reach(2); return; }
  r = reiconv_iconv(e, 0, 0, &op, &ol); if (r) return;
  uint32_t tags = 0; for (uint64_t i = 0; i < m; i++) tags |= (y[i] >> 7) == (0xE0000 >> 7); sym_assume(!tags);
  /* decode only the second text with a new decoder: it must not depend on the first one */
  char *res = sym_buf(64, 64, 0); char *jp = o + first, *qp = res; size_t jl = (op - o) - first, ql = 64;
  size_t q = reiconv_iconv(d, &jp, &jl, &qp, &ql); sym_assert(q == 0, "text written after a flush is valid on its own"); if (q) return;
  q = reiconv_iconv(d, 0, 0, &qp, &ql); uint64_t got = qp - res;
  sym_assert(got == 4 * m, "text written after a flush decodes completely"); if (got == 4 * m) { int ok = 1; const uint32_t *g = (const uint32_t *)res; for (uint64_t i = 0; i < m; i++) ok &= g[i] == y[i]; sym_assert(ok, "text written after a flush decodes to itself"); }
  sym_reach(1); sym_obs(1, first);
  reiconv_handle_close(e); reiconv_handle_close(d);
}
/* ---- state discovery (not a check): params mode n lo hi; data from to prefix */
void h_discover(void) {
  reiconv_t cd = hx_open(sym_data(0), sym_data(1), 0); hx_prefix(cd, sym_data(2), sym_datalen(2));
  int mode = sym_param(0); char *in = hx_input(mode, sym_param(1), sym_param(2), sym_param(3)); size_t il = hx_inlen(mode, sym_param(1)); char *ip = in; char *o = sym_buf(256, 256, 0); char *op = o; size_t ol = 256;
  size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol);
  sym_obs(1, r == ERR ? errno : 0); sym_obs(2, il); sym_heapsig(cd);
}
/* ---- C08: discarding.  params: mode(0) n unit lo hi; data: X prefix.  Reference: the descriptor without discarding, stepping over one unit after each EILSEQ */
void h_discard(void) {
  uint64_t n = sym_param(1), unit = sym_param(2);
  reiconv_t a = hx_open(sym_data(0), INTERNAL, 1), b = hx_open(sym_data(0), INTERNAL, 0);
  hx_prefix(a, sym_data(1), sym_datalen(1)); hx_prefix(b, sym_data(1), sym_datalen(1));
  char *in = hx_input(0, n, sym_param(3), sym_param(4));
  char *o1 = sym_buf(128, 128, 0), *o2 = sym_buf(128, 128, 0); char *op1 = o1, *op2 = o2, *ip1 = in, *ip2 = in; size_t il1 = n, il2 = n, ol1 = 128, ol2 = 128;
  size_t r1 = reiconv_iconv(a, &ip1, &il1, &op1, &ol1); int e1 = r1 == ERR ? errno : 0;
  size_t r2 = 0; int e2 = 0, skipped = 0;
  while (il2) {
    r2 = reiconv_iconv(b, &ip2, &il2, &op2, &ol2); e2 = r2 == ERR ? errno : 0;
    if (e2 != EILSEQ) break;
    sym_assert(il2 >= unit, "an invalid sequence is at least one unit long"); if (il2 < unit) return;
    ip2 += unit; il2 -= unit; skipped++; r2 = 0; e2 = 0;
  }
  sym_assert(e1 != EILSEQ, "discarding never reports an invalid sequence");
  sym_assert((r1 == r2) & (e1 == e2), "same outcome as skipping by hand"); sym_assert(il1 == il2, "same input consumed as skipping by hand");
  sym_assert(ol1 == ol2, "same amount of output as skipping by hand"); if (ol1 == ol2) sym_assert(hx_eq(o1, o2, 128 - ol1), "same output as skipping by hand");
  sym_reach(skipped ? 1 : 2); if (skipped && ol1 != 128) sym_reach(3); sym_obs(1, r1); sym_obs(2, il1); sym_obs(3, ol1); sym_obs(4, skipped);
  reiconv_handle_close(a); reiconv_handle_close(b);
}
/* encoding side: one arbitrary character then a fixed one.  params: - - - lo hi next; data: X prefix(UCS-4 words) */
void h_discardenc(void) {
  const char *x = sym_data(0); reiconv_t a = hx_open(INTERNAL, x, 1), b = hx_open(INTERNAL, x, 0), c = hx_open(INTERNAL, x, 0);
  hx_prefix(a, sym_data(1), sym_datalen(1)); hx_prefix(b, sym_data(1), sym_datalen(1)); hx_prefix(c, sym_data(1), sym_datalen(1));
  uint32_t *w = sym_buf(8, 8, 0); w[0] = sym_u(32, sym_param(3), sym_param(4)); w[1] = sym_param(5); sym_freeze(w);
  char *o1 = sym_buf(64, 64, 0), *o2 = sym_buf(64, 64, 0), *op1 = o1, *op2 = o2, *ip1 = (char *)w, *ip2 = (char *)w; size_t il1 = 8, il2 = 8, ol1 = 64, ol2 = 64;
  size_t r1 = reiconv_iconv(a, &ip1, &il1, &op1, &ol1); if (r1 != ERR) { size_t s = reiconv_iconv(a, 0, 0, &op1, &ol1); sym_assert(s == 0, "flush succeeds"); }
  size_t r2 = reiconv_iconv(b, &ip2, &il2, &op2, &ol2);
  if (r2 == 0) { reiconv_iconv(b, 0, 0, &op2, &ol2); sym_assert(r1 == 0, "what converts without loss converts the same when discarding"); sym_reach(4); }
  else {
    /* unencodable: dropped */
    sym_assert(r1 <= 1, "a character that cannot be encoded is dropped and counted at most once"); sym_assert(r1 == 1, "a character that cannot be encoded is counted");
    op2 = o2; ol2 = 64; ip2 = (char *)&w[1]; il2 = 4; r2 = reiconv_iconv(c, &ip2, &il2, &op2, &ol2); reiconv_iconv(c, 0, 0, &op2, &ol2); sym_reach(5);
  }
  sym_assert(il1 == 0, "everything is consumed");
  sym_assert(ol1 == ol2, "same amount of output as without the dropped character"); if (ol1 == ol2) sym_assert(hx_eq(o1, o2, 64 - ol1), "same output as without the dropped character");
  sym_obs(1, r1); sym_obs(2, ol1);
  reiconv_handle_close(a); reiconv_handle_close(b); reiconv_handle_close(c);
}
/* ---- C09: characters the target lacks.  params: - - - lo hi next; data: X prefix(UCS-4 words) */
void h_unenc(void) {
  const char *x = sym_data(0); reiconv_t a = hx_open(INTERNAL, x, 0), d = hx_open(INTERNAL, x, 1), f = hx_open(INTERNAL, x, 0), g = hx_open(INTERNAL, x, 0);
  hx_prefix(a, sym_data(1), sym_datalen(1)); hx_prefix(d, sym_data(1), sym_datalen(1)); hx_prefix(f, sym_data(1), sym_datalen(1)); hx_prefix(g, sym_data(1), sym_datalen(1));
  uint32_t *w = sym_buf(8, 8, 0); w[0] = sym_u(32, sym_param(3), sym_param(4)); w[1] = sym_param(5); sym_freeze(w);
  static const uint32_t fffd[1] = {0xfffd};
  char *o1 = sym_buf(64, 64, 0), *o2 = sym_buf(64, 64, 0), *o3 = sym_buf(64, 64, 0);
  char *ip = (char *)w, *op = o2; size_t il = 4, ol = 64; size_t rd = reiconv_iconv(d, &ip, &il, &op, &ol); uint64_t nd = 64 - ol; /* 1: dropped because it cannot be represented */
  ip = (char *)fffd; op = o3; il = 4; ol = 64; size_t rf = reiconv_iconv(f, &ip, &il, &op, &ol); uint64_t nf = 64 - ol; /* 0: the target has U+FFFD */
  ip = (char *)w; op = o1; il = 8; ol = 64; size_t r = reiconv_iconv(a, &ip, &il, &op, &ol); int e = r == ERR ? errno : 0; uint64_t n = 64 - ol;
  int tag = (w[0] >> 7) == (0xE0000 >> 7);
  sym_assert((rd == 0) | (rd == 1), "one character is lost at most");
  sym_assert((rd == 0) | (nd == 0), "nothing is written for a dropped character");
  sym_assert(!tag | (rd == 0), "tag characters are dropped silently or encoded");
  if (rd == 0) { sym_assert(r == 0, "a character that can be represented is converted, and is no loss"); sym_assert(il == 0, "everything is consumed"); sym_reach(1); }
  else if (rf == 0) {
    sym_reach(2); sym_assert(r == 1, "a substituted character is counted once"); sym_assert(il == 0, "everything is consumed after a substitution");
    

    sym_assert(n >= nf, "U+FFFD takes the place of the character"); if (n >= nf) sym_assert(hx_eq(o1, o3, nf), "U+FFFD takes the place of the character");
  } else {
    sym_reach(3); sym_assert(e == EILSEQ, "a character that cannot be represented is an error"); sym_assert((il == 8) & (ip == (char *)w), "the character is left unconsumed"); sym_assert(n == 0, "nothing is written for it");
    /* the caller skips it and goes on: as if it had not been there */
    ip = (char *)&w[1]; op = o1; il = 4; ol = 64; size_t s = reiconv_iconv(a, &ip, &il, &op, &ol); if (s != ERR) s = reiconv_iconv(a, 0, 0, &op, &ol); uint64_t na = 64 - ol;
    ip = (char *)&w[1]; op = o2; il = 4; ol = 64; size_t t = reiconv_iconv(g, &ip, &il, &op, &ol); if (t != ERR) t = reiconv_iconv(g, 0, 0, &op, &ol); uint64_t ng = 64 - ol;
    sym_assert((s == t) & (na == ng), "the failure leaves no trace in the encoder"); if (na == ng) sym_assert(hx_eq(o1, o2, na), "the failure leaves no trace in the output");
  }
  sym_obs(1, r); sym_obs(2, n); sym_obs(3, rd);
  reiconv_handle_close(a); reiconv_handle_close(d); reiconv_handle_close(f); reiconv_handle_close(g);
}
/* an error is repeatable: calling again makes no progress and gives the same error.  params: mode n cap lo hi; data: from to prefix */
void h_retry(void) {
  int mode = sym_param(0); uint64_t n = sym_param(1), cap = sym_param(2); size_t len = hx_inlen(mode, n);
  reiconv_t a = hx_open(sym_data(0), sym_data(1), 0); hx_prefix(a, sym_data(2), sym_datalen(2));
  char *in = hx_input(mode, n, sym_param(3), sym_param(4)), *ip = in; char *o = sym_buf(cap, cap, 0x5a), *op = o; size_t il = len, ol = cap;
  size_t r = reiconv_iconv(a, &ip, &il, &op, &ol); int e = r == ERR ? errno : 0; sym_obs(1, r); sym_obs(2, il); sym_obs(3, ol);
  if (r != ERR) { sym_reach(4); return; }
  char *ip2 = ip, *op2 = op; size_t il2 = il, ol2 = ol; sym_clear_errno();
  size_t r2 = reiconv_iconv(a, &ip2, &il2, &op2, &ol2); int e2 = r2 == ERR ? errno : 0;
  sym_assert((r2 == ERR) & (e2 == e), "the same error again"); sym_assert((ip2 == ip) & (il2 == il), "no input consumed by trying again"); sym_assert((op2 == op) & (ol2 == ol), "no output written by trying again");
  sym_reach(e == EILSEQ ? 5 : 6);
  reiconv_handle_close(a);
}
/* ---- C09: a loss is reported whatever the room: a call with any capacity that does not run out of space returns what an ample one
   does. params: mode n capmax lo hi; data: from to prefix */
void h_room(void) {
  int mode = sym_param(0); uint64_t n = sym_param(1), capmax = sym_param(2); size_t len = hx_inlen(mode, n);
  reiconv_t a = hx_open(sym_data(0), sym_data(1), 1), b = hx_open(sym_data(0), sym_data(1), 1);
  hx_prefix(a, sym_data(2), sym_datalen(2)); hx_prefix(b, sym_data(2), sym_datalen(2));
  char *in = hx_input(mode, n, sym_param(3), sym_param(4)), *o1 = sym_buf(128, 128, 0);
  char *ip1 = in, *op1 = o1; size_t il1 = len, ol1 = 128;
  size_t r1 = reiconv_iconv(a, &ip1, &il1, &op1, &ol1); int e1 = r1 == ERR ? errno : 0;
  uint64_t cap = sym_pick(sym_u(64, 0, capmax)); char *oc = sym_buf(capmax, cap, 0);
  char *ip2 = in, *op2 = oc; size_t il2 = len, ol2 = cap;
  size_t r2 = reiconv_iconv(b, &ip2, &il2, &op2, &ol2); int e2 = r2 == ERR ? errno : 0;
  if (e2 == E2BIG) {
    sym_reach(1); char *o3 = sym_buf(128, 128, 0), *op3 = o3; size_t ol3 = 128;
    if (ip2 == in) { r2 = reiconv_iconv(b, &ip2, &il2, &op3, &ol3); e2 = r2 == ERR ? errno : 0; sym_assert((r1 == r2) & (e1 == e2), "a loss is counted when the call is repeated with room"); }
  } else { sym_reach(2); sym_assert((r1 == r2) & (e1 == e2), "a loss is counted whatever room is left"); }
  reiconv_handle_close(a); reiconv_handle_close(b);
}
/* ---- C10: two descriptors, every interleaving of their calls, compared with each alone; no writes to global data.
   params: mode n1 m1 lo hi lo2 hi2; data: from1 to1 prefix1 from2 to2 prefix2 */
struct hx_run { reiconv_t cd; char *in, *out; size_t il, ol, len; uint64_t n; char *ip, *op; size_t res[4]; int err[4], step; const char *prefix; size_t pn; const char *from, *to; };
static void hx_act(struct hx_run *x) { /* the calls of one history: open and prefix, first piece, rest, flush and close */
  switch (x->step++) {
  case 0: x->cd = hx_open(x->from, x->to, 0); hx_prefix(x->cd, x->prefix, x->pn); x->ip = x->in; x->op = x->out; x->ol = 96; x->il = 0; break;
  case 1: x->il = x->len > 1 ? x->len / 2 : x->len; x->res[0] = reiconv_iconv(x->cd, &x->ip, &x->il, &x->op, &x->ol); x->err[0] = x->res[0] == ERR ? errno : 0; break;
  case 2: x->il = x->len - (x->ip - x->in); x->res[1] = reiconv_iconv(x->cd, &x->ip, &x->il, &x->op, &x->ol); x->err[1] = x->res[1] == ERR ? errno : 0; break;
  case 3: x->res[2] = reiconv_iconv(x->cd, 0, 0, &x->op, &x->ol); break;
  case 4: reiconv_handle_close(x->cd); break;
  }
}
static void hx_same(struct hx_run *x, struct hx_run *y) {
  sym_assert((x->res[0] == y->res[0]) & (x->err[0] == y->err[0]) & (x->res[1] == y->res[1]) & (x->err[1] == y->err[1]) & (x->res[2] == y->res[2]), "same results as alone");
  sym_assert((x->il == y->il) & (x->ol == y->ol), "same input consumed and output written as alone"); if (x->ol == y->ol) sym_assert(hx_eq(x->out, y->out, 96 - x->ol), "same output as alone");
}
static void hx_setup(struct hx_run *x, int mode, char *in, uint64_t n, int d) { x->in = in; x->len = hx_inlen(mode, n); x->out = sym_buf(96, 96, 0); x->step = 0; x->from = sym_data(d); x->to = sym_data(d + 1); x->prefix = sym_data(d + 2); x->pn = sym_datalen(d + 2); x->res[0] = x->res[1] = x->res[2] = 0; x->err[0] = x->err[1] = 0; }
void h_indep(void) {
  int mode = sym_param(0); uint64_t n = sym_param(1), m = sym_param(2); struct hx_run a, b, c, d;
  sym_track_globals(1);
  char *x = hx_input(mode, n, sym_param(3), sym_param(4)), *y = hx_input(mode, m, sym_param(5), sym_param(6));
  hx_setup(&a, mode, x, n, 0); hx_setup(&c, mode, x, n, 0); hx_setup(&b, mode, y, m, 3); hx_setup(&d, mode, y, m, 3);
  for (int i = 0; i < 5; i++) hx_act(&c);
  for (int i = 0; i < 5; i++) hx_act(&d);
  uint64_t sched = sym_pick(sym_u(8, 0, sym_param(7) - 1)); /* one of the listed schedules; data 6 holds ten moves each */
  const char *mv = sym_data(6) + 10 * sched; for (int i = 0; i < 10; i++) hx_act(mv[i] == 'a' ? &a : &b);
  hx_same(&a, &c); hx_same(&b, &d);
  sym_assert(sym_gwrites() == 0, "conversion modifies no global data");
  sym_assert(sym_live() == 0, "everything is released");
  sym_reach(1); sym_obs(1, a.ol); sym_obs(2, b.ol); sym_obs(3, a.res[1]);
}
