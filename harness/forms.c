#include "core.h"
#include <iconv.h>
/* C22: all forms of a call mean the same.  params: mode n form lo hi flags lo2 hi2; data: from to prefix.
   Both descriptors see the prefix and n arbitrary units, then the same request in two forms, then one more arbitrary unit and a flush. */
static int hx_same(reiconv_t a, reiconv_t b, const char *in, size_t len, char **p1, size_t *q1, char **p2, size_t *q2, int tag) {
  char *i1 = (char *)in, *i2 = (char *)in, *s1 = *p1, *s2 = *p2; size_t l1 = len, l2 = len;
  size_t r1 = reiconv_iconv(a, in ? &i1 : 0, in ? &l1 : 0, p1, q1); int e1 = r1 == ERR ? errno : 0;
  size_t r2 = reiconv_iconv(b, in ? &i2 : 0, in ? &l2 : 0, p2, q2); int e2 = r2 == ERR ? errno : 0;
  sym_assert((r1 == r2) & (e1 == e2), "same outcome as after the other form of the call"); sym_assert(l1 == l2, "same input consumed as after the other form of the call");
  uint64_t t1 = sym_pick(*p1 - s1), t2 = sym_pick(*p2 - s2); sym_assert(t1 == t2, "same amount of output as after the other form of the call"); if (t1 == t2) sym_assert(hx_eq(s1, s2, t1), "same output as after the other form of the call");
  sym_obs(tag, r1); sym_obs(tag + 1, t1); return r1 != ERR;
}
void h_forms(void) {
  int mode = sym_param(0), form = sym_param(2); uint64_t n = sym_param(1); reiconv_t a = hx_open(sym_data(0), sym_data(1), sym_param(5)), b = hx_open(sym_data(0), sym_data(1), sym_param(5));
  hx_prefix(a, sym_data(2), sym_datalen(2)); hx_prefix(b, sym_data(2), sym_datalen(2));
  char *o1 = sym_buf(160, 160, 0), *o2 = sym_buf(160, 160, 0), *p1 = o1, *p2 = o2, *nil = 0; size_t q1 = 160, q2 = 160, five = sym_u(64, 0, ~0ull), seven = sym_u(64, 0, ~0ull); const size_t five0 = five, seven0 = seven; /* counts behind null pointers: anything */
  if (n) { char *pre = hx_input(mode, n, sym_param(3), sym_param(4)); hx_same(a, b, pre, hx_inlen(mode, n), &p1, &q1, &p2, &q2, 10); }
  char *m1 = p1, *m2 = p2; size_t z1 = q1, z2 = q2;
  if (form < 4) { /* a plain reset */
    size_t r = reiconv_iconv(a, 0, 0, 0, 0), s = form == 0 ? reiconv_iconv(b, 0, 0, &nil, &five) : form == 1 ? reiconv_iconv(b, &nil, &five, &nil, &seven) : form == 2 ? reiconv_iconv(b, 0, &five, 0, &seven) : reiconv_iconv(b, &nil, &five, 0, 0);
    sym_assert((r == 0) & (s == 0), "every form of a reset returns 0"); sym_reach(1);
  } else if (form < 7) { /* a flush */
    size_t r = reiconv_iconv(a, 0, 0, &p1, &q1), e1 = errno, s = form == 4 ? reiconv_iconv(b, &nil, &five, &p2, &q2) : form == 5 ? reiconv_iconv(b, 0, &five, &p2, &q2) : reiconv_iconv(b, &nil, 0, &p2, &q2);
    sym_assert((r == s) & (r != ERR || e1 == errno), "every form of a flush has the same outcome"); uint64_t t1 = sym_pick(p1 - m1), t2 = sym_pick(p2 - m2); sym_assert((t1 == t2) & (q2 == z2 - t2), "every form of a flush writes as much"); if (t1 == t2) sym_assert(hx_eq(m1, m2, t1), "every form of a flush writes the same"); sym_reach(2);
  } else { /* no input: nothing happens, with or without room */
    char c = 'x', *ip = &c; size_t il = 0, q0 = 0; size_t s = form == 7 ? reiconv_iconv(b, &ip, &il, &p2, &q2) : reiconv_iconv(b, &ip, &il, &p2, &q0);
    sym_assert((s == 0) & (ip == &c) & (il == 0) & (p2 == m2) & (q2 == z2) & (q0 == 0), "a call with an empty input does nothing"); sym_reach(3);
  }
  sym_assert((nil == 0) & (five == five0) & (seven == seven0), "a call without input or output leaves the null pointers and their counts alone"); 
  char *in = hx_input(mode, 1, sym_param(6), sym_param(7)); int ok = hx_same(a, b, in, hx_inlen(mode, 1), &p1, &q1, &p2, &q2, 20); if (ok) hx_same(a, b, 0, 0, &p1, &q1, &p2, &q2, 30);
  reiconv_handle_close(a); reiconv_handle_close(b);
}
/* iconv.h: params: mode n lo hi; data: from to prefix.  The POSIX names do what the library's own do */
void h_iconvh(void) {
  iconv_t a = iconv_open(sym_data(1), sym_data(0)); reiconv_t b = hx_open(sym_data(0), sym_data(1), 0); sym_assert(a != (iconv_t)-1, "iconv_open opens"); if (a == (iconv_t)-1) return;
  int mode = sym_param(0); uint64_t n = sym_param(1); char *in = hx_input(mode, n, sym_param(2), sym_param(3)), *i1 = in, *i2 = in, *o1 = sym_buf(160, 160, 0), *o2 = sym_buf(160, 160, 0), *p1 = o1, *p2 = o2; size_t len = hx_inlen(mode, n), l1 = len, l2 = len, q1 = 160, q2 = 160;
  size_t r1 = iconv(a, &i1, &l1, &p1, &q1); int e1 = r1 == ERR ? errno : 0; size_t r2 = reiconv_iconv(b, &i2, &l2, &p2, &q2); int e2 = r2 == ERR ? errno : 0;
  sym_assert((r1 == r2) & (e1 == e2) & (l1 == l2) & (q1 == q2), "iconv converts like reiconv_iconv"); size_t f1 = iconv(a, 0, 0, &p1, &q1), f2 = reiconv_iconv(b, 0, 0, &p2, &q2); sym_assert((f1 == f2) & (q1 == q2), "iconv flushes like reiconv_iconv"); sym_assert(hx_eq(o1, o2, 160), "iconv gives the same output");
  sym_assert(iconv_close(a) == 0, "iconv_close returns 0"); reiconv_handle_close(b); sym_assert(sym_live() == 0, "iconv_close frees the descriptor"); sym_reach(4); sym_obs(1, r1); sym_obs(2, q1);
}
/* C23: nothing but the descriptor's history and the input counts.  params: mode n lo hi flags; data: from to prefix.
   One run: aligned buffers, zeroed output, errno 0; the other: everything at an odd address, arbitrary old output, arbitrary errno. */
void h_pure(void) {
  int mode = sym_param(0); uint64_t n = sym_param(1), len = hx_inlen(mode, n); const uint64_t C = 48;
  reiconv_t a = hx_open(sym_data(0), sym_data(1), sym_param(4)), b = hx_open(sym_data(0), sym_data(1), sym_param(4)); hx_prefix(a, sym_data(2), sym_datalen(2)); hx_prefix(b, sym_data(2), sym_datalen(2));
  char *in = hx_input(mode, n, sym_param(2), sym_param(3)), *odd = sym_buf(len + 1, len + 1, 0); for (uint64_t i = 0; i < len; i++) odd[i + 1] = in[i]; sym_freeze(odd);
  char *o1 = sym_buf(C, C, 0), *o2 = sym_buf(C + 1, C + 1, 0); for (uint64_t i = 0; i < 9; i++) o2[i] = sym_u(8, 0, 255);
  char *i1 = in, *i2 = odd + 1, *p1 = o1, *p2 = o2 + 1; size_t l1 = len, l2 = len, q1 = C, q2 = C;
  errno = 0; size_t r1 = reiconv_iconv(a, &i1, &l1, &p1, &q1); int e1 = r1 == ERR ? errno : 0; uint64_t t1 = sym_pick(p1 - o1), s1 = 0, s2 = 0;
  errno = sym_u(8, 0, 133); size_t r2 = reiconv_iconv(b, &i2, &l2, &p2, &q2); int e2 = r2 == ERR ? errno : 0;
  sym_assert((r1 == r2) & (e1 == e2) & (l1 == l2) & (q1 == q2), "the outcome depends on the input alone"); uint64_t t2 = sym_pick(p2 - o2 - 1); if (t1 == t2) sym_assert(hx_eq(o1, o2 + 1, t1), "the output depends on the input alone");
  if (!e1) { char *m1 = p1, *m2 = p2; errno = 0; r1 = reiconv_iconv(a, 0, 0, &p1, &q1); errno = sym_u(8, 0, 133); r2 = reiconv_iconv(b, 0, 0, &p2, &q2); sym_assert((r1 == r2) & (q1 == q2), "the outcome of a flush depends on the input alone"); s1 = sym_pick(p1 - m1); if (q1 == q2) sym_assert(hx_eq(m1, m2, s1), "the output of a flush depends on the input alone"); }
  sym_reach(e1 ? 2 : 1); sym_obs(1, t1); sym_obs(2, s1); reiconv_handle_close(a); reiconv_handle_close(b);
}
