#include "core.h"
/* C07. data: X prefix head table; table layout (decode): A1[256] B1[256] A2[65536] B2[65536] (32-bit words), see tools/make_tables.py */
#define INCOMPLETE 0x80000000u
/* params: k kind lo hi; kind bit 0: pairs compose (every first byte), bit 1: unassigned input may be consumed without output (shift encodings), bit 2: only compare assigned input */
void h_tdec(void) {
  int k = sym_param(0), kind = sym_param(1); uint64_t hn = sym_datalen(2); const char *head = sym_data(2);
  reiconv_t cd = hx_open(sym_data(0), INTERNAL, 0); hx_prefix(cd, sym_data(1), sym_datalen(1));
  uint8_t *in = sym_buf(hn + k, hn + k, 0); for (uint64_t i = 0; i < hn; i++) in[i] = head[i];
  uint64_t b0 = sym_u(8, sym_param(2), sym_param(3)), b1 = 0; in[hn] = b0; if (k == 2) { b1 = sym_u(8, 0, 255); in[hn + 1] = b1; } sym_freeze(in);
  uint32_t A, B;
  if (k == 1) { A = sym_tab(3, 0, 4, b0); B = sym_tab(3, 1024, 4, b0); }
  else { uint32_t f = sym_tab(3, 0, 4, b0); if (!(kind & 1)) sym_assume((f == 0) | (f == INCOMPLETE)); A = sym_tab(3, 2048, 4, b0 << 8 | b1); B = sym_tab(3, 2048 + 262144, 4, b0 << 8 | b1); }
  uint32_t o[16]; char *ip = (char *)in, *op = (char *)o; size_t il = hn + k, ol = sizeof o;
  size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); int e = r == ERR ? errno : 0;
  size_t s = r; if (r == 0) s = reiconv_iconv(cd, 0, 0, &op, &ol);
  uint64_t n = (sizeof o - ol) / 4;
  int ischar = (A != 0) & (A != INCOMPLETE);
  sym_assert(!ischar | (r == 0), "assigned input converts");
  int nul = n == 2 ? o[1] == 0 : 0; /* a second character U+0000 is stored like none */
  sym_assert(!ischar | ((s == 0) & ((n == (B ? 2u : 1u)) | ((B == 0) & nul))), "assigned input gives as many characters as the table says");
  if (n == 1) sym_assert(!ischar | (o[0] + 1 == A), "assigned input gives the character of the table");
  if (n == 2) sym_assert(!ischar | ((o[0] + 1 == A) & (o[1] == B)), "assigned input gives the characters of the table");
  sym_assert((A != INCOMPLETE) | (e == EINVAL), "an unfinished sequence is reported as incomplete");
  if (kind & 2) sym_assert((A != 0) | (n == 0), "unassigned input gives no character");
  else if (!(kind & 4)) sym_assert((A != 0) | ((e == EILSEQ) & ((kind & 1) | (n == 0))), "unassigned input is rejected");
  sym_reach(r == 0 ? 1 : e == EINVAL ? 2 : 3); sym_obs(1, r); sym_obs(2, n); sym_obs(3, n ? o[0] : 0);
  reiconv_handle_close(cd);
}
/* params: exact lo hi has-table; data: X prefix - table (pairs: bytes, length) */
void h_tenc(void) {
  int exact = sym_param(0); uint64_t lo = sym_param(1);
  reiconv_t cd = hx_open(INTERNAL, sym_data(0), 0); hx_prefix(cd, sym_data(1), sym_datalen(1));
  uint32_t *in = sym_buf(4, 4, 0); in[0] = sym_u(32, lo, sym_param(2)); sym_freeze(in);
  sym_assume((in[0] >> 7) != (0xE0000 >> 7));
  uint32_t V = 0, L = 0; if (sym_param(3)) { V = sym_tab(3, 0, 8, in[0] - (lo & ~0xffffull)); L = sym_tab(3, 4, 8, in[0] - (lo & ~0xffffull)); }
  uint8_t *o = sym_buf(64, 64, 0); char *ip = (char *)in, *op = (char *)o; size_t il = 4, ol = 64;
  size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); int e = r == ERR ? errno : 0;
  sym_assert((V == 0) & (L == 0) | (r == 0), "a character of the table is encoded");
  sym_assert(!((V == 0) & (L == 0)) | (r == 1) | (e == EILSEQ), "a character outside the table is refused");
  if (exact && r == 0) {
    size_t s = reiconv_iconv(cd, 0, 0, &op, &ol); uint64_t n = 64 - ol; uint32_t v = 0;
    sym_assert(s == 0, "flush succeeds"); sym_assert(n == L, "the encoding has the length the table says");
    n = sym_pick(n); for (uint64_t i = 0; i < n; i++) v = v << 8 | o[i];
    sym_assert(v == V, "the encoding is the one the table says");
  }
  sym_reach(r == 0 ? 4 : 5); sym_obs(1, r); sym_obs(2, ol);
  reiconv_handle_close(cd);
}

/* GB18030 four-byte form outside the basic plane.  params: lo hi of the first byte; data: X */
void h_gb4(void) {
  reiconv_t cd = hx_open(sym_data(0), INTERNAL, 0); uint8_t *in = sym_buf(4, 4, 0);
  in[0] = sym_u(8, sym_param(0), sym_param(1)); in[1] = sym_u(8, 0x30, 0x39); in[2] = sym_u(8, 0, 255); in[3] = sym_u(8, 0, 255); sym_freeze(in);
  uint32_t o[8]; char *ip = (char *)in, *op = (char *)o; size_t il = 4, ol = sizeof o;
  size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); int e = r == ERR ? errno : 0; uint64_t n = (sizeof o - ol) / 4;
  uint32_t cp = 0x10000 + (((in[0] - 0x90u) * 10 + (in[1] - 0x30u)) * 126 + (in[2] - 0x81u)) * 10 + (in[3] - 0x30u);
  int ok = (in[0] >= 0x90) & (in[0] <= 0xfe) & (in[2] >= 0x81) & (in[2] <= 0xfe) & (in[3] >= 0x30) & (in[3] <= 0x39) & (cp <= 0x10ffff);
  sym_assert(ok == (r == 0), "exactly the assigned four-byte sequences convert"); sym_assert(ok | (e == EILSEQ), "others are rejected");
  if (r == 0) { sym_assert((n == 1) & (il == 0), "one character"); if (n == 1) sym_assert(!ok | (o[0] == cp), "the character of the linear formula"); }
  sym_reach(6); sym_obs(1, r); sym_obs(2, n);
}
void h_gb4enc(void) {
  reiconv_t cd = hx_open(INTERNAL, sym_data(0), 0); uint32_t *in = sym_buf(4, 4, 0); in[0] = sym_u(32, sym_param(0), sym_param(1)); sym_freeze(in);
  uint8_t *o = sym_buf(16, 16, 0); char *ip = (char *)in, *op = (char *)o; size_t il = 4, ol = 16; sym_assume((in[0] >> 7) != (0xE0000 >> 7));
  size_t r = reiconv_iconv(cd, &ip, &il, &op, &ol); uint64_t n = 16 - ol;
  int excl = 0; for (uint64_t i = 0; i < sym_datalen(1) / 4; i++) excl |= ((const uint32_t *)sym_data(1))[i] == in[0]; sym_assume(!excl);
  int ok = in[0] <= 0x10ffff;
  sym_assert(!ok | ((r == 0) & (n == 4)), "every supplementary character has four bytes"); sym_assert(ok | (r != 0), "nothing beyond U+10FFFF is encoded");
  if (r == 0 && n == 4) { uint32_t back = 0x10000 + (((o[0] - 0x90u) * 10 + (o[1] - 0x30u)) * 126 + (o[2] - 0x81u)) * 10 + (o[3] - 0x30u); sym_assert((back == in[0]) & (o[0] >= 0x90) & (o[0] <= 0xe3) & (o[1] >= 0x30) & (o[1] <= 0x39) & (o[2] >= 0x81) & (o[2] <= 0xfe) & (o[3] >= 0x30) & (o[3] <= 0x39), "the bytes of the linear formula"); }
  sym_reach(7); sym_obs(1, r); sym_obs(2, n);
}
