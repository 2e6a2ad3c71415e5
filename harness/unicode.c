#include "core.h"
/* Reference definitions of the Unicode encodings, written from RFC 3629, RFC 2781, UAX 19, RFC 2152, ISO C99 6.4.3 and the Java rules. */
enum { UTF8, UTF16BE, UTF16LE, UTF16, UTF32BE, UTF32LE, UTF32, UCS2BE, UCS2LE, UCS2, UCS4BE, UCS4LE, UCS4, C99, JAVA, UTF7 };
enum { R_CHAR, R_MORE, R_BAD, R_SKIP };
struct rs { int little, active, nb; uint32_t bits; size_t used; uint32_t wc; };
static int hx_surr(uint32_t w) { return (w >> 11) == 0x1b; }
static int hx_unit2(const uint8_t *p, int little) { return little ? p[0] | p[1] << 8 : p[0] << 8 | p[1]; }
static uint32_t hx_unit4(const uint8_t *p, int little) { return little ? p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24 : (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
/* tables rather than comparisons, to keep the number of paths small */
/* hexadecimal digits */
static const int8_t ref_hex_t[256] = {-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,-1,-1,-1,-1,-1,-1,-1,10,11,12,13,14,15,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,10,11,12,13,14,15,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1};
/* base64 digits A-Z a-z 0-9 + / */
static const int8_t ref_b64_t[256] = {-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-1,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1};
/* sets D and O of RFC 2152, space, tab, line feed, carriage return */
static const int8_t ref_direct_t[256] = {0,0,0,0,0,0,0,0,0,1,1,0,0,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,1,0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static int hx_hex(uint8_t c) { return ref_hex_t[c]; }
static int hx_b64(uint8_t c) { return ref_b64_t[c]; }
static int hx_direct(uint8_t c) { return ref_direct_t[c]; }
static int hx_cont(uint8_t c) { return (c & 0xc0) == 0x80; }
static int hx_step(int kind, struct rs *s, const uint8_t *p, size_t n) {
  switch (kind) {
  case UTF8: {
    uint8_t c = p[0]; int len = c < 0x80 ? 1 : c < 0xc0 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf8 ? 4 : 0;
    if (len == 0) return R_BAD;
    if (c == 0xc0 || c == 0xc1) return R_BAD;
    s->used = len;
    if (len == 1) { s->wc = c; return R_CHAR; }
    if (n < (size_t)len) return R_MORE;
    uint32_t w = c & (len == 2 ? 0x1f : len == 3 ? 0x0f : 0x07); int ok = 1;
    for (int i = 1; i < len; i++) { ok &= hx_cont(p[i]); w = w << 6 | (p[i] & 0x3f); }
    ok &= w >= (len == 2 ? 0x80u : len == 3 ? 0x800u : 0x10000u); ok &= w <= 0x10ffff; ok &= !hx_surr(w);
    s->wc = w; return ok ? R_CHAR : R_BAD; }
  case UTF16BE: case UTF16LE: case UTF16: {
    if (n < 2) return R_MORE;
    int le = kind == UTF16LE ? 1 : kind == UTF16BE ? 0 : s->little; uint32_t u = hx_unit2(p, le); s->used = 2;
    if (kind == UTF16 && u == 0xfeff) return R_SKIP;
    if (kind == UTF16 && u == 0xfffe) { s->little = !s->little; return R_SKIP; }
    if (!hx_surr(u)) { s->wc = u; return R_CHAR; }
    if (u >= 0xdc00) return R_BAD;
    if (n < 4) return R_MORE;
    uint32_t v = hx_unit2(p + 2, le); if ((v >> 10) != 0x37) return R_BAD;
    s->used = 4; s->wc = 0x10000 + ((u & 0x3ff) << 10 | (v & 0x3ff)); return R_CHAR; }
  case UCS2BE: case UCS2LE: case UCS2: {
    if (n < 2) return R_MORE;
    uint32_t u = hx_unit2(p, kind == UCS2LE ? 1 : kind == UCS2BE ? 0 : s->little); s->used = 2;
    if (kind == UCS2 && u == 0xfeff) return R_SKIP;
    if (kind == UCS2 && u == 0xfffe) { s->little = !s->little; return R_SKIP; }
    if (hx_surr(u)) return R_BAD;
    s->wc = u; return R_CHAR; }
  case UTF32BE: case UTF32LE: case UTF32: {
    if (n < 4) return R_MORE;
    uint32_t u = hx_unit4(p, kind == UTF32LE ? 1 : kind == UTF32BE ? 0 : s->little); s->used = 4;
    if (kind == UTF32 && u == 0xfeff) return R_SKIP;
    if (kind == UTF32 && u == 0xfffe0000u) { s->little = !s->little; return R_SKIP; }
    if (u > 0x10ffff || hx_surr(u)) return R_BAD;
    s->wc = u; return R_CHAR; }
  case UCS4BE: case UCS4LE: case UCS4: {
    if (n < 4) return R_MORE;
    uint32_t u = hx_unit4(p, kind == UCS4LE ? 1 : kind == UCS4BE ? 0 : s->little); s->used = 4;
    if (kind == UCS4 && u == 0xfeff) return R_SKIP;
    if (kind == UCS4 && u == 0xfffe0000u) { s->little = !s->little; return R_SKIP; }
    if (kind == UCS4 && u > 0x7fffffff) return R_BAD;
    s->wc = u; return R_CHAR; }
  case C99: {
    uint8_t c = p[0]; s->used = 1; s->wc = c;
    if (c >= 0xa0) return R_BAD;
    if (c != '\\') return R_CHAR;
    if (n < 2) return R_MORE;
    if (p[1] != 'u' && p[1] != 'U') return R_CHAR;
    int len = p[1] == 'u' ? 4 : 8; uint32_t w = 0;
    for (int i = 0; i < len; i++) { if (n <= (size_t)(2 + i)) return R_MORE; int d = hx_hex(p[2 + i]); if (d < 0) return R_CHAR; /* not an escape: a plain backslash */ w = w << 4 | d; }
    if ((w < 0xa0 && w != 0x24 && w != 0x40 && w != 0x60) || hx_surr(w)) return R_BAD;
    s->used = 2 + len; s->wc = w; return R_CHAR; }
  case JAVA: {
    uint8_t c = p[0]; s->used = 1; s->wc = c;
    if (c != '\\') return R_CHAR;
    if (n < 2) return R_MORE;
    if (p[1] != 'u') return R_CHAR;
    uint32_t w = 0, v = 0;
    for (int i = 2; i < 6; i++) { if (n <= (size_t)i) return R_MORE; int d = hx_hex(p[i]); if (d < 0) return R_CHAR; w = w << 4 | d; }
    if (!hx_surr(w)) { s->used = 6; s->wc = w; return R_CHAR; }
    if (w >= 0xdc00) return R_CHAR;
    if (n < 7) return R_MORE; if (p[6] != '\\') return R_CHAR; if (n < 8) return R_MORE; if (p[7] != 'u') return R_CHAR;
    for (int i = 8; i < 12; i++) { if (n <= (size_t)i) return R_MORE; int d = hx_hex(p[i]); if (d < 0) return R_CHAR; v = v << 4 | d; }
    if ((v >> 10) != 0x37) return R_CHAR;
    s->used = 12; s->wc = 0x10000 + ((w & 0x3ff) << 10 | (v & 0x3ff)); return R_CHAR; }
  case UTF7: {
    if (!s->active) {
      uint8_t c = p[0]; s->used = 1; s->wc = c;
      if (hx_direct(c)) return R_CHAR;
      if (c != '+') return R_BAD;
      if (n < 2) return R_MORE;
      if (p[1] == '-') { s->used = 2; return R_CHAR; }
      s->active = 1; s->nb = 0; s->bits = 0; return R_SKIP;
    }
    uint32_t bits = s->bits, hi = 0; int nb = s->nb, pair = 0; size_t k = 0;
    for (;;) {
      if (k == n) return R_MORE;
      int d = hx_b64(p[k]);
      if (d < 0) { if (k || bits) return R_BAD; s->active = 0; s->used = p[0] == '-'; return R_SKIP; }
      k++; bits = bits << 6 | d; nb += 6;
      if (nb < 16) continue;
      nb -= 16; uint32_t u = bits >> nb; bits &= (1u << nb) - 1;
      if (pair) { if ((u >> 10) != 0x37) return R_BAD; u = 0x10000 + (hi << 10 | (u & 0x3ff)); }
      else if ((u >> 10) == 0x36) { pair = 1; hi = u & 0x3ff; continue; }
      else if ((u >> 10) == 0x37) return R_BAD;
      s->bits = bits; s->nb = nb; s->used = k; s->wc = u; return R_CHAR;
    } }
  }
  return R_BAD;
}
struct rres { size_t used; int n, err; uint32_t w[32]; };
static void hx_ref(int kind, struct rs *s, const uint8_t *p, size_t n, struct rres *r) {
  r->used = 0; r->n = 0; r->err = 0;
  while (r->used < n) {
    int k = hx_step(kind, s, p + r->used, n - r->used);
    if (k == R_MORE) { r->err = EINVAL; return; }
    if (k == R_BAD) { r->err = EILSEQ; return; }
    if (k == R_CHAR) r->w[r->n++] = s->wc;
    r->used += s->used;
  }
}
/* decoder against the definition.  params: kind n ranges(10,11); data: name, prefix (earlier call), head (same call, concrete), tail */
void h_udec(void) {
  int kind = sym_param(0); uint64_t n = sym_param(1); const char *x = sym_data(0);
  reiconv_t d = hx_open(x, INTERNAL, 0); hx_prefix(d, sym_data(1), sym_datalen(1));
  struct rs s = {0}; struct rres r; hx_ref(kind, &s, (const uint8_t *)sym_data(1), sym_datalen(1), &r);
  uint64_t hl = sym_datalen(2), tl = sym_datalen(3), len = hl + n + tl;
  uint8_t *in = sym_buf(len, len, 0); for (uint64_t i = 0; i < hl; i++) in[i] = sym_data(2)[i];
  for (uint64_t i = 0; i < n; i++) in[hl + i] = sym_u(8, i ? sym_param(10) : sym_param(3), i ? hx_hi2(0) : sym_param(4));
  for (uint64_t i = 0; i < tl; i++) in[hl + n + i] = sym_data(3)[i];
  sym_freeze(in);
  uint32_t *o = sym_buf(128, 128, 0); char *ip = (char *)in, *op = (char *)o; size_t il = len, ol = 128;
  size_t q = reiconv_iconv(d, &ip, &il, &op, &ol); int e = q == ERR ? errno : 0;
  hx_ref(kind, &s, in, len, &r);
  sym_assert(e == r.err, "same outcome as the definition"); sym_assert((q == ERR) | (q == 0), "decoding is not counted as irreversible");
  sym_assert(len - il == r.used, "same input consumed as the definition");
  sym_assert((128 - ol) == 4 * (size_t)r.n, "as many characters as the definition says");
  if ((128 - ol) == 4 * (size_t)r.n) for (int i = 0; i < r.n; i++) sym_assert(o[i] == r.w[i], "the characters the definition says");
  sym_reach(r.err == 0 ? 1 : r.err == EINVAL ? 2 : 3); sym_obs(1, q); sym_obs(2, il); sym_obs(3, ol); if (ol < 128) sym_obs(4, o[0]);
  reiconv_handle_close(d);
}
static int hx_enc(int kind, int bom, uint32_t w, uint8_t *o) { /* exact bytes of the fixed formats; -1: not representable */
  int n = 0, le = kind == UTF16LE || kind == UTF32LE || kind == UCS2LE || kind == UCS4LE; uint32_t u[3]; int k = 0, size = 4;
  switch (kind) {
  case UTF8:
    if (hx_surr(w) || w > 0x10ffff) return -1;
    if (w < 0x80) { o[0] = w; return 1; }
    if (w < 0x800) { o[0] = 0xc0 | w >> 6; o[1] = 0x80 | (w & 63); return 2; }
    if (w < 0x10000) { o[0] = 0xe0 | w >> 12; o[1] = 0x80 | (w >> 6 & 63); o[2] = 0x80 | (w & 63); return 3; }
    o[0] = 0xf0 | w >> 18; o[1] = 0x80 | (w >> 12 & 63); o[2] = 0x80 | (w >> 6 & 63); o[3] = 0x80 | (w & 63); return 4;
  case UTF16BE: case UTF16LE: case UTF16:
    if (hx_surr(w) || w > 0x10ffff || (kind == UTF16 && w == 0xfffe)) return -1;
    size = 2; if (bom) u[k++] = 0xfeff;
    if (w < 0x10000) u[k++] = w; else { u[k++] = 0xd800 | (w - 0x10000) >> 10; u[k++] = 0xdc00 | (w & 0x3ff); } break;
  case UCS2BE: case UCS2LE: case UCS2:
    if (hx_surr(w) || w > 0xffff || (kind == UCS2 && w == 0xfffe)) return -1;
    size = 2; u[k++] = w; break;
  case UTF32BE: case UTF32LE: case UTF32:
    if (hx_surr(w) || w > 0x10ffff) return -1;
    if (bom) u[k++] = 0xfeff; u[k++] = w; break;
  default: if (kind == UCS4 && w > 0x7fffffff) return -1; u[k++] = w; break;
  }
  for (int i = 0; i < k; i++) for (int j = 0; j < size; j++) o[n++] = u[i] >> 8 * (le ? j : size - 1 - j);
  return n;
}
/* encoder against the definition.  params: kind - - lo hi; data: name prefix(words) */
void h_uenc(void) {
  int kind = sym_param(0); reiconv_t e = hx_open(INTERNAL, sym_data(0), 0); hx_prefix(e, sym_data(1), sym_datalen(1));
  int started = sym_datalen(1) > 0;
  uint32_t w = sym_u(32, sym_param(3), sym_param(4)); uint32_t *in = sym_buf(4, 4, 0); in[0] = w; sym_freeze(in);
  uint8_t *o = sym_buf(64, 64, 0); char *ip = (char *)in, *op = (char *)o; size_t il = 4, ol = 64;
  size_t q = reiconv_iconv(e, &ip, &il, &op, &ol);
  uint8_t ref[16]; int bom = !started && (kind == UTF16 || kind == UTF32);
  int n = hx_enc(kind, bom, w, ref), sub = 0;
  if (n < 0) { if ((w >> 7) == (0xE0000 >> 7)) n = 0; else { sub = 1; n = hx_enc(kind, bom, 0xfffd, ref); } }
  sym_assert(q == (size_t)sub, "return value as the definition says"); sym_assert(il == 0, "input consumed");
  sym_assert(64 - ol == (size_t)n, "as many bytes as the definition says"); if (64 - ol == (size_t)n) sym_assert(hx_eq((char *)o, (char *)ref, n), "the bytes the definition says");
  op = (char *)o; ol = 64; q = reiconv_iconv(e, 0, 0, &op, &ol); sym_assert((q == 0) & (ol == 64), "flush writes nothing");
  sym_reach(sub ? 2 : 1); sym_obs(1, sub); sym_obs(2, n); sym_obs(3, ref[0]);
  reiconv_handle_close(e);
}
/* encoders with freedom of choice (UTF-7, C99, JAVA): the definition decodes their output to the same character.  params: kind - - lo hi; data: name prefix(words) */
void h_uencfree(void) {
  int kind = sym_param(0); reiconv_t e = hx_open(INTERNAL, sym_data(0), 0);
  uint64_t pl = sym_datalen(1) / 4; uint32_t *in = sym_buf(4 * pl + 4, 4 * pl + 4, 0); for (uint64_t i = 0; i < pl; i++) in[i] = ((const uint32_t *)sym_data(1))[i];
  uint32_t w = sym_u(32, sym_param(3), sym_param(4)); in[pl] = w; sym_freeze(in);
  if (kind == C99 || kind == JAVA) sym_assume(w != '\\');
  uint8_t *o = sym_buf(96, 96, 0); char *ip = (char *)in, *op = (char *)o; size_t il = 4 * pl + 4, ol = 96;
  size_t q = reiconv_iconv(e, &ip, &il, &op, &ol);
  int rep = kind == C99 ? !hx_surr(w) : (w <= 0x10ffff) & !hx_surr(w);
  sym_assume(!hx_surr(w));
  sym_assert((q == 0) | ((q == 1) & !rep), "only what is not representable is replaced"); sym_assert(il == 0, "input consumed");
  if (q > 1) return;
  sym_assert((q == 1) | rep, "what is not representable is replaced");
  size_t f = reiconv_iconv(e, 0, 0, &op, &ol); sym_assert(f == 0, "flush succeeds");
  struct rs s = {0}; struct rres r; hx_ref(kind, &s, o, 96 - ol, &r);
  sym_assert(r.err == 0, "output is well-formed"); sym_assert(r.n == (int)pl + 1, "one character per character");
  if (r.n == (int)pl + 1) { sym_assert(r.w[pl] == (q == 1 ? 0xfffd : w), "output denotes the same character"); for (uint64_t i = 0; i < pl; i++) sym_assert(r.w[i] == in[i], "earlier characters unchanged"); }
  sym_assert(s.active == 0, "back in the initial state after the flush");
  sym_reach(q == 1 ? 2 : 1); sym_obs(1, q); sym_obs(2, ol);
  reiconv_handle_close(e);
}
