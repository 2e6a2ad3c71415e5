/* Dumps what the built library maps; used once by make_tables.py, whose result is compared with the published tables. */
#include <cppp/reiconv.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int hexd(const char *s, unsigned char *o) { int n = 0; if (*s == '-') return 0; for (; s[0] && s[1]; s += 2) { unsigned x; sscanf(s, "%2x", &x); o[n++] = x; } return n; }
static reiconv_t op(int f, int t, unsigned char *p, int n) { reiconv_t cd = reiconv_open_from_index(f, t, 0); char b[512], *o = b, *i = (char *)p; size_t il = n, ol = sizeof b; if (n) reiconv_iconv(cd, &i, &il, &o, &ol); return cd; }
int main(void) {
  char kind[4], name[64], px[128], hd[128]; long lo; int in = reiconv_lookup_from_name("UCS-4-INTERNAL");
  while (scanf("%3s %63s %127s %127s %ld", kind, name, px, hd, &lo) == 5) {
    int x = reiconv_lookup_from_name(name); if (x < 0) { fprintf(stderr, "unknown %s\n", name); return 1; }
    unsigned char p[64], h[64]; int pn = hexd(px, p), hn = hexd(hd, h);
    if (*kind == 'D') {
      for (int k = 1; k <= 2; k++) { int tot = k == 1 ? 256 : 65536; uint32_t *A = calloc(tot, 4), *B = calloc(tot, 4);
        for (int v = 0; v < tot; v++) {
          reiconv_t cd = op(x, in, p, pn); char b[16]; memcpy(b, h, hn); if (k == 1) b[hn] = v; else { b[hn] = v >> 8; b[hn + 1] = v; }
          uint32_t o[16]; char *ip = b, *oq = (char *)o; size_t il = hn + k, ol = sizeof o; errno = 0;
          size_t r = reiconv_iconv(cd, &ip, &il, &oq, &ol); int e = r == (size_t)-1 ? errno : 0;
          if (r == 0) r = reiconv_iconv(cd, 0, 0, &oq, &ol);
          int n = (sizeof o - ol) / 4;
          if (r == 0 && n >= 1 && n <= 2) { A[v] = o[0] + 1; B[v] = n == 2 ? o[1] : 0; }
          else if (e == EINVAL) A[v] = 0x80000000u; /* incomplete */
          reiconv_handle_close(cd);
        }
        fwrite(A, 4, tot, stdout); fwrite(B, 4, tot, stdout); free(A); free(B); }
    } else {
      uint64_t *E = calloc(65536, 8); int exact = *hd == 'x';
      for (int v = 0; v < 65536; v++) {
        uint32_t w = lo + v; if ((w >> 7) == (0xe0000 >> 7)) continue; reiconv_t cd = op(in, x, p, pn); char b[64], *ip = (char *)&w, *oq = b; size_t il = 4, ol = sizeof b;
        size_t r = reiconv_iconv(cd, &ip, &il, &oq, &ol);
        if (r == 0) { if (!exact) E[v] = 1; else { reiconv_iconv(cd, 0, 0, &oq, &ol); uint64_t n = sizeof b - ol, val = 0; if (n > 4 || n == 0) { fprintf(stderr, "%s %x len %d\n", name, w, (int)n); } for (unsigned i = 0; i < n; i++) val = val << 8 | (unsigned char)b[i]; E[v] = val | n << 32; } }
        reiconv_handle_close(cd);
      }
      fwrite(E, 8, 65536, stdout); free(E);
    }
    fflush(stdout);
  }
}
