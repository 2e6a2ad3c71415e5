/* Finds the reachable decoder states: breadth-first over single bytes, byte pairs, escape sequences and double-byte characters.
   Build like states.c; prints: encoding, number of states, then each state and byte sequence (hex) */
#include <cppp/reiconv.h>
#include "encoding.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static struct { unsigned st, bo; unsigned char seq[64]; int n, d; } q[20000]; static int h, t = 1; static conv_t k; static reiconv_t cd;
static void tryseq(const unsigned char *s, int n) {
  char o[256], *op = o, *ip = (char *)s; size_t il = n, ol = 256; k->istate = q[h].st; k->ibyteorder = q[h].bo; reiconv_iconv(cd, &ip, &il, &op, &ol); if (il) return;
  for (int i = 0; i < t; i++) if (q[i].st == k->istate && q[i].bo == k->ibyteorder) return;
  if (t >= 20000 || q[h].n + n > 64) return; q[t] = q[h]; q[t].st = k->istate; q[t].bo = k->ibyteorder; q[t].d++; memcpy(q[t].seq + q[t].n, s, n); q[t].n += n; t++;
}
int main(int c, char **v) {
  int max = atoi(v[2]); cd = reiconv_open_from_index(reiconv_lookup_from_name(v[1]), reiconv_lookup_from_name("UCS-4-INTERNAL"), 0); k = (conv_t)cd;
  for (; h < t; h++) if (q[h].d < max) {
    unsigned char b[8];
    for (int x = 0; x < 256; x++) { b[0] = x; tryseq(b, 1); }
    for (int x = 0; x < 65536; x++) { b[0] = x >> 8; b[1] = x; tryseq(b, 2); }
    b[0] = 27; for (int x = 0x20; x < 0x7f; x++) for (int y = 0x20; y < 0x7f; y++) { b[1] = x; b[2] = y; tryseq(b, 3); }
    b[1] = '$'; for (int x = 0x20; x < 0x40; x++) for (int y = 0x20; y < 0x7f; y++) { b[2] = x; b[3] = y; tryseq(b, 4); }
    b[1] = 'N'; for (int x = 0x20; x < 0x80; x++) for (int y = 0x20; y < 0x80; y++) { b[2] = x; b[3] = y; tryseq(b, 4); }
    memcpy(b, "\0\0\xfe\xff", 4); tryseq(b, 4); memcpy(b, "\xff\xfe\0\0", 4); tryseq(b, 4);
  }
  printf("%s %d\n", v[1], t); if (c > 3) for (int i = 0; i < t; i++) { printf("  %x,%x: ", q[i].st, q[i].bo); for (int j = 0; j < q[i].n; j++) printf("%02x", q[i].seq[j]); puts(""); }
}
