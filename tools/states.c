/* Finds the reachable encoder states: breadth-first over all characters, reading the state out of the descriptor.
   cc -I_build/include -Ilib tools/states.c _build/libcppp-reiconv.a -lstdc++; prints: encoding, state, shortest character sequence */
#include <cppp/reiconv.h>
#include "encoding.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(int c, char **v) {
  int max = atoi(v[2]); reiconv_t cd = reiconv_open_from_index(reiconv_lookup_from_name("UCS-4-INTERNAL"), reiconv_lookup_from_name(v[1]), 0); conv_t k = (conv_t)cd;
  static struct { unsigned st; unsigned seq[6]; int n; } q[200000]; int h = 0, t = 1;
  while (h < t) {
    if (q[h].n < max) for (unsigned u = 0; u < 0x110000; u++) {
      char o[64], *op = o, *ip = (char *)&u; size_t il = 4, ol = 64; k->ostate = q[h].st; k->istate = 0; k->discard_ilseq = 1; reiconv_iconv(cd, &ip, &il, &op, &ol);
      unsigned s = k->ostate; if (s == q[h].st) continue; int f = 0; for (int i = 0; i < t && !f; i++) f = q[i].st == s; if (f || t >= 200000) continue;
      q[t] = q[h]; q[t].st = s; q[t].seq[q[t].n++] = u; t++;
    }
    h++;
  }
  printf("%s %d\n", v[1], t); if (c > 3) for (int i = 0; i < t; i++) { printf("  %x:", q[i].st); for (int j = 0; j < q[i].n; j++) printf(" %x", q[i].seq[j]); puts(""); }
}
