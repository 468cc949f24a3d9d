// CRC: remainder of the message polynomial, validation, bursts. Everything symbolic but the lengths.
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "sym.h"
#include "common/crc.h"
void harness(void) {
  int k = sym_param("k", 8), len = sym_param("len", 3), slack = sym_param("slack", 0), i, j, *x, *x0, *p, *p0, *buf, *out, reg[64], d[64], ok = 1, v;
  x = (int *)malloc((k + len) * sizeof(int)); x0 = (int *)malloc((k + len) * sizeof(int));
  p = (int *)malloc(len * sizeof(int)); p0 = (int *)malloc(len * sizeof(int)); buf = (int *)malloc((k + slack) * sizeof(int));
  for (i = 0; i < k; i++) x[i] = x0[i] = sym_bit_i("x", i);
  if (sym_param("conc", 0)) { unsigned s = 99u + 7u * (unsigned)sym_param("seed", 1); for (i = 0; i < len; i++) { s = s * 1103515245u + 12345u; p[i] = p0[i] = (int)((s >> 16) & 1); } if (sym_param("burst", 0)) p[len - 1] = p0[len - 1] = 1; }
  else for (i = 0; i < len; i++) p[i] = p0[i] = sym_bit_i("p", i);
  for (i = 0; i < slack; i++) buf[k + i] = 1000 + i;
  // reference: shift register division, highest power first
  for (i = 0; i < len; i++) reg[i] = 0;
  for (i = 0; i < k; i++) {
    int fb = reg[0];
    for (j = 0; j < len - 1; j++) reg[j] = reg[j + 1] ^ (fb & p0[j]);
    reg[len - 1] = x0[i] ^ (fb & p0[len - 1]);
  }
  // the received CRC field is any value: written as reference CRC plus an arbitrary difference d
  for (i = 0; i < len; i++) x[k + i] = x0[k + i] = reg[i] ^ (d[i] = i >= sym_param("doff", 0) && i < sym_param("doff", 0) + sym_param("dsym", 64) ? sym_bit_i("d", i) : 0);
  out = calc_crc(x, k, p, len, buf);
  sym_assert(out == buf + (k - len), "the CRC is not delivered in the last cells of the work buffer");
  for (i = 0; i < len; i++) sym_assert_eq(buf[k - len + i], reg[i], "the CRC is not the remainder of the message polynomial");
  for (i = 0; i < len; i++) { char b[20]; sprintf(b, "c%d", i); sym_observe_int(b, buf[k - len + i]); }
  for (i = 0; i < slack; i++) sym_assert(buf[k + i] == 1000 + i, "the work buffer is written past the message length");
  for (i = 0; i < k + len; i++) sym_assert_eq(x[i], x0[i], "the message is modified");
  for (i = 0; i < len; i++) sym_assert_eq(p[i], p0[i], "the polynomial is modified");
  free(buf); buf = (int *)malloc((k + slack) * sizeof(int)); // fresh, uninitialised work buffer
  for (i = 0; i < slack; i++) buf[k + i] = 1000 + i;
  v = is_valid_crc(x, k, p, len, buf);
  for (i = 0; i < len; i++) ok = sym_and(ok, d[i] == 0);
  sym_assert(sym_and(v != 0, ok) || sym_and(v == 0, !ok), "validity is not equality of the received CRC with the CRC of the message");
  for (i = 0; i < slack; i++) sym_assert(buf[k + i] == 1000 + i, "the work buffer is written past the message length");
  for (i = 0; i < k + len; i++) sym_assert_eq(x[i], x0[i], "validation modifies the word");
  sym_observe_int("valid", v != 0);
  if (sym_param("burst", 0)) { // a valid word with a burst of at most len errors is invalid (polynomial with constant term one)
    int b, any = 0, w = sym_param("burst", 0), e[64];
    int st = sym_choice("st", k + len - w + 1);
    sym_assume(p0[len - 1] == 1);
    for (i = 0; i < len; i++) x[k + i] = reg[i];
    if (st >= k || st + w <= k) { // bursts confined to the message or to the CRC field
      for (b = 0; b < w; b++) { e[b] = sym_bit_i("e", b); any = sym_or(any, e[b]); x[st + b] ^= e[b]; }
      sym_assume(any);
      sym_assert(is_valid_crc(x, k, p, len, buf) == 0, "an error burst no longer than the CRC is not detected");
      sym_cover("burst");
    }
  }
  free(x); free(x0); free(p); free(p0); free(buf);
  sym_assert(sym_heap_live() == 0, "memory is left allocated");
  sym_cover("end");
}
