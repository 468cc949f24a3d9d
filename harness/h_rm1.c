// The first-order Reed-Muller decoders of rm1_ml.c: most likely word, list of the most likely words.
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include "sym.h"
#include "common/typedefs.h"
#include "formats/formats.h"
#include "rm1_ml/rm1_ml.h"
int show_msg(char *s) { (void)s; return 0; } int err_msg(char *s) { (void)s; return 0; } int msg_printf(char *f, ...) { (void)f; return 0; } void msg_flush(void) {}
enum { SH, LST, FINP, DOTP };
static int m, n, fn, want, got; // want: list size asked for, got: words returned
static unsigned rs;
static double unif(void) { rs = rs * 1664525u + 1013904223u; return (rs >> 8) / 16777216.0; }
static double gauss(void) { double s = 0; int i; for (i = 0; i < 12; i++) s += unif(); return s - 6.0; }
static int cw(int t, int j) { int w, v = t & 1; for (w = 1; w <= m; w++) if (((1 << (w - 1)) & j) == 0) v ^= (t >> w) & 1; return v; } // bit w of t: x[m - w]
static int run(double *y, int *x) {
  double e[64]; int i;
  if (fn == SH) return rm1_dec_sh(m, y, x);
  if (fn == LST) return rm1_dec_lst(m, y, want, x);
  VY_TO_FORMAT(y, e, n); for (i = 0; i < n; i++) y[i] = e[i]; // the caller converts
  return fn == FINP ? rm1_dec_sh_finp(m, y, x) : rm1_dec_sh_dotp(m, y, x);
}
void harness(void) {
  int i, j, t, p, np = sym_param("np", 1), *z, live, used, xs[16]; double *y, *v, R;
  m = sym_param("m", 3); n = 1 << m; fn = sym_param("fn", 0); want = fn == LST ? sym_param("lsiz", 2) : 1; got = want > n ? n : want;
  live = sym_heap_live();
  if (sym_param("oom", 0)) {
    z = (int *)malloc(got * (m + 1) * sizeof(int)); y = (double *)malloc(n * sizeof(double));
    for (i = 0; i < n; i++) y[i] = -1.0;
    live = sym_heap_live();
    sym_fail_alloc(1); i = run(y, z);
    if (sym_fail_alloc(0)) sym_assert(i != 0, "a decoder short of memory reports success"); else sym_assert(i == 0, "the decoder fails");
    sym_assert(sym_heap_live() == live, "the decoder leaves memory allocated");
    free(z); free(y); sym_cover("end"); return;
  }
  for (j = 0; j <= m; j++) xs[j] = sym_param("noise", 1) ? sym_bit_i("x", j) : 0;
  for (p = 0; p < np; p++) {
    z = (int *)malloc(got * (m + 1) * sizeof(int)); y = (double *)malloc(n * sizeof(double)); v = (double *)malloc(n * sizeof(double));
    if (sym_param("noise", 1)) { // concrete noise, every codeword
      double corr[128]; int o[128], tie = 0, strong = sym_param("strong", 0);
      rs = 7919u * (unsigned)sym_param("seed", 1) + 104729u * p + 1;
      for (i = 0; i < n; i++) v[i] = strong ? -(strong * (1.0 + unif())) : (-1.0 + sym_param("sg", 150) / 100.0 * gauss()) * 9.0 / n; // log-likelihood ratio of a one
      for (t = 0; t < 2 * n; t++) { corr[t] = 0; for (i = 0; i < n; i++) corr[t] += cw(t, i) ? v[i] : -v[i]; o[t] = t; }
      for (t = 0; t < got + 1; t++) for (j = t + 1; j < 2 * n; j++) { if (fabs(corr[o[j]] - corr[o[t]]) < 1e-6) tie = 1; if (corr[o[j]] > corr[o[t]]) { int k = o[t]; o[t] = o[j]; o[j] = k; } }
      { double a = 0; for (i = 0; i < n; i++) a += fabs(v[i]); if (a > 17) tie = 1; } // sums beyond are clipped
      if (strong) tie = 0; // only the first word is compared
      if (tie) { free(z); free(y); free(v); continue; }
      for (i = 0; i < n; i++) { int b = xs[0], w; for (w = 1; w <= m; w++) if (((1 << (w - 1)) & i) == 0) b ^= xs[w]; y[i] = (1.0 - 2.0 * b) * v[i]; }
      sym_assert(run(y, z) == 0, "the decoder fails");
      for (j = 0; j < (strong ? 1 : got); j++) for (t = 0; t <= m; t++) sym_assert_eq(z[j * (m + 1) + m - t], xs[t] ^ (o[j] >> t & 1), j ? "the list does not hold the most likely words in order" : "the decision is not the most likely word");
      sym_cover("compared");
    } else { // every received vector
      R = 17.0 / n;
      for (i = 0; i < n; i++) y[i] = v[i] = sym_real_i("y", i, -R, R);
      sym_assert(run(y, z) == 0, "the decoder fails");
      used = 0;
      for (j = 0; j < got; j++) {
        int a = 0, b;
        for (t = 0; t <= m; t++) a |= sym_concrete(z[j * (m + 1) + m - t]) << t;
        for (b = 0; b < 2 * n; b++) if (b != a && !(used >> b & 1)) {
          double d = 0;
          for (i = 0; i < n; i++) if (cw(a, i) != cw(b, i)) { if (cw(a, i)) d += v[i]; else d -= v[i]; }
          sym_assert(d >= -1e-6, "a word is more likely than one listed before it");
        }
        sym_assert(!(used >> a & 1), "a word is listed twice");
        used |= 1 << a;
      }
      sym_cover("compared");
    }
    for (i = 0; i < got * (m + 1); i++) { char b[20]; sprintf(b, "z%d_%d", p, i); sym_observe_int(b, z[i]); }
    free(z); free(y); free(v);
  }
  sym_assert(sym_heap_live() == live, "the decoder leaves memory allocated");
  sym_cover("end");
}
