// Codec harness. MODE selects the property; see tools/checks.py for the configurations.
#include "hc.h"

static double sgOf(void) { return sym_param("sg", 100) / 100.0; }
// message bits: symbolic, or with "nsym" only a window of nsym bits starting at "off" (the others are concrete pseudo-random bits)
static void sym_msg(const cfg_t *c, const char *name, int *x) {
  int i, w = sym_param("nsym", 0), o = sym_param("off", 0), st = sym_param("step", 1); unsigned v = 12345u + 77u * (unsigned)sym_param("seed", 1);
  for (i = 0; i < c->k; i++) { v = v * 1103515245u + 12345u; x[i] = w == 0 || (i + c->k - o) % c->k * st % c->k < w ? sym_bit_i(name, i) : (int)((v >> 16) & 1); }
}

// encoder against the closed form of the code
static void mode_enc(void) {
  cfg_t c; int i, *x, *x0, *y; double *s;
  cfg_get(&c, 1); cfg_open(&c);
  x = ibuf(c.k); x0 = ibuf(c.k); y = ibuf(c.n); s = dbuf(c.n);
  sym_msg(&c, "x", x); for (i = 0; i < c.k; i++) x0[i] = x[i];
  enc_bpsk(c.inst, x, s);
  ref_enc(&c, x0, y);
  for (i = 0; i < c.n; i++) { sym_assert_eq(s[i] > 0, y[i], "encoder output differs from the codeword of the message"); sym_assert(s[i] == 2.0 * y[i] - 1.0, "encoder output differs from the codeword of the message"); }
  for (i = 0; i < c.k; i++) sym_assert_eq(x[i], x0[i], "encoder modifies the message");
  for (i = 0; i < c.n; i++) { char b[20]; sprintf(b, "s%d", i); sym_observe_dbl(b, s[i]); }
  cdc_close(c.inst); free(x); free(x0); free(y); free(s);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
// noiseless (sign-correct) round trip, symbolic message, concrete magnitudes
static void mode_rt(void) {
  cfg_t c; int i, *x, *xd, *y, rc, p, np = sym_param("np", 1); double *s, *s0;
  cfg_get(&c, 1); cfg_open(&c);
  for (p = 0; p < np; p++) {
    x = ibuf(c.k); xd = ibuf(c.k); y = ibuf(c.n); s = dbuf(c.n); s0 = dbuf(c.n);
    { char b[20]; sprintf(b, "x%d_", p); sym_msg(&c, b, x); }
    ref_enc(&c, x, y);
    seed(sym_param("seed", 1) + 100 * p);
    for (i = 0; i < c.n; i++) s0[i] = s[i] = (2.0 * y[i] - 1.0) * magnitude(&c, sym_param("mag", 0), i);
#if CODEC == 2
    cdc_set_csnrn(c.inst, sym_param("csnrn", 0));
#endif
    cdc_set_sg(c.inst, sgOf());
    rc = dec_bpsk(c.inst, s, xd);
    sym_assert(rc == 0, "decoding a clean word does not report success");
    for (i = 0; i < c.k; i++) sym_assert_eq(xd[i], x[i], "decoding a clean word does not return the message");
    for (i = 0; i < c.n; i++) sym_assert(s[i] == s0[i], "decoder modifies its input");
    for (i = 0; i < c.k; i++) { char b[20]; sprintf(b, "d%d", i); sym_observe_int(b, xd[i]); }
    free(x); free(xd); free(y); free(s); free(s0);
  }
  cdc_close(c.inst);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
// codeword equivariance: noise vector concrete, codeword symbolic
static void mode_eqv(void) {
  cfg_t c; int i, *x, *xd, *z, *y, rc0, rc, p, np = sym_param("np", 4); double *s, *v;
  double sg = sgOf();
  cfg_get(&c, 1); cfg_open(&c);
  x = ibuf(c.k); y = ibuf(c.n);
  sym_msg(&c, "x", x);
  ref_enc(&c, x, y);
  for (p = 0; p < np; p++) {
    xd = ibuf(c.k); z = ibuf(c.k); s = dbuf(c.n); v = dbuf(c.n);
    seed(sym_param("seed", 1) * 1000 + p);
    for (i = 0; i < c.n; i++) v[i] = -1.0 + (sg * (1 + p % 3)) * gauss();
    cdc_set_sg(c.inst, sg);
    for (i = 0; i < c.n; i++) s[i] = v[i];
    rc0 = dec_bpsk(c.inst, s, z);
    for (i = 0; i < c.n; i++) s[i] = (1.0 - 2.0 * y[i]) * v[i];
    rc = dec_bpsk(c.inst, s, xd);
    sym_assert(rc == rc0, "outcome depends on the transmitted codeword");
    for (i = 0; i < c.k; i++) sym_assert_eq(xd[i], (x[i] ^ z[i]), "decision is not equivariant under codewords");
    if (rc0 == 1) sym_cover("erasure");
    for (i = 0; i < c.k; i++) { char b[20]; sprintf(b, "d%d_%d", p, i); sym_observe_int(b, xd[i]); }
    free(xd); free(z); free(s); free(v);
  }
  free(x); free(y);
  cdc_close(c.inst);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
// maximum likelihood: real-valued received vector, decision at least as close as every codeword
static void mode_ml(void) {
  cfg_t c; int i, t, *xd, rc, y[MAXN], yd[MAXN], x[MAXN]; double *s, R;
  cfg_get(&c, 1); cfg_open(&c);
  R = sym_param("range", 0) ? sym_param("range", 0) / 100.0 : 9.0 / c.n; // sum of the channel LLRs stays below the clipping threshold
  xd = ibuf(c.k); s = dbuf(c.n);
  for (i = 0; i < c.n; i++) s[i] = sym_real_i("y", i, -R, R);
  cdc_set_sg(c.inst, sgOf());
  rc = dec_bpsk(c.inst, s, xd);
  sym_assert(rc == 0, "decoder does not report success");
  for (i = 0; i < c.k; i++) { sym_assert(xd[i] == 0 || xd[i] == 1, "decoder output is not binary"); xd[i] = sym_concrete(xd[i]); }
  ref_enc(&c, xd, yd);
  for (t = 0; t < (1 << c.k); t++) {
    double d = 0;
    for (i = 0; i < c.k; i++) x[i] = (t >> i) & 1;
    ref_enc(&c, x, y);
    for (i = 0; i < c.n; i++) if (y[i] != yd[i]) { if (yd[i]) d += s[i]; else d -= s[i]; }
    sym_assert(d >= -1e-7, "a codeword is strictly closer to the received word than the decision");
  }
  for (i = 0; i < c.k; i++) { char b[20]; sprintf(b, "d%d", i); sym_observe_int(b, xd[i]); }
  free(xd); free(s); cdc_close(c.inst);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
// hard-decision error patterns of weight below half the minimum distance
static void mode_hard(void) {
  cfg_t c; int i, *x, *xd, *y, rc, d = sym_param("d", 4), cnt = 0; double *s, a = sym_param("amp", 100) / 100.0;
  cfg_get(&c, 1); cfg_open(&c);
  x = ibuf(c.k); xd = ibuf(c.k); y = ibuf(c.n); s = dbuf(c.n);
  sym_msg(&c, "x", x);
  ref_enc(&c, x, y);
  for (i = 0; i < c.n; i++) {
    int e = 0;
    if (2 * (cnt + 1) < d) e = sym_choice("e", 2); // error positions are chosen one after another
    cnt += e;
    s[i] = (2.0 * (y[i] ^ e) - 1.0) * a;
  }
  cdc_set_sg(c.inst, sgOf());
  rc = dec_bpsk(c.inst, s, xd);
  sym_assert(rc == 0, "decoder does not report success");
  for (i = 0; i < c.k; i++) sym_assert_eq(xd[i], x[i], "an error pattern of weight below d/2 is not corrected");
  for (i = 0; i < c.k; i++) { char b[20]; sprintf(b, "d%d", i); sym_observe_int(b, xd[i]); }
  free(x); free(xd); free(y); free(s);
  cdc_close(c.inst);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
#if CODEC == 3
// Reference successive-cancellation list decoder: every path keeps its own decisions and recomputes its
// soft values from the channel output by definition; the L most likely extensions survive.
#define RL 130
#define SCLN 256
typedef struct { int u[SCLN]; double s; } rpath;
static double ref_soft(const double *e, const int *u, int lv, int n, int i) { // reliability of u_i at a node of length n (e: node input, i: decisions before)
  double a[SCLN]; int j, h = n / 2;
  if (n == 1) return e[0];
  if (i < h) { for (j = 0; j < h; j++) a[j] = e[j] * e[j + h]; return ref_soft(a, u, lv, h, i); }
  else {
    int v[SCLN], st, k;
    for (j = 0; j < h; j++) v[j] = u[j];
    for (st = 1; st < h; st *= 2) for (j = 0; j < h; j += 2 * st) for (k = j; k < j + st; k++) v[k] ^= v[k + st];
    for (j = 0; j < h; j++) {
      double x = v[j] ? -e[j] : e[j];
      a[j] = (x + e[j + h]) / (1.0 + x * e[j + h]);
      if (a[j] > 1.0 - 1e-8) a[j] = 1.0 - 1e-8;
      if (a[j] < -(1.0 - 1e-8)) a[j] = -(1.0 - 1e-8);
    }
    return ref_soft(a, u + h, lv, h, i - h);
  }
}
static double tie_margin;
static int tie_seen;
// number of elements of P[ix[0..n-1]] that beat element p, as a symbolic integer (no branching); ties are outside the claim
static int beaten_by(const rpath *P, const int *ix, int n, int p) {
  int q, r = 0;
  for (q = 0; q < n; q++) if (q != p) {
    double a = P[ix[q]].s, b = P[ix[p]].s; int near = sym_and(a - b <= tie_margin, b - a <= tie_margin);
    if (sym_param("noise", 0)) { if (near) tie_seen = 1; } else sym_assume(!near);
    r += a > b;
  }
  return r;
}
static int ref_scl(const cfg_t *c, const double *y, double sg, int *best, int *nvalid) { // 0 or 1 (erasure), best: kk decisions
  static rpath P[2 * RL], Q[2 * RL]; double e[SCLN], f = 2.0 / (sg * sg); int np = 1, i, p, q, ix[2 * RL], cand[SCLN];
  for (i = 0; i < c->n; i++) { double t = y[i] * f; e[i] = tanh(-0.5 * t); if (e[i] > 1.0 - 1e-8) e[i] = 1.0 - 1e-8; if (e[i] < -(1.0 - 1e-8)) e[i] = -(1.0 - 1e-8); }
  P[0].s = 0;
  for (i = 0; i < c->n; i++) {
    for (p = 0; p < np; p++) {
      double r = ref_soft(e, P[p].u, 0, c->n, i);
      if (c->mask[i] == '0') { P[p].s += log(1.0 + r); P[p].u[i] = 0; }
      else { Q[p] = P[p]; Q[p].u[i] = 1; Q[p].s = P[p].s + log(1.0 - r); P[p].u[i] = 0; P[p].s += log(1.0 + r); }
    }
    if (c->mask[i] == '0') continue;
    for (p = 0; p < np; p++) P[np + p] = Q[p];
    np *= 2;
    if (np > c->L) { // selection of the L largest metrics
      for (p = 0; p < np; p++) ix[p] = p;
      for (p = 0, q = 0; p < np; p++) if (sym_concrete(beaten_by(P, ix, np, p) < c->L)) { if (q < c->L) Q[q] = P[p]; q++; }
      if (tie_seen) return 0;
      sym_assume(q == c->L);
      np = c->L;
      for (p = 0; p < np; p++) P[p] = Q[p];
    }
  }
  *nvalid = 0;
  for (p = 0, q = 0; p < np; p++) {
    int x[SCLN], cr[SCLN], ok = 1, j;
    for (i = 0, j = 0; i < c->n; i++) if (c->mask[i] != '0') cand[j++] = P[p].u[i];
    for (j = 0; j < c->k; j++) x[j] = cand[j];
    if (c->crc_len) { ref_crc(c, x, cr); for (j = 0; j < c->crc_len; j++) if (cr[j] != cand[c->k + j]) ok = 0; }
    if (ok) { ix[q++] = p; (*nvalid)++; }
  }
  if (q == 0) for (p = 0; p < np; p++) ix[q++] = p; // erasure: best of all
  for (p = 0; p < q - 1; p++) if (sym_concrete(beaten_by(P, ix, q, p) == 0)) break;
  { int j = 0; for (i = 0; i < c->n; i++) if (c->mask[i] != '0') best[j++] = P[ix[p]].u[i]; }
  return *nvalid == 0;
}
static void mode_scl(void) {
  cfg_t c; int i, *xd, x[MAXN], y[MAXN], z[MAXN], rc, rr, p, np = sym_param("np", 1), nv; double *s, R, sg = sgOf();
  cfg_get(&c, 1); cfg_open(&c);
  tie_margin = sym_param("noise", 0) ? 1e-9 : 1e-4;
  R = sym_param("range", 0) ? sym_param("range", 0) / 100.0 : 9.0 / c.n;
  cdc_set_sg(c.inst, sg);
  for (p = 0; p < np; p++) {
    xd = ibuf(c.k); s = dbuf(c.n);
    if (sym_param("noise", 0)) { // concrete noise, every codeword
      double v[MAXN];
      seed(sym_param("seed", 1) * 1000 + p);
      for (i = 0; i < c.n; i++) v[i] = -1.0 + (sg * (1 + p % 3)) * gauss();
      tie_seen = 0;
      rr = ref_scl(&c, v, sg, z, &nv);
      if (tie_seen) { free(xd); free(s); continue; }
      sym_msg(&c, "x", x); ref_enc(&c, x, y);
      for (i = 0; i < c.n; i++) s[i] = (1.0 - 2.0 * y[i]) * v[i];
      for (i = 0; i < c.k; i++) z[i] = x[i] ^ z[i];
      rc = dec_bpsk(c.inst, s, xd);
    } else { // every received vector; the first nc samples may be fixed to keep the formula small
      int nc = sym_param("nc", 0);
      seed(sym_param("seed", 1) * 1000 + p);
      for (i = 0; i < c.n; i++) { double g = R * 0.7 * (2 * unif() - 1); s[i] = i < nc ? g : sym_real_i("y", i, -R, R); }
      rr = ref_scl(&c, s, sg, z, &nv);
      rc = dec_bpsk(c.inst, s, xd);
    }
    sym_assert(rc == rr, "success or erasure differs from the list-decoding rule");
    for (i = 0; i < c.k; i++) sym_assert_eq(xd[i], z[i], "the decision is not the one of exact list decoding");
    sym_cover("any");
    sym_cover(rr ? "erasure" : nv > 1 ? "several" : "success");
    for (i = 0; i < c.k; i++) { char b[20]; sprintf(b, "d%d_%d", p, i); sym_observe_int(b, xd[i]); }
    sym_observe_int("rc", rc);
    free(xd); free(s);
  }
  cdc_close(c.inst);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
#endif
// ---- independence of history and of other instances
static void noisy(const cfg_t *c, const int *y, double *s, double sg, int sd) { // sign-symbolic or noisy codeword
  int i; seed(sd);
  for (i = 0; i < c->n; i++) { double v = -1.0 + sg * gauss(); s[i] = (1.0 - 2.0 * y[i]) * v; }
}
static void put_sg(const cfg_t *c, double sg, int csnrn) {
#if CODEC == 2
  cdc_set_csnrn(c->inst, csnrn);
#endif
  (void)csnrn;
  cdc_set_sg(c->inst, sg);
}
static void mode_hist(void) {
  cfg_t a, b; int i, h, nh = sym_param("hist", 2), *x, *xw, *x0, *z0, *z1, *y, rc0, rc1, bopen = 0; double *s, *s0, *e0, *e1, sg = sgOf();
  int *bx = NULL, *by = NULL, *bz = NULL; double *bs = NULL;
  cfg_get(&a, 1); cfg_get(&b, 2);
  x = ibuf(a.k); x0 = ibuf(a.k); xw = ibuf(a.k); z0 = ibuf(a.k); z1 = ibuf(a.k); y = ibuf(a.n); s = dbuf(a.n); s0 = dbuf(a.n); e0 = dbuf(a.n); e1 = dbuf(a.n);
  bx = ibuf(b.k); by = ibuf(b.n); bz = ibuf(b.k); bs = dbuf(b.n);
  sym_msg(&a, "x", x);
  for (i = 0; i < b.k; i++) bx[i] = i == 0 ? x[0] : (i * 5 / 3) & 1;
  if (sym_param("signs", 0)) { seed(sym_param("seed", 1)); for (i = 0; i < a.n; i++) s[i] = (sym_bit_i("sgn", i) ? 1.0 : -1.0) * (0.05 + 2.0 * unif()); }
  else { ref_enc(&a, x, y); noisy(&a, y, s, sg * 1.3, 17 * sym_param("seed", 1)); }
  for (i = 0; i < a.n; i++) s0[i] = s[i];
  for (i = 0; i < a.k; i++) x0[i] = x[i];
  // the same calls on a fresh instance
  cfg_open(&a); put_sg(&a, sg, 0);
  rc0 = dec_bpsk(a.inst, s, z0); enc_bpsk(a.inst, x, e0);
  cdc_close(a.inst);
  // a history of other calls
  cfg_open(&a);
  if (sym_param("ab", 0)) { cfg_open(&b); bopen = 1; }
  for (h = 0; h < nh; h++) {
    int op = sym_choice("op", 8);
    double *t; 
    if (op >= 4 && op <= 5 && !bopen) { cfg_open(&b); bopen = 1; }
    switch (op) {
      case 0: t = dbuf(a.n); for (i = 0; i < a.k; i++) xw[i] = i & 1; enc_bpsk(a.inst, xw, t); free(t); break;
      case 1: t = dbuf(a.n); for (i = 0; i < a.k; i++) xw[i] = (i >> 1) & 1; ref_enc(&a, xw, y); noisy(&a, y, t, sg * 2, 991 + h); put_sg(&a, sg * 0.7, 1); dec_bpsk(a.inst, t, xw); free(t); break;
      case 2: put_sg(&a, sg * 3, 1); break;
      case 3: put_sg(&a, sg, 0); dec_bpsk(a.inst, s, xw); break;
      case 4: ref_enc(&b, bx, by); noisy(&b, by, bs, sg, 55 + h); put_sg(&b, sg * 1.5, 0); dec_bpsk(b.inst, bs, bz); break;
      case 5: enc_bpsk(b.inst, bx, bs); break;
      case 6: if (bopen) { cdc_close(b.inst); bopen = 0; } break;
      case 7: t = dbuf(a.n); for (i = 0; i < a.n; i++) t[i] = (i & 1) ? 1e300 : -1e-300; put_sg(&a, sg, 0); dec_bpsk(a.inst, t, xw); free(t); break;
    }
  }
  put_sg(&a, sg, 0);
  if (sym_param("encfirst", 0)) enc_bpsk(a.inst, x, e1);
  rc1 = dec_bpsk(a.inst, s, z1);
  if (!sym_param("encfirst", 0)) enc_bpsk(a.inst, x, e1);
  sym_assert(rc0 == rc1, "the outcome of a decode depends on earlier calls");
  for (i = 0; i < a.k; i++) sym_assert_eq(z1[i], z0[i], "the result of a decode depends on earlier calls");
  for (i = 0; i < a.n; i++) sym_assert(e1[i] == e0[i], "the result of an encode depends on earlier calls");
  for (i = 0; i < a.n; i++) sym_assert(s[i] == s0[i], "a decode modifies its input");
  for (i = 0; i < a.k; i++) sym_assert_eq(x[i], x0[i], "an encode modifies its input");
  for (i = 0; i < a.k; i++) { char c[20]; sprintf(c, "z%d", i); sym_observe_int(c, z1[i]); }
  if (bopen) cdc_close(b.inst);
  cdc_close(a.inst);
  free(x); free(x0); free(xw); free(z0); free(z1); free(y); free(s); free(s0); free(e0); free(e1); free(bx); free(by); free(bz); free(bs);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
// ---- memory safety for received vectors of every sign pattern and of extreme magnitudes, with exact-size buffers
static void mode_mem(void) {
  cfg_t c; int i, *x, rc, p, np = sym_param("np", 1), ns = sym_param("nsign", 8); double *s, *y; char *txt; void *inst = NULL;
  cfg_get(&c, 1);
  { const char *t = cfg_text(&c); txt = (char *)malloc(strlen(t) + 1); strcpy(txt, t); }
  sym_assert(cdc_init(txt, &inst) == 0, "a valid parameter set is rejected by cdc_init");
  free(txt);
  c.inst = inst;
  sym_assert(cdc_get_n(inst) == c.n, "code length differs from 2^m"); sym_assert(cdc_get_k(inst) == c.k, "code dimension differs from the number of information places");
  for (p = 0; p < np; p++) {
    x = (int *)malloc(c.k * sizeof(int)); y = (double *)malloc(c.n * sizeof(double));
    for (i = 0; i < c.k; i++) x[i] = (i + p) % 3 == 0;
    enc_bpsk(inst, x, y);
    for (i = 0; i < c.n; i++) sym_assert(y[i] == 1.0 || y[i] == -1.0, "encoder output is not a BPSK symbol");
    free(x); free(y);
    x = (int *)malloc(c.k * sizeof(int)); s = (double *)malloc(c.n * sizeof(double));
    seed(sym_param("seed", 1) * 100 + p);
    for (i = 0; i < c.n; i++) {
      static const double ext[] = {0.0, 1e-300, 1e300, 1.0, 5e-324, 1e-8, 40.0, 1.7e308};
      double m = 0; int g;
      switch (sym_param("ext", 0)) {
        case 0: m = 0.05 + 2.0 * unif(); break;
        case 1: m = ext[(i + p) % 8]; break;
        case 2: m = ext[(int)(8 * unif())]; break;
        case 3: m = 0.0; break;
        case 4: m = 1.0; break; // every metric ties
        case 5: m = 1e300; break;
      }
      g = (i + p * 3) % c.n < ns ? sym_bit_i(p ? "t" : "g", i) : unif() < 0.5;
      s[i] = g ? m : -m;
    }
    put_sg(&c, sgOf(), 0);
    rc = dec_bpsk(inst, s, x);
    sym_assert(rc == 0 || (c.crc_len > 0 && rc == 1), "decoder reports neither success nor an erasure");
    for (i = 0; i < c.k; i++) sym_assert(x[i] == 0 || x[i] == 1, "decoder output is not binary");
    sym_cover(rc ? "erasure" : "success");
    for (i = 0; i < c.k; i++) { char b[20]; sprintf(b, "d%d_%d", p, i); sym_observe_int(b, x[i]); }
    free(x); free(s);
  }
  cdc_close(inst);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
#if CODEC == 2
// ---- one permutation: decoding is decoding of the permuted word with the identity
static int perm1[16];
static int py_of(const cfg_t *c, int i) { int j, v = 0; for (j = 0; j < c->m; j++) v |= ((i >> j) & 1) << perm1[j]; return v; }
static void mode_perm(void) {
  cfg_t c, d; int i, p, np = sym_param("np", 3), *x, *y, *z1, *z2, *y1, *y2, rc1, rc2; double *s, *t, sg = sgOf();
  cfg_get(&c, 1);
  { int used = 0; char *q = c.perms; // a symbolic choice of the permutation
    for (i = 0; i < c.m; i++) { int v = sym_choice("perm", c.m); sym_assume(!((used >> v) & 1)); used |= 1 << v; perm1[i] = v; q += sprintf(q, "%s%d", i ? " " : "", v); } }
  d = c; d.perms[0] = 0;
  if (sym_param("dup", 0)) { char *q = d.perms; for (i = 0; i < c.m; i++) q += sprintf(q, "%s%d", i ? " " : "", i); }
  cfg_open(&c); cfg_open(&d);
  for (p = 0; p < np; p++) {
    x = ibuf(c.k); y = ibuf(c.n); z1 = ibuf(c.k); z2 = ibuf(c.k); y1 = ibuf(c.n); y2 = ibuf(c.n); s = dbuf(c.n); t = dbuf(c.n);
    { char b[20]; sprintf(b, "x%d_", p); sym_msg(&c, b, x); }
    ref_enc(&c, x, y);
    noisy(&c, y, s, sg * (1 + p % 2), 31 * sym_param("seed", 1) + p);
    for (i = 0; i < c.n; i++) t[i] = s[py_of(&c, i)];
    put_sg(&c, sg, 0); put_sg(&d, sg, 0);
    rc1 = dec_bpsk(c.inst, s, z1); rc2 = dec_bpsk(d.inst, t, z2);
    sym_assert(rc1 == rc2, "permuted decoding has another outcome");
    ref_enc(&c, z1, y1); ref_enc(&c, z2, y2);
    for (i = 0; i < c.n; i++) sym_assert_eq(y1[py_of(&c, i)], y2[i], "decoding with a permutation is not decoding of the permuted word");
    for (i = 0; i < c.k; i++) { char b[20]; sprintf(b, "d%d_%d", p, i); sym_observe_int(b, z1[i]); }
    free(x); free(y); free(z1); free(z2); free(y1); free(y2); free(s); free(t);
  }
  cdc_close(c.inst); cdc_close(d.inst);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
#endif
// ---- concrete noise, every codeword: the decision is the maximum-likelihood message (found by enumeration of the noise word's metrics)
static void mode_nml(void) {
  cfg_t c; int i, t, p, np = sym_param("np", 2), *x, *y, *z, rc; double *s, *v, sg = sgOf();
  cfg_get(&c, 1); cfg_open(&c);
  for (p = 0; p < np; p++) {
    int best = 0; double bd = -1e300, sd = -1e300;
    x = ibuf(c.k); y = ibuf(c.n); z = ibuf(c.k); s = dbuf(c.n); v = dbuf(c.n);
    seed(sym_param("seed", 1) * 77 + p);
    for (i = 0; i < c.n; i++) v[i] = -1.0 + sg * (1 + p % 3) * gauss();
    for (t = 0; t < (1 << c.k); t++) {
      double d = 0; int w[MAXN];
      for (i = 0; i < c.k; i++) w[i] = (t >> i) & 1;
      ref_enc(&c, w, y);
      for (i = 0; i < c.n; i++) d += y[i] ? v[i] : -v[i];
      if (d > bd) { sd = bd; bd = d; best = t; } else if (d > sd) sd = d;
    }
    if (bd - sd > 1e-6) {
      sym_msg(&c, "x", x); ref_enc(&c, x, y);
      for (i = 0; i < c.n; i++) s[i] = (1.0 - 2.0 * y[i]) * v[i];
      put_sg(&c, sgOf(), 0);
      rc = dec_bpsk(c.inst, s, z);
      sym_assert(rc == 0, "decoder does not report success");
      for (i = 0; i < c.k; i++) sym_assert_eq(z[i], (x[i] ^ ((best >> i) & 1)), "the decision is not the closest codeword");
      sym_cover(best ? "moved" : "same");
      for (i = 0; i < c.k; i++) { char b[20]; sprintf(b, "d%d_%d", p, i); sym_observe_int(b, z[i]); }
    }
    free(x); free(y); free(z); free(s); free(v);
  }
  cdc_close(c.inst);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
#if CODEC != 3
// ---- reference recursive (list) decoder of RM codes and subcodes, from the definition: every path keeps its decisions at the border
// nodes and recomputes the soft input of the next one from the channel output.
#define RL 260
typedef struct { unsigned char b[256]; int nb, pm, mk; double s; } rmpath; // mk: what the path went through (1: two symbols flipped, 2: third symbol flipped, 4: last survivor of a cut)
static int won_mk;
static double nd_margin; static int nd_tie;
static int near2(double a, double b) { // ties are outside the claim
  int nr = sym_and(a - b <= nd_margin, b - a <= nd_margin);
  if (sym_param("noise", 1)) { if (nr) nd_tie = 1; } else sym_assume(!nr);
  return nr;
}
static int is_border(int m, int r) { return r == m || (CODEC == 1 ? r == 1 : r == 0); }
static int border_k(int m, int r) { return r == 0 ? 1 : r == m ? 1 << m : m + 1; }
static void border_cw(int m, int r, const unsigned char *b, int *y) {
  int j, t, w, n = 1 << m;
  for (j = 0; j < n; j++) {
    int v = 0;
    if (r == 0) v = b[0];
    else if (r == m) { for (t = n - 1; t >= 0; t--) if ((t & j) == 0) v ^= b[n - 1 - t]; }
    else for (w = m; w >= 0; w--) if (w == 0 || (((1 << (w - 1)) & j) == 0)) v ^= b[m - w]; // RM(1,m)
    y[j] = v;
  }
}
static double box1(double a, double b) { return a * b; }
static double sum1(double a, double b) { double z = (a + b) / (1.0 + a * b); if (z > 1.0 - 1e-8) z = 1.0 - 1e-8; if (z < -(1.0 - 1e-8)) z = -(1.0 - 1e-8); return z; }
static int tgt_m, tgt_r, walk_leaf, walk_bit;
static double tgt_e[256];
static int walk(const cfg_t *c, const double *e, int m, int r, const rmpath *p, int target, int *y) { // 1: the target node is reached
  int j, h = 1 << (m > 0 ? m - 1 : 0), n = 1 << m;
  if (is_border(m, r)) {
    int on = c->mask_len == 0 || c->mask[walk_leaf] != '0';
    if (walk_leaf == target) { tgt_m = m; tgt_r = r; for (j = 0; j < n; j++) tgt_e[j] = e[j]; return 1; }
    walk_leaf++;
    if (on) { border_cw(m, r, p->b + walk_bit, y); walk_bit += border_k(m, r); } else for (j = 0; j < n; j++) y[j] = 0;
    return 0;
  } else {
    double t[128]; int v[128], u[128];
    for (j = 0; j < h; j++) t[j] = box1(e[j], e[j + h]);
    if (walk(c, t, m - 1, r - 1, p, target, v)) return 1;
    for (j = 0; j < h; j++) t[j] = sum1(v[j] ? -e[j] : e[j], e[j + h]);
    if (walk(c, t, m - 1, r, p, target, u)) return 1;
    for (j = 0; j < h; j++) { y[j] = v[j] ^ u[j]; y[j + h] = u[j]; }
    return 0;
  }
}
static int count_border(int m, int r) { return is_border(m, r) ? 1 : count_border(m - 1, r - 1) + count_border(m - 1, r); }
static void bits_of(int m, const int *y, unsigned char *b) { int w, d, v, n = 1 << m; for (w = n - 1; w >= 0; w--) { for (v = 0, d = w; ; d = (d - 1) & w) { v ^= y[n - 1 - d]; if (!d) break; } b[n - 1 - w] = (unsigned char)v; } }
static int nperm; static int pmv[64][16];
static void get_perms(const cfg_t *c) {
  const char *q = c->perms; int j;
  nperm = 0;
  if (!*q) { for (j = 0; j < c->m; j++) pmv[0][j] = j; nperm = 1; return; }
  while (*q) { for (j = 0; j < c->m; j++) { pmv[nperm][j] = atoi(q); while (*q && *q != ' ' && *q != ';') q++; if (*q) q++; } nperm++; }
}
static int py_at(const cfg_t *c, int p, int i) { int j, v = 0; for (j = 0; j < c->m; j++) v |= ((i >> j) & 1) << pmv[p][j]; return v; }
static rmpath RP[RL], RQ[4 * RL];
static void child(const rmpath *p, int *nq, const unsigned char *b, int nb, double s) { rmpath *q = &RQ[(*nq)++]; int i; *q = *p; for (i = 0; i < nb; i++) q->b[q->nb + i] = b[i]; q->nb += nb; q->s = p->s + s; }
static int decide(double s0, double s1) { near2(s0, s1); return sym_concrete(s1 > s0); }
static void full_children(const rmpath *p, int m, int greedy, int *nq) {
  int n = 1 << m, j, t, y[256], o[256]; unsigned char b[256]; double base = 0, pen[256];
  for (j = 0; j < n; j++) {
    double s0 = log(1.0 + tgt_e[j]), s1 = log(1.0 - tgt_e[j]);
    y[j] = decide(s0, s1); base += y[j] ? s1 : s0; pen[j] = y[j] ? s0 - s1 : s1 - s0; o[j] = j;
  }
  bits_of(m, y, b); child(p, nq, b, n, base);
  if (greedy) return;
  if (m == 1) { for (t = 1; t < 4; t++) { int z[2]; z[0] = y[0] ^ (t & 1); z[1] = y[1] ^ (t >> 1); bits_of(1, z, b); child(p, nq, b, 2, base + (t & 1 ? pen[0] : 0) + (t >> 1 ? pen[1] : 0)); } return; }
  for (t = 0; t < 3; t++) for (j = t + 1; j < n; j++) { int k; if (j == n) break; near2(pen[o[t]], pen[o[j]]); if (sym_concrete(pen[o[j]] > pen[o[t]])) { k = o[t]; o[t] = o[j]; o[j] = k; } } // the three least reliable symbols
  for (t = 0; t < 3; t++) {
    int two = 0, i3 = o[t];
    if (t == 2) { near2(pen[o[0]] + pen[o[1]], pen[o[2]]); two = sym_concrete(pen[o[0]] + pen[o[1]] > pen[o[2]]); }
    if (two) { y[o[0]] ^= 1; y[o[1]] ^= 1; bits_of(m, y, b); child(p, nq, b, n, base + pen[o[0]] + pen[o[1]]); RQ[*nq - 1].mk |= 1; y[o[0]] ^= 1; y[o[1]] ^= 1; }
    else { y[i3] ^= 1; bits_of(m, y, b); child(p, nq, b, n, base + pen[i3]); if (t == 2) RQ[*nq - 1].mk |= 2; y[i3] ^= 1; }
  }
}
static void ref_rm(const cfg_t *c, const double *y, double sg, int L, int *x) { // message of the reference decoder
  static double e[256], ep[256]; double f = 2.0 / (sg * sg); int np, nl = count_border(c->m, c->r), t, i, p, q, greedy = CODEC != 2 || L == 1, dummy[256];
  get_perms(c);
  for (i = 0; i < c->n; i++) { e[i] = tanh(-0.5 * (y[i] * f)); if (e[i] > 1.0 - 1e-8) e[i] = 1.0 - 1e-8; if (e[i] < -(1.0 - 1e-8)) e[i] = -(1.0 - 1e-8); }
  np = nperm;
  for (p = 0; p < np; p++) { RP[p].nb = 0; RP[p].pm = p; RP[p].mk = 0; RP[p].s = 0; }
  for (t = 0; t < nl; t++) {
    int nq = 0, on = c->mask_len == 0 || c->mask[t] != '0';
    for (p = 0; p < np; p++) {
      double s0 = 0, s1 = 0; unsigned char b[256];
      for (i = 0; i < c->n; i++) ep[i] = e[py_at(c, RP[p].pm, i)];
      walk_leaf = walk_bit = 0; walk(c, ep, c->m, c->r, &RP[p], t, dummy);
      for (i = 0; i < 1 << tgt_m; i++) { s0 += log(1.0 + tgt_e[i]); s1 += log(1.0 - tgt_e[i]); }
      if (!on) { child(&RP[p], &nq, b, 0, s0); continue; }
      if (tgt_r == tgt_m && tgt_m > 0) full_children(&RP[p], tgt_m, greedy && nperm == 1, &nq);
      else if (tgt_r == 0) {
        if (greedy && nperm == 1) { b[0] = (unsigned char)decide(s0, s1); child(&RP[p], &nq, b, 1, 0); }
        else { b[0] = 0; child(&RP[p], &nq, b, 1, s0); b[0] = 1; child(&RP[p], &nq, b, 1, s1); }
      } else { // RM(1,m): the most likely codeword
        int k = tgt_m + 1, w, best = 0, z[256], bestv = 0; double bs = 0;
        for (w = 0; w < 1 << k; w++) {
          double s = 0;
          for (i = 0; i < k; i++) b[i] = (w >> i) & 1;
          border_cw(tgt_m, 1, b, z);
          for (i = 0; i < 1 << tgt_m; i++) s += z[i] ? log(1.0 - tgt_e[i]) : log(1.0 + tgt_e[i]);
          if (!bestv) { bs = s; bestv = 1; continue; }
          near2(s, bs); if (sym_concrete(s > bs)) { bs = s; best = w; }
        }
        for (i = 0; i < k; i++) b[i] = (best >> i) & 1;
        child(&RP[p], &nq, b, k, 0);
      }
    }
    if (nd_tie) return;
    if (on && nq > L && t < nl - 1) { // the L most likely survive (after the last node only the best matters)
      for (p = 0, q = 0; p < nq; p++) {
        int r = 0, i2;
        for (i2 = 0; i2 < nq; i2++) if (i2 != p) { near2(RQ[i2].s, RQ[p].s); r += RQ[i2].s > RQ[p].s; }
        if (nd_tie) return;
        if (sym_concrete(r < L)) { RP[q++] = RQ[p]; if (sym_concrete(r == L - 1)) RP[q - 1].mk |= 4; }
      }
      np = q;
    } else { for (p = 0; p < nq; p++) RP[p] = RQ[p]; np = nq; }
    sym_assume(np <= RL);
  }
  { int best = -1, cwd[256], Y[256]; rmpath *b = NULL;
    for (p = 0; p < np; p++) {
      walk_leaf = walk_bit = 0;
      for (i = 0; i < c->n; i++) ep[i] = e[i];
      walk(c, ep, c->m, c->r, &RP[p], -1, cwd);
      for (i = 0; i < c->n; i++) Y[py_at(c, RP[p].pm, i)] = cwd[i];
      for (i = 0; i < c->kk; i++) { int w = c->w[i], d, v = 0; for (d = w; ; d = (d - 1) & w) { v ^= Y[c->n - 1 - d]; if (!d) break; } RP[p].b[i] = (unsigned char)v; }
      if (best < 0) { best = p; continue; }
      b = &RP[best];
      if (memcmp(b->b, RP[p].b, c->kk)) near2(RP[p].s, b->s);
      if (sym_concrete(RP[p].s > b->s)) best = p;
    }
    for (i = 0; i < c->kk; i++) x[i] = RP[best].b[i];
    won_mk = RP[best].mk;
  }
}
static void ref_dec(const cfg_t *c, const double *v, double sg, int *z) { // with the variable list: sizes are tried until the decision is close enough
  const char *q = c->varl; int i, y[256], x[256]; double d;
  if (!*q) { ref_rm(c, v, sg, CODEC == 2 ? c->L : 1, z); return; }
  while (*q && !nd_tie) {
    int L = atoi(q); double thr;
    while (*q && *q != ' ') q++;
    thr = atof(q += *q == ' ');
    while (*q && *q != ' ') q++;
    q += *q == ' ';
    ref_rm(c, v, sg, L, z); if (nd_tie) return;
    for (i = 0; i < c->k; i++) x[i] = z[i];
    ref_enc(c, x, y);
    for (d = 0, i = 0; i < c->n; i++) d += (v[i] - (2 * y[i] - 1)) * (v[i] - (2 * y[i] - 1));
    d /= sg * sg;
    near2(d, thr);
    if (sym_concrete(d < thr)) break;
  }
}
static void mode_ref(void) {
  cfg_t c; int i, *xd, x[MAXN], y[MAXN], z[256], rc, p, t, np = sym_param("np", 1), npl; double *s, R, sg = sgOf(); char pl[200]; const char *pq = pl;
  cfg_get(&c, 1); cfg_open(&c);
  nd_margin = sym_param("noise", 1) ? 1e-9 : 1e-4;
  R = sym_param("range", 0) ? sym_param("range", 0) / 100.0 : 9.0 / c.n;
#if CODEC == 2
  cdc_set_csnrn(c.inst, 0);
#endif
  cdc_set_sg(c.inst, sg);
  if (sym_param("noise", 1)) { sym_msg(&c, "x", x); ref_enc(&c, x, y); }
  npl = sym_param_str("ps", "", pl); if (*pq) np = 1000; (void)npl; // ps: the draws to use (picked for what the winning path goes through)
  for (t = 0; t < np; t++) {
    if (npl > 0) { if (!*pq) break; p = atoi(pq); while (*pq && *pq != ' ') pq++; if (*pq) pq++; } else p = t;
    xd = ibuf(c.k); s = dbuf(c.n); nd_tie = 0;
    seed(sym_param("seed", 1) * 1000 + p);
    if (sym_param("noise", 1)) { // concrete noise, every codeword
      double v[256];
      for (i = 0; i < c.n; i++) v[i] = -1.0 + (sg * (1 + p % 3)) * gauss();
      ref_dec(&c, v, sg, z);
      if (nd_tie) { free(xd); free(s); continue; }
      for (i = 0; i < c.n; i++) s[i] = (1.0 - 2.0 * y[i]) * v[i];
      for (i = 0; i < c.k; i++) z[i] = x[i] ^ z[i];
    } else { // every received vector; the first nc samples may be fixed to keep the formula small
      int nc = sym_param("nc", 0);
      for (i = 0; i < c.n; i++) { double g = R * 0.7 * (2 * unif() - 1); s[i] = i < nc ? g : sym_real_i("y", i, -R, R); }
      ref_dec(&c, s, sg, z);
    }
    rc = dec_bpsk(c.inst, s, xd);
    sym_assert(rc == 0, "decoder does not report success");
    for (i = 0; i < c.k; i++) sym_assert_eq(xd[i], z[i], "the decision is not the one of exact recursive decoding");
    sym_cover("compared");
    for (i = 0; i < c.k; i++) { char b[20]; sprintf(b, "d%d_%d", p, i); sym_observe_int(b, xd[i]); }
    free(xd); free(s);
  }
  cdc_close(c.inst);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
#endif
// ---- parameter strings put together from items in any order
#define NITEM 9
static char item[NITEM][400]; static int n_item, after0[NITEM]; // after0: must come after item 0
static void put_words(char *p, const char *w) { for (; *w; w++) *p++ = *w == ' ' || *w == ';' ? '\1' : *w; *p = 0; }
static void add_item(const char *key, const char *val, int a0) { put_words(item[n_item], key); strcat(item[n_item], "\1"); put_words(item[n_item] + strlen(item[n_item]), val); strcat(item[n_item], "\1"); after0[n_item++] = a0; }
static void items_of(const cfg_t *c) {
  char b[300], v[420];
  n_item = 0;
#if CODEC == 3
  sprintf(b, "%d", c->m); add_item("c_m", b, 0);
  add_item("info_bits_mask", c->mask, 0);
  sprintf(b, "%d", c->L); add_item("list_size", b, 0);
  if (c->crc_len) add_item("ca_polar_crc", c->crc, 0);
#else
  sprintf(b, "%d", c->m); add_item("RM_m", b, 0);
  sprintf(b, "%d", c->r); add_item("RM_r", b, 0);
#if CODEC == 2
  add_item("border_node_mask", c->mask, 0);
  sprintf(b, "%d", c->L); add_item("border_node_lsize", b, 0);
  if (c->varl[0]) {
    add_item("use_variable_list", "on", 0);
    sprintf(v, "{ %s }", c->varl); add_item("distance_threshold", v, 0);
  }
#endif
#endif
  if (c->perms[0]) { sprintf(v, "{ %s }", c->perms); add_item("permutations", v, 1); }
}
static const char *unknown_item(int k) { // parameters of others, some with values that look like known keys
  switch (k) {
    case 1: return "foo 5 ";
    case 2: return "grp { RM_m 9 RM_r 7 c_m 9 list_size 3 border_node_mask 1 } ";
    case 3: return "name RM_r ";
    case 4: return "EbNo_values { 1 2.5 } ";
    case 5: return "name c_m code_name permutations ";
    case 6: return "empty { } ";
    case 7: return "RM_mm 2 c_m_ 9 RM_ 3 ";
    default: return "";
  }
}
// one symbolic order of the items with symbolic unknown parameters in between
static void any_order(char *out) {
  int used[NITEM] = {0}, i, j, t, pick, gap = sym_param("gap", 0), nu = 0, orders = sym_param("orders", 1), maxu = sym_param("maxu", 1);
  out[0] = 0;
  for (t = 0; t <= n_item; t++) {
    if (gap && nu < maxu) { int k = sym_choice("unk", gap); if (k) nu++; put_words(out + strlen(out), unknown_item(k)); }
    if (t == n_item) break;
    for (i = 0, j = 0; i < n_item; i++) if (!used[i] && !(after0[i] && !used[0])) j++;
    pick = orders && j > 1 ? sym_choice("ord", j) : orders ? 0 : sym_param("rev", 0) ? j - 1 : 0;
    for (i = 0; i < n_item; i++) if (!used[i] && !(after0[i] && !used[0]) && pick-- == 0) break;
    used[i] = 1; strcat(out, item[i]);
  }
  if (sym_param("lastsep", 1) == 0) { i = (int)strlen(out); if (i) out[i - 1] = 0; }
}
// the same codec from any order of the parameters, with unknown ones in between
static void mode_init(void) {
  cfg_t c; int i, p, *x, *xd, *x2, *y; double *s, *s2; void *in2 = NULL; static char txt[3000]; int rc;
  cfg_get(&c, 1); cfg_open(&c);
  items_of(&c); any_order(txt);
  rc = cdc_init(txt, &in2);
  sym_assert(rc == 0, "a valid parameter set is rejected by cdc_init");
  sym_assert(in2 != NULL, "cdc_init reports success without an instance");
  sym_assert(cdc_get_n(in2) == c.n, "code length differs from 2^m");
  sym_assert(cdc_get_k(in2) == c.k, "code dimension differs from the number of information places");
  x = ibuf(c.k); xd = ibuf(c.k); x2 = ibuf(c.k); y = ibuf(c.n); s = dbuf(c.n); s2 = dbuf(c.n);
  sym_msg(&c, "x", x); ref_enc(&c, x, y);
  enc_bpsk(in2, x, s);
  for (i = 0; i < c.n; i++) sym_assert_eq(s[i] > 0, y[i], "the encoder of a codec depends on the order of its parameters");
  for (p = 0; p < sym_param("np", 2); p++) {
    seed(p + sym_param("seed", 1));
    for (i = 0; i < c.n; i++) s[i] = s2[i] = (p & 1 ? -1.0 : 1.0) + 1.1 * gauss();
#if CODEC == 2
    cdc_set_csnrn(c.inst, 0); cdc_set_csnrn(in2, 0);
#endif
    cdc_set_sg(c.inst, 0.9); cdc_set_sg(in2, 0.9);
    memset(xd, 0, c.k * sizeof(int)); memset(x2, 0, c.k * sizeof(int));
    rc = dec_bpsk(c.inst, s, xd);
    sym_assert(dec_bpsk(in2, s2, x2) == rc, "the decoder of a codec depends on the order of its parameters");
    for (i = 0; i < c.k; i++) sym_assert(xd[i] == x2[i], "the decoder of a codec depends on the order of its parameters");
  }
  sym_observe_int("n", cdc_get_n(in2)); sym_observe_int("k", cdc_get_k(in2));
  cdc_close(c.inst); cdc_close(in2); free(x); free(xd); free(x2); free(y); free(s); free(s2);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
// parameter sets that must be refused: nothing stays allocated, no instance
static void drop(int i) { for (; i + 1 < n_item; i++) { strcpy(item[i], item[i + 1]); after0[i] = after0[i + 1]; } n_item--; }
static int find_item(const char *key) { int i; for (i = 0; i < n_item; i++) if (!strncmp(item[i], key, strlen(key)) && item[i][strlen(key)] == '\1') return i; return -1; }
static void bad(int i, const char *key, const char *val) { if (i >= 0) drop(i); add_item(key, val, 1); }
static void mode_badinit(void) {
  cfg_t c; static char txt[60000]; void *inst = (void *)txt; int rc, kind, i; char b[200], v[900];
  cfg_get(&c, 1); items_of(&c);
  kind = sym_param("kind", 0);
  { // which mandatory parameters are left out
    int nm = CODEC == 3 ? 3 : CODEC == 2 ? 4 : 2, any = 0, miss[4];
    if (kind == 0) { for (i = 0; i < nm; i++) { miss[i] = sym_choice("miss", 2); any |= miss[i]; } sym_assume(any); sym_assume(!(c.perms[0] && miss[0])); for (i = nm - 1; i >= 0; i--) if (miss[i]) drop(i); }
  }
#if CODEC == 3
#define KM "c_m"
#define KMASK "info_bits_mask"
#else
#define KM "RM_m"
#define KMASK "border_node_mask"
#endif
  switch (kind) {
#if CODEC != 3
    case 1: sprintf(b, "%d", c.m + 1 + sym_choice("more", 3)); bad(find_item("RM_r"), "RM_r", b); break;
    case 2: sprintf(b, "-%d", 1 + sym_choice("neg", 3)); bad(find_item("RM_r"), "RM_r", b); break;
    case 3: bad(find_item(KM), KM, "-3"); break;
#else
    case 1: bad(find_item(KM), KM, "-3"); break;
    case 2: // CRC takes all information bits
      { int nb = c.kk + sym_choice("more", 2); for (i = 0; i < nb; i++) b[i] = '1'; }
      b[i] = 0; bad(find_item("ca_polar_crc"), "ca_polar_crc", b); break;
    case 3: bad(find_item("list_size"), "list_size", "0"); break;
#endif
#if CODEC >= 2
    case 4: { int n = sym_choice("len", c.mask_len); if (n == 0) bad(find_item(KMASK), "nothing", "1"); else { strcpy(b, c.mask); b[n] = 0; bad(find_item(KMASK), KMASK, b); } break; }
    case 5: { // permutation of wrong length at the end of the group
      int n = sym_choice("n", 2 * c.m + 2), j; sym_assume(n % c.m != 0);
      strcpy(v, "{ "); for (j = 0; j < n; j++) { sprintf(b, "%d ", j % c.m); strcat(v, b); } strcat(v, "}");
      bad(find_item("permutations"), "permutations", v); break; }
    case 6: { // a value that is no index, at any place
      static const char *w[] = {"-1", "9", "x", "1x", "99999999999", "4294967296", "{", "-0x1"}; int at = sym_choice("at", 2 * c.m), k = sym_choice("w", 8), j;
      strcpy(v, "{ "); for (j = 0; j < 2 * c.m; j++) { if (j == at) sprintf(b, "%s ", w[k]); else sprintf(b, "%d ", c.m - 1 - j % c.m); strcat(v, b); } strcat(v, "}");
      bad(find_item("permutations"), "permutations", v); break; }
    case 7: { // any values with a repetition
      int q[20], j, t, rep = 0;
      for (j = 0; j < c.m; j++) { q[j] = sym_choice("q", c.m + 1); for (t = 0; t < j; t++) rep |= q[t] == q[j]; rep |= q[j] == c.m; }
      sym_assume(rep);
      strcpy(v, "{ "); for (j = 0; j < c.m; j++) { sprintf(b, "%d ", q[j]); strcat(v, b); } strcat(v, "}");
      bad(find_item("permutations"), "permutations", v); break; }
    case 8: bad(find_item("permutations"), "permutations", sym_choice("scal", 2) ? "1" : "1 2"); break;
    case 9: { // never closed
      int n = sym_choice("n", 2 * c.m + 1), j;
      strcpy(v, "{"); for (j = 0; j < n; j++) { sprintf(b, " %d", j % c.m); strcat(v, b); }
      bad(find_item("permutations"), "permutations", v); break; }
    case 10: { // permutations before m
      i = find_item("permutations"); if (i >= 0) drop(i);
      strcpy(v, "{ "); for (i = 0; i < c.m; i++) { sprintf(b, "%d ", i); strcat(v, b); } strcat(v, "}");
      add_item("permutations", v, 0); strcpy(txt, item[n_item - 1]); n_item--; for (i = 0; i < n_item; i++) strcat(txt, item[i]); break; }
    case 11: { // more permutations than there is room for
      int j, n = 10000 / c.m + 1; char *p;
      i = find_item("permutations"); if (i >= 0) drop(i);
      strcpy(txt, ""); for (i = 0; i < n_item; i++) strcat(txt, item[i]);
      p = txt + strlen(txt); p += sprintf(p, "permutations\1{\1"); for (j = 0; j < n; j++) for (i = 0; i < c.m; i++) { *p++ = (char)('0' + i); *p++ = '\1'; } sprintf(p, "}\1"); break; }
    case 12: // a key without value at the very end
      i = sym_choice("key", CODEC == 2 ? 4 : 4); { static const char *k2[] = {"border_node_mask", "border_node_lsize", "permutations", "distance_threshold"}, *k3[] = {"info_bits_mask", "list_size", "permutations", "c_m"}; const char *k = CODEC == 2 ? k2[i] : k3[i]; int f = find_item(k); if (f >= 0) drop(f); sym_assume(f >= 0 || !strcmp(k, "permutations") || !strcmp(k, "distance_threshold")); strcpy(txt, ""); for (i = 0; i < n_item; i++) strcat(txt, item[i]); strcat(txt, k); break; }
#endif
#if CODEC == 2
    case 13: i = find_item("distance_threshold"); if (i >= 0) drop(i); i = find_item("use_variable_list"); if (i >= 0) drop(i); add_item("use_variable_list", "on", 0); break;
    case 14: { static const char *w[] = {"1 2", "{ 1", "{ 1 2.5 3 }", "{ 1 2.5", "5", "{"}; bad(find_item("distance_threshold"), "distance_threshold", w[sym_choice("w", 6)]); break; }
    case 15: { strcpy(v, "{"); int nv = 51 + sym_choice("more", 2); for (i = 0; i < nv; i++) strcat(v, " 1 2.5"); strcat(v, " }"); i = find_item("distance_threshold"); if (i >= 0) drop(i); strcpy(txt, ""); for (i = 0; i < n_item; i++) strcat(txt, item[i]); put_words(txt + strlen(txt), "distance_threshold "); put_words(txt + strlen(txt), v); strcat(txt, "\1"); break; }
#endif
#if CODEC >= 2
    case 16: { // a permutation of a code that has frozen parts
      int j, q[20], id = 1, t, z = sym_choice("z", c.mask_len);
      for (j = 0; j < c.m; j++) { q[j] = sym_choice("q", c.m); for (t = 0; t < j; t++) sym_assume(q[t] != q[j]); id &= q[j] == j; }
      sym_assume(!id);
      strcpy(b, c.mask); b[z] = '0'; sym_assume(strchr(b, '1') != NULL); bad(find_item(KMASK), KMASK, b);
      strcpy(v, "{ "); for (t = 0; t < 2; t++) for (j = 0; j < c.m; j++) { sprintf(b, "%d ", t ? q[j] : j); strcat(v, b); } strcat(v, "}");
      bad(find_item("permutations"), "permutations", v); break; }
#endif
    default: break;
  }
  if (!txt[0]) {
    int last = n_item - 1;
    // the offending parameter last, or first of those that may be
    if (kind == 9 || (kind == 14 && strchr(item[last], '}') == NULL) || sym_choice("place", 2) == 0) { for (i = 0; i < n_item; i++) strcat(txt, item[i]); }
    else { strcat(txt, item[0]); if (last > 0) strcat(txt, item[last]); for (i = 1; i < last; i++) strcat(txt, item[i]); }
  }
  rc = cdc_init(txt, &inst);
  sym_assert(rc != 0, "cdc_init accepts a parameter set that is incomplete or malformed");
  sym_assert(inst == NULL || inst == (void *)txt, "cdc_init reports an error but yields an instance");
  sym_assert(sym_heap_live() == 0, "cdc_init reports an error and leaves memory allocated");
  sym_observe_int("rc", rc != 0);
  sym_cover("end");
}
// ---- running short of memory: the allocation that fails is a symbolic choice
static void mode_oom(void) {
  cfg_t a; int i, g, live, fired, rc, rc0, what = sym_param("what", 0), nat = sym_param("nat", 6), *x, *z0, *z1, *y; double *s, *e0, *e1, sg = sgOf(); char *txt; void *inst = NULL;
  cfg_get(&a, 1);
  x = ibuf(a.k); z0 = ibuf(a.k); z1 = ibuf(a.k); y = ibuf(a.n); s = dbuf(a.n); e0 = dbuf(a.n); e1 = dbuf(a.n);
  { const char *t = cfg_text(&a); txt = (char *)malloc(strlen(t) + 1); strcpy(txt, t); }
  live = sym_heap_live();
  if (what == 0) { // cdc_init
    sym_fail_alloc(1 + sym_choice("at", nat));
    rc = cdc_init(txt, &inst);
    fired = sym_fail_alloc(0);
    if (fired) {
      sym_assert(rc != 0, "cdc_init reports success without the memory it needs");
      sym_assert(inst == NULL, "a failed cdc_init returns an instance");
      sym_assert(sym_heap_live() == live, "a failed cdc_init leaves memory allocated");
      sym_cover("struck");
    }
    else { sym_assert(rc == 0, "a valid parameter set is rejected by cdc_init"); cdc_close(inst); sym_assert(sym_heap_live() == live, "memory is left allocated after cdc_close"); sym_cover("missed"); }
  }
  sym_msg(&a, "x", x);
  if (sym_param("signs", 0)) { seed(sym_param("seed", 1)); for (i = 0; i < a.n; i++) s[i] = ((i * 7 % a.n < sym_param("nsgn", a.n) ? sym_bit_i("sgn", i) : unif() < 0.5) ? 1.0 : -1.0) * (0.05 + 2.0 * unif()); }
  else { ref_enc(&a, x, y); noisy(&a, y, s, sg * 1.3, 17 * sym_param("seed", 1)); }
  cfg_open(&a); put_sg(&a, sg, 0);
  sym_assert(enc_bpsk(a.inst, x, e0) != -1, "a valid message is not encoded");
  rc0 = dec_bpsk(a.inst, s, z0);
  live = sym_heap_live();
  for (g = 0; what && g < sym_param("times", 1); g++) {
    sym_fail_alloc(1 + sym_choice("at", nat));
    rc = what == 1 ? enc_bpsk(a.inst, x, e1) : dec_bpsk(a.inst, s, z1);
    fired = sym_fail_alloc(0);
    if (fired) {
      if (what == 1) sym_assert(rc == -1, "an encoder short of memory does not report an error");
      else sym_assert(rc == -1, "a decoder short of memory does not report an error");
      sym_cover("struck");
    }
    else if (what == 1) { for (i = 0; i < a.n; i++) sym_assert(e1[i] == e0[i], "the result of an encode depends on earlier calls"); sym_cover("missed"); }
    else { sym_assert(rc == rc0, "the outcome of a decode depends on earlier calls"); for (i = 0; i < a.k; i++) sym_assert_eq(z1[i], z0[i], "the result of a decode depends on earlier calls"); sym_cover("missed"); }
    sym_assert(sym_heap_live() == live, "a call that fails leaves memory allocated");
  }
  // the instance is as good as before
  sym_assert(dec_bpsk(a.inst, s, z1) == rc0, "the outcome of a decode depends on a failed call before");
  for (i = 0; i < a.k; i++) sym_assert_eq(z1[i], z0[i], "the result of a decode depends on a failed call before");
  sym_assert(enc_bpsk(a.inst, x, e1) != -1, "a valid message is not encoded");
  for (i = 0; i < a.n; i++) sym_assert(e1[i] == e0[i], "the result of an encode depends on a failed call before");
  for (i = 0; i < a.k; i++) { char c[20]; sprintf(c, "z%d", i); sym_observe_int(c, z1[i]); }
  cdc_close(a.inst);
  free(x); free(z0); free(z1); free(y); free(s); free(e0); free(e1); free(txt);
  sym_assert(sym_heap_live() == 0, "memory is left allocated after cdc_close");
  sym_cover("end");
}
void harness(void) {
  switch (sym_param("mode", 0)) {
    case 1: mode_enc(); break;
    case 2: mode_rt(); break;
    case 3: mode_eqv(); break;
    case 4: mode_ml(); break;
    case 5: mode_hard(); break;
#if CODEC == 3
    case 6: mode_scl(); break;
#endif
    case 7: mode_hist(); break;
    case 8: mode_mem(); break;
#if CODEC == 2
    case 9: mode_perm(); break;
#endif
    case 10: mode_nml(); break;
    case 11: mode_init(); break;
    case 12: mode_badinit(); break;
#if CODEC != 3
    case 13: mode_ref(); break;
#endif
    case 14: mode_oom(); break;
  }
}
