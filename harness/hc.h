// Common part of the codec harnesses: configuration, reference definitions of the codes.
#ifndef HC_H
#define HC_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include "sym.h"
#include "interfaces/codec.h"
#include "common/std_defs.h"
// CODEC: 0 dtrm0, 1 dtrm1, 2 dtrm_glp, 3 ca_polar_scl
int err_msg(char s[]) { (void)s; return 0; }
int show_msg(char s[]) { (void)s; return 0; }
int msg_flush(void) { return 0; }
int msg_printf(char *f, ...) { (void)f; return 0; }
#define MAXN 8192
typedef struct {
  int r, m, n, L, crc_len, k, kk;   // kk: unfrozen places (k + crc_len)
  char mask[8200]; int mask_len;
  char crc[80];
  char perms[1000];                 // "1 0 2;2 0 1"
  char varl[300];                   // "2 1.5;4 30"
  int w[MAXN];                      // information masks in order (unfrozen places)
  void *inst;
} cfg_t;
static int popc(int x) { int c = 0; while (x) { c += x & 1; x >>= 1; } return c; }
static void hparam_s(const char *n, int idx, const char *d, char *buf) { char b[40]; sprintf(b, "%s%s", n, idx == 1 ? "" : "2"); sym_param_str(b, d, buf); }
static int hparam(const char *n, int idx, int d) { char b[40]; sprintf(b, "%s%s", n, idx == 1 ? "" : "2"); return sym_param(b, d); }
static int leafcnt;
static int count_leaves(int m, int r);
static void leaves(cfg_t *c, int m, int r, int hi) {
  int t;
  if (r == 0 || r == m) {
    int on = c->mask_len == 0 || c->mask[leafcnt] != '0';
    leafcnt++;
    if (on) { if (r == 0) c->w[c->kk++] = hi; else for (t = (1 << m) - 1; t >= 0; t--) c->w[c->kk++] = hi | t; }
    return;
  }
  leaves(c, m - 1, r - 1, hi | (1 << (m - 1)));
  leaves(c, m - 1, r, hi);
}
static int count_leaves(int m, int r) { return (r == 0 || r == m) ? 1 : count_leaves(m - 1, r - 1) + count_leaves(m - 1, r); }
static void cfg_get(cfg_t *c, int idx) {
  int i;
  memset(c, 0, sizeof *c);
  c->r = hparam("r", idx, 1); c->m = hparam("m", idx, 3); c->L = hparam("L", idx, 4); c->n = 1 << c->m;
  hparam_s("mask", idx, "", c->mask); hparam_s("crc", idx, "", c->crc); hparam_s("perms", idx, "", c->perms); hparam_s("varl", idx, "", c->varl);
  if (hparam("crcall", idx, 0)) { c->crc_len = hparam("crcall", idx, 0); for (i = 0; i < c->crc_len; i++) c->crc[i] = (char)('0' + sym_choice("crc", 2)); }
  c->crc_len = (int)strlen(c->crc);
  if (hparam("maskall", idx, 0)) { // every mask
    int nl = CODEC == 3 ? c->n : count_leaves(c->m, c->r), any = 0;
    for (i = 0; i < nl; i++) { c->mask[i] = (char)('0' + sym_choice("mask", 2)); any += c->mask[i] == '1'; }
    sym_assume(any > c->crc_len);
  }
  c->mask_len = (int)strlen(c->mask);
#if CODEC == 3
  if (c->mask_len == 0) { for (i = 0; i < c->n; i++) c->mask[i] = '1'; c->mask_len = c->n; }
  for (i = 0; i < c->n; i++) if (c->mask[i] != '0') c->w[c->kk++] = c->n - 1 - i;
#else
#if CODEC == 2
  if (c->mask_len == 0) { c->mask_len = count_leaves(c->m, c->r); for (i = 0; i < c->mask_len; i++) c->mask[i] = '1'; }
#else
  c->mask_len = 0; (void)i;
#endif
  leafcnt = 0; leaves(c, c->m, c->r, 0);
#endif
  c->k = c->kk - c->crc_len;
}
static char pbuf[20000];
static const char *cfg_text(const cfg_t *c) {
  char *p = pbuf; const char *q;
  p[0] = 0;
#if CODEC == 3
  p += sprintf(p, "c_m\1%d\1info_bits_mask\1%s\1list_size\1%d\1", c->m, c->mask, c->L);
  if (c->crc_len) p += sprintf(p, "ca_polar_crc\1%s\1", c->crc);
  if (c->perms[0]) {
    p += sprintf(p, "permutations\1{\1");
    for (q = c->perms; *q; q++) { if (*q == ' ' || *q == ';') *p++ = '\1'; else *p++ = *q; }
    p += sprintf(p, "\1}\1");
  }
#else
  p += sprintf(p, "RM_m\1%d\1RM_r\1%d\1", c->m, c->r);
#if CODEC == 2
  p += sprintf(p, "border_node_mask\1%s\1border_node_lsize\1%d\1", c->mask, c->L);
  if (c->perms[0]) {
    p += sprintf(p, "permutations\1{\1");
    for (q = c->perms; *q; q++) { if (*q == ' ' || *q == ';') *p++ = '\1'; else *p++ = *q; }
    p += sprintf(p, "\1}\1");
  }
  if (c->varl[0]) {
    p += sprintf(p, "use_variable_list\1on\1distance_threshold\1{\1");
    for (q = c->varl; *q; q++) { if (*q == ' ' || *q == ';') *p++ = '\1'; else *p++ = *q; }
    p += sprintf(p, "\1}\1");
  }
#endif
#endif
  (void)q;
  return pbuf;
}
static void cfg_open(cfg_t *c) {
  c->inst = NULL;
  sym_assert(cdc_init((char *)cfg_text(c), &c->inst) == 0, "a valid parameter set is rejected by cdc_init");
  sym_assert(c->inst != NULL, "cdc_init reports success without an instance");
  sym_assert(cdc_get_n(c->inst) == c->n, "code length differs from 2^m");
  sym_assert(cdc_get_k(c->inst) == c->k, "code dimension differs from the number of information places");
}
static void ref_crc(const cfg_t *c, const int *x, int *out) { // remainder of x(D) modulo D^len + poly
  int len = c->crc_len, i, j, b[MAXN];
  for (i = 0; i < c->k; i++) b[i] = x[i];
  for (i = 0; i + len < c->k; i++) for (j = 0; j < len; j++) b[i + 1 + j] = b[i + 1 + j] ^ (b[i] & (c->crc[j] != '0'));
  for (i = 0; i < len; i++) out[i] = c->k - len + i >= 0 ? b[c->k - len + i] : 0;
}
// codeword bits of message x (CRC appended when configured)
static void ref_enc(const cfg_t *c, const int *x, int *y) {
  int u[MAXN], i, j;
  for (i = 0; i < c->k; i++) u[i] = x[i];
  if (c->crc_len) ref_crc(c, x, u + c->k);
  for (j = 0; j < c->n; j++) { int s = 0; for (i = 0; i < c->kk; i++) if ((c->w[i] & j) == 0) s ^= u[i]; y[j] = s; }
}
// ---- concrete pseudo-random patterns
static unsigned long long lcg;
static void seed(int s) { lcg = (unsigned long long)s * 2862933555777941757ULL + 3037000493ULL; }
static double unif(void) { lcg = lcg * 6364136223846793005ULL + 1442695040888963407ULL; return (double)((lcg >> 33) & 0x3fffffff) / 1073741824.0; }
static double gauss(void) { double s = 0; int i; for (i = 0; i < 12; i++) s += unif(); return s - 6.0; }
// weakest magnitudes for which products of reliabilities stay far from the rounding threshold
static double weakest(const cfg_t *c) { int i, f = 0; for (i = 0; i < c->kk; i++) if (popc(c->w[i]) > f) f = popc(c->w[i]); return pow(10.0, -9.0 / (1 << f)); }
static double magnitude(const cfg_t *c, int kind, int i) {
  int n = c->n;
  switch (kind) {
    case 0: return 1.0;
    case 1: return 0.2 + 1.7 * (double)(i + 1) / n;
    case 2: return 0.05 + 3.0 * unif();
    case 3: return weakest(c) * (1.0 + unif());           // weak
    case 4: return 300.0 * (1.0 + unif());          // strong: exponent overflows without care
    case 5: return (i & 1) ? 0.01 + 0.01 * unif() : 4.0 + unif();
    case 6: return 1e6 * (1.0 + unif());
    case 7: return 2.0 - 1.7 * (double)(i + 1) / n;
    default: return 0.3 + unif();
  }
}
static double *dbuf(int n) { return (double *)malloc(n * sizeof(double)); }
static int *ibuf(int n) { return (int *)malloc((n ? n : 1) * sizeof(int)); }
#endif
