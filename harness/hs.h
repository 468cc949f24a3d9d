// Common part of the simulator harnesses: a stand-in codec with symbolic outcomes, the clock, the
// random numbers, and reading of the results file and of the status texts.
#ifndef HS_H
#define HS_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <time.h>
#include "sym.h"
#include "interfaces/codec.h"
#include "interfaces/simul.h"
#ifdef SYMBOLIC
#define W(f) f
#else
#define W(f) __wrap_##f
#endif
static int n_err;                       // error messages shown
void err_msg(char s[]) { (void)s; n_err++; }
void show_msg(char s[]) { (void)s; }
void msg_flush(void) { }
void msg_printf(char *f, ...) { (void)f; }
#define MAXT 64
#define MAXK 8
#define MAXC 16
// ---- stand-in codec: outcome t of the run is wrong-bit pattern oe[t] and erasure flag oer[t]
static int sk = 2, sn = 4;              // dimension, length
static int codec_live, codec_fail_init, codec_decerr = -1;
static char codec_str[4000];
static double cur_sg; static int cur_snrn = -1, sg_set, snrn_set;
static int last_x[MAXK], have_x;        // message encoded last
static int t_no;                        // decode calls so far in this run
static int oe[MAXT][MAXK], oer[MAXT], o_have[MAXT];
static int zero_cw, want_ml, want_hd, force_after = 1000, er_on = 1, maxbits = MAXK, sym_from;
typedef struct { int trn, en_bit, en_bl, er, trn_ml, enml; } cnt_t;
static cnt_t ref[8];                    // counters of the current run, by SNR index
static int dec_point;                   // SNR index as the codec was told
static double log_sg[MAXT], log_y[MAXT][MAXC]; static int log_snrn[MAXT], log_n;
static double cw[MAXC];
static void stub_cw(const int *x, double *y) { int i; for (i = 0; i < sn; i++) y[i] = (i < sk ? x[i] : i == sk ? x[0] ^ x[sk - 1] : x[i % sk]) * 2.0 - 1.0; }
void on_trial(int p); void after_trial(int p);   // harness hooks
static int point_now(void);
int cdc_init(char s[], void **c) {
  static int obj;
  if (strlen(s) < sizeof codec_str) strcpy(codec_str, s);
  if (codec_fail_init) { *c = NULL; return 1; }
  codec_live++; *c = &obj; return 0;
}
int cdc_get_n(void *c) { (void)c; return sn; }
int cdc_get_k(void *c) { (void)c; return sk; }
void cdc_set_sg(void *c, double sg) { (void)c; cur_sg = sg; sg_set++; }
void cdc_set_csnrn(void *c, int i) { (void)c; cur_snrn = i; snrn_set++; }
void cdc_close(void *c) { (void)c; codec_live--; }
static int codec_encerr = -1, enc_no, enc_fail_ml, after_dec, dec_pt; static cnt_t ref_before;
int enc_bpsk(void *c, int x[], double y[]) {
  int i; (void)c;
  if (enc_no++ == codec_encerr) { enc_fail_ml = want_ml && after_dec; if (enc_fail_ml) ref[dec_pt] = ref_before; after_dec = 0; return -1; }
  after_dec = 0;
  for (i = 0; i < sk; i++) last_x[i] = x[i]; have_x = 1; stub_cw(x, y); return 0;
}
static void outcome(int t) {
  char b[30]; int i;
  if (o_have[t]) return;
  o_have[t] = 1;
  for (i = 0; i < sk; i++) { sprintf(b, "e%d", t); oe[t][i] = i < maxbits && t >= sym_from ? (t >= force_after ? 1 : sym_bit_i(b, i)) : 0; }
  oer[t] = er_on && t >= sym_from && t < force_after ? sym_bit_i("er", t) : 0;
}
int dec_bpsk(void *c, double y[], int xd[]) {
  int t = t_no, i, p = cur_snrn, any = 0, x[MAXK]; cnt_t *r; double d1 = 0, d2 = 0, cx[MAXC], cd[MAXC], yy[MAXC];
  (void)c;
  if (t >= MAXT - 1) { sym_assert(0, "an SNR point does not end"); return 0; }
  t_no++;
  if (codec_decerr == t) return -1;
  sym_assert(sg_set > 0, "the codec decodes before it is given a noise level");
#ifdef HAVE_CSNRN
  sym_assert(snrn_set > 0, "the codec decodes before it is given an SNR index");
  sym_assert(p >= 0 && p < 8, "the codec is given an SNR index out of range");
#else
  p = point_now();
  sym_assert(p >= 0, "the noise level is not the one of the Eb/N0 value and the rate");
#endif
  on_trial(p);
  outcome(t);
  for (i = 0; i < sk; i++) x[i] = zero_cw ? 0 : last_x[i];
  if (!zero_cw) sym_assert(have_x, "a random codeword is not encoded before it is decoded");
  have_x = 0;
  for (i = 0; i < sk; i++) { xd[i] = x[i] ^ oe[t][i]; any = sym_or(any, oe[t][i]); }
  r = &ref[p];
  ref_before = *r; dec_pt = p; after_dec = 1;
  r->trn++;
  for (i = 0; i < sk; i++) r->en_bit += oe[t][i];
  r->en_bl += any;
  r->er += oer[t];
  after_trial(p);
  for (i = 0; i < sn; i++) yy[i] = y[i];
  log_sg[t] = cur_sg; log_snrn[t] = p; for (i = 0; i < sn; i++) log_y[t][i] = yy[i];
  log_n = t + 1;
  if (want_ml) {
    int xx[MAXK], gt;
    for (i = 0; i < sk; i++) xx[i] = xd[i];
    stub_cw(x, cx); stub_cw(xx, cd);
    for (i = 0; i < sn; i++) { double v = want_hd ? (yy[i] > 0.0 ? 1.0 : -1.0) : yy[i]; d1 += (cx[i] - v) * (cx[i] - v); d2 += (cd[i] - v) * (cd[i] - v); }
    if (!want_hd) sym_assume(sym_or(!any, sym_or(d1 - d2 > 1e-9, d2 - d1 > 1e-9)));
    gt = sym_and(any, d1 - d2 > 1e-9);
    r->trn_ml += !oer[t];
    r->enml += sym_and(!oer[t], gt);
  }
  return oer[t] ? RC_DEC_ERASURE : 0;
}
// ---- random numbers
static int rnd_mode, rnd_n; static unsigned rnd_seed0 = 1, rnd_state;
static int seeded;
void W(srand)(unsigned s) { (void)s; seeded++; }
int draw_log[4000], draw_n;
static int rand_(void);
int W(rand)(void) { int v = rand_(); if (draw_n < 4000) draw_log[draw_n++] = v; return v; }
static int rbit(int i) { static int b[256], have[256]; if (i >= 256) return i & 1; if (!have[i]) { have[i] = 1; b[i] = sym_bit_i("rnd", i); } return b[i]; } // the same in every run
static int rand_(void) {
  int i = rnd_n++;
  if (rnd_mode == 0) { rnd_state = rnd_state * 1103515245u + 12345u; return (int)((rnd_state >> 4) % 1500000000u) + 300000000; } // |v| < 0.7: always accepted
  if (rnd_mode == 1) return rbit(i) ? 1718000000 : 645000000; // 0.8, 0.3
  if (rnd_mode == 3) return i % (sk + sn) < sk ? rbit(i) ? 1718000000 : 645000000 : 645000000 + 200000000 * (i & 1) + 331 * (i % 1000);
  { static const int tab[] = {0, 2147483647, 1073741824, 1073741823, 644245094, 1932735283, 1503238553, 1}; if (i >= sym_param("rmax", 6)) return 644245094 + (i & 1) * 700000000; return tab[sym_choice("rnd", sym_param("rtab", 8))]; }
}
// ---- clock
static long long now_t, tick_n, ticks_max; static int clock_jumps; static int ret_int = 10;
time_t W(time)(time_t *p) {
  if (tick_n < ticks_max) { if (sym_concrete(sym_bit_i("tick", (int)tick_n))) now_t += ret_int + 1; }
  if (clock_jumps) now_t += ret_int + 1;
  tick_n++;
  if (p) *p = 1700000000 + now_t;
  return 1700000000 + now_t;
}
static long clk; static int clk_calls;
clock_t W(clock)(void) { clk += 100000; clk_calls++; return clk; }
// ---- text
static char fbuf[20000], fcopy[20000]; static int flen;
static char *tk[3000]; static int ntk;
static int issep(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static void split(char *s, int len) { // tokens outside comments
  int i = 0;
  ntk = 0;
  while (i < len) {
    if (issep(s[i])) { i++; continue; }
    if (s[i] == '%') { while (i < len && s[i] != '\n') i++; continue; }
    tk[ntk++] = s + i;
    while (i < len && !issep(s[i])) i++;
    if (i < len) { if (s[i] == '\n' || 1) s[i] = 0; i++; }
  }
}
static int read_file(const char *name) { // -1: missing
  FILE *f = fopen(name, "rb");
  if (!f) return -1;
  flen = (int)fread(fbuf, 1, sizeof fbuf - 1, f); fbuf[flen] = 0; fclose(f);
  memcpy(fcopy, fbuf, flen + 1);
  split(fbuf, flen);
  return flen;
}
static int find_key(const char *k) { int i; for (i = 0; i < ntk; i++) if (!strcmp(tk[i], k)) return i; return -1; }
static int get_ints(const char *k, int *v, int max) { // values of a group, -1 when absent
  int i = find_key(k), n = 0;
  if (i < 0 || i + 1 >= ntk || strcmp(tk[i + 1], "{")) return -1;
  for (i += 2; i < ntk && strcmp(tk[i], "}"); i++) { if (n < max) v[n] = atoi(tk[i]); n++; }
  return i < ntk ? n : -1;
}
static int get_dbls(const char *k, double *v, int max) {
  int i = find_key(k), n = 0;
  if (i < 0 || i + 1 >= ntk || strcmp(tk[i + 1], "{")) return -1;
  for (i += 2; i < ntk && strcmp(tk[i], "}"); i++) { if (n < max) v[n] = atof(tk[i]); n++; }
  return i < ntk ? n : -1;
}
static void put_file(const char *name, const char *text) { FILE *f = fopen(name, "wb"); if (f) { fwrite(text, 1, strlen(text), f); fclose(f); } }
static void skip_to(const char **p, const char *what) { const char *q = strstr(*p, what); sym_assert(q != NULL, "a status text lacks one of its parts"); *p = q ? q + strlen(what) : *p + strlen(*p); }
typedef struct { double snr; int no, num, trn, req, en, ml; } state_t;
static void get_state(void *inst, state_t *s, int ml) {
  static char b[10000]; const char *p = b;
  memset(b, 0, 300);
  sim_state_str(inst, b);
  skip_to(&p, "SNR: "); s->snr = atof(p);
  skip_to(&p, "("); s->no = atoi(p);
  skip_to(&p, "/ "); s->num = atoi(p);
  skip_to(&p, "trn: "); s->trn = atoi(p);
  skip_to(&p, "/ "); s->req = atoi(p);
  skip_to(&p, "en: "); s->en = atoi(p);
  s->ml = -1;
  if (ml) { skip_to(&p, "ML en: "); s->ml = atoi(p); }
}
typedef struct { char *snr, *bit, *bl, *ml; } resline_t;
static char rbuf[20000];
static int get_lines(void *inst, resline_t *l, int max) { // lines of the results table after its heading
  char *p; int n = 0, c;
  memset(rbuf, 0, 400);
  sim_cur_res_str(inst, rbuf);
  p = strchr(rbuf, '\n');
  while (p && *p && n < max) {
    char *f[4] = {0, 0, 0, 0};
    *p++ = 0;
    for (c = 0; c < 4; c++) { while (*p == ' ' || *p == '\t') p++; if (!*p || *p == '\n') break; f[c] = p; while (*p && *p != ' ' && *p != '\t' && *p != '\n') p++; if (*p == ' ' || *p == '\t') *p++ = 0; }
    l[n].snr = f[0]; l[n].bit = f[1]; l[n].bl = f[2]; l[n].ml = f[3]; n++;
    if (!*p || *p != '\n') break;
  }
  return n;
}
#endif
