// The Octave loader of results files (Octave/loadsrf.c) on files with symbolic counters and on
// malformed files, and on files written by the simulator itself.
#include "hs.h"
#include "mex.h"
struct mxArray_s { int m, n, nf; double *pr; const char *key[12]; mxArray *f[12]; char *str; };
static mxArray pool[40]; static int npool; static double dpool[40][64];
static mxArray *new_arr(int m, int n) { mxArray *a = &pool[npool]; sym_assert(npool < 40 && m * n <= 64, "too many arrays"); a->m = m; a->n = n; a->pr = dpool[npool]; memset(dpool[npool], 0, sizeof dpool[0]); npool++; return a; }
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **keys) { mxArray *a = new_arr((int)m, (int)n); int i; a->nf = nf; sym_assert(nf <= 12, "too many fields"); for (i = 0; i < nf; i++) a->key[i] = keys[i]; return a; }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = new_arr(1, 1); a->pr[0] = v; return a; }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) { (void)c; return new_arr((int)m, (int)n); }
void mxSetFieldByNumber(mxArray *a, mwIndex i, int f, mxArray *v) { sym_assert(i == 0 && f >= 0 && f < a->nf, "a field that does not exist is set"); a->f[f] = v; }
void mxSetField(mxArray *a, mwIndex i, const char *key, mxArray *v) { int f; for (f = 0; f < a->nf && strcmp(a->key[f], key); f++) ; mxSetFieldByNumber(a, i, f, v); }
double *mxGetPr(const mxArray *a) { return a->pr; }
char *mxArrayToString(const mxArray *a) { return a->str; }
const char *mexFunctionName(void) { return "loadsrf"; }
int mexPrintf(const char *f, ...) { (void)f; return 0; }
void mexErrMsgTxt(const char *s) { (void)s; n_err++; }
void *mxMalloc(mwSize n) { return malloc(n); }
void *mxCalloc(mwSize n, mwSize s) { return calloc(n, s); }
void mxFree(void *p) { if (p != pool[0].str) free(p); }
void mxDestroyArray(mxArray *a) { (void)a; }
void on_trial(int p) { (void)p; }
void after_trial(int p) { (void)p; }
static int point_now(void) { return 0; }
static mxArray *load(const char *name) { // NULL: rejected
  static char nm[20]; mxArray *out[1] = {NULL}; const mxArray *in[1]; int live;
  strcpy(nm, name); npool = 0; memset(pool, 0, sizeof pool); pool[0].str = nm; npool = 1; in[0] = &pool[0];
  n_err = 0; live = sym_heap_live();
  mexFunction(1, out, 1, in);
  sym_assert(sym_heap_live() == live, "loading leaves memory or files open");
  if (!out[0]) sym_assert(n_err > 0, "nothing is returned and no error is reported");
  return out[0];
}
static mxArray *field(mxArray *a, const char *key, int n) {
  int f;
  for (f = 0; f < a->nf && strcmp(a->key[f], key); f++) ;
  sym_assert(f < a->nf && a->f[f] != NULL, "a field is missing from the returned structure");
  sym_assert(a->f[f]->m * a->f[f]->n == n, "a returned matrix does not have one value per SNR");
  return a->f[f];
}
static const double snrv[] = {0, 1.5, -2.25, 10, 1.2345678}; static const char *snrt[] = {"0", "1.5", "-2.25", "10", "1.2345678"};
static cnt_t q[64];
static void check(mxArray *a, int cn, int ck, int np, const double *snr, int has_er) {
  int i; mxArray *f;
  sym_assert(a != NULL, "a valid results file is rejected");
  sym_assert(a->m == 1 && a->n == 1, "the returned structure is not a single one");
  f = field(a, "n", 1); sym_assert(f->pr[0] == cn, "the returned code length is wrong");
  f = field(a, "k", 1); sym_assert(f->pr[0] == ck, "the returned code dimension is wrong");
  f = field(a, "EbNo", np); for (i = 0; i < np; i++) sym_assert(f->pr[i] == snr[i], "a returned SNR value is wrong");
#define R(key, num, den, msg) f = field(a, key, np); for (i = 0; i < np; i++) sym_assert(sym_ratio(f->pr[i], num, den), msg);
  R("BER", q[i].en_bit, (long long)q[i].trn * ck, "a returned bit error rate is not bit errors over transmitted bits")
  R("WER", q[i].en_bl, q[i].trn, "a returned word error rate is not block errors over trials")
  if (has_er) { R("ERR", q[i].er, q[i].trn, "a returned erasure rate is not erasures over trials") }
  else { f = field(a, "ERR", np); for (i = 0; i < np; i++) sym_assert(f->pr[i] == 0, "an erasure rate is made up"); }
  R("MLER", q[i].enml, q[i].trn_ml, "a returned ML bound is not ML errors over ML trials")
}
static int sy(const char *n, int i, int lo) { char b[20]; sprintf(b, "%s%d", n, i); return sym_int(b, lo, 2147483646); }
static void group(FILE *f, int w, int np) {
  static const char *key[] = {"tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl"}; int i;
  if (w == 6) { fprintf(f, "SNR { "); for (i = 0; i < np; i++) fprintf(f, "%s ", np > 5 ? (snrt[i % 5]) : snrt[i]); fprintf(f, "}\n"); return; }
  if (w == 7) { fprintf(f, "WER { 1.0e-01 5.0e-02 }\n"); return; }
  if (w == 8) { fprintf(f, "%% SNR { 7 }\nunknown 5\n"); return; }
  fprintf(f, "%s { ", key[w]);
  for (i = 0; i < np; i++) fprintf(f, "%d ", w == 0 ? q[i].trn : w == 1 ? q[i].en_bit : w == 2 ? q[i].en_bl : w == 3 ? q[i].er : w == 4 ? q[i].trn_ml : q[i].enml);
  fprintf(f, "}\n");
}
static void mode_good(void) {
  int np = sym_param("np", 2), k = sym_param("k", 5), n = sym_param("n", 8), er = sym_param("er", 1), zero = sym_param("zero", 0), i, used[10] = {0}, left = 9, j, from = sym_param("free", 0); FILE *f; double s[64];
  for (i = 0; i < np; i++) {
    q[i].trn = sy("trn", i, 1); q[i].en_bit = sy("bit", i, 0); q[i].en_bl = sy("bl", i, 0); q[i].er = sy("er", i, 0); q[i].trn_ml = sy("mltrn", i, 1); q[i].enml = sy("enml", i, 0);
    if (zero && sym_choice("no_trials", 2)) { q[i].trn = 0; q[i].en_bit = q[i].en_bl = q[i].er = 0; }
    if (zero && sym_choice("no_ml", 2)) q[i].trn_ml = q[i].enml = 0;
    s[i] = snrv[i % 5];
  }
  f = fopen("in.srf", "wb");
  if (sym_param("nkfirst", 1)) fprintf(f, "code_n %d\ncode_k %d\n\n", n, k);
  for (i = 0; i < 9; i++) {
    int w = left > 9 - from ? sym_choice("group", left) : 0;
    if (from < 0) w = left - 1;
    for (j = 0; used[j] || w-- > 0; j++) ;
    used[j] = 1; left--;
    if (j != 3 || er) group(f, j, np);
  }
  if (!sym_param("nkfirst", 1)) fprintf(f, "code_k %d code_n %d", k, n);
  fclose(f);
  check(load("in.srf"), n, k, np, s, er);
  for (i = 0; i < np && i < 3; i++) { char b[20]; sprintf(b, "trn%d", i); sym_observe_int(b, q[i].trn); }
}
static void mode_bad(void) {
  static const char *bad[] = {
    "code_k 2 SNR { 0 } tr_num { 5 } en_bit { 1 } en_bl { 1 } erasures_num { 0 } ml_tr_num { 0 } enml_bl { 0 }",
    "code_n 4 SNR { 0 } tr_num { 5 } en_bit { 1 } en_bl { 1 } erasures_num { 0 } ml_tr_num { 0 } enml_bl { 0 }",
    "code_n 4 code_k 2 SNR { 0 1 } tr_num { 5 } en_bit { 1 } en_bl { 1 } erasures_num { 0 } ml_tr_num { 0 } enml_bl { 0 }",
    "code_n 4 code_k 2 SNR { 0 } tr_num { 5 6 } en_bit { 1 } en_bl { 1 } erasures_num { 0 } ml_tr_num { 0 } enml_bl { 0 }",
    "code_n 4 code_k 2 SNR { 0 1 } tr_num { 5 6 } en_bit { 1 } en_bl { 1 1 } erasures_num { 0 0 } ml_tr_num { 0 0 } enml_bl { 0 0 }",
    "code_n 4 code_k 2 SNR { 0 1 } tr_num { 5 6 } en_bit { 1 1 } en_bl { 1 } erasures_num { 0 0 } ml_tr_num { 0 0 } enml_bl { 0 0 }",
    "code_n 4 code_k 2 SNR { 0 1 } tr_num { 5 6 } en_bit { 1 1 } en_bl { 1 1 } erasures_num { 0 } ml_tr_num { 0 0 } enml_bl { 0 0 }",
    "code_n 4 code_k 2 SNR { 0 1 } tr_num { 5 6 } en_bit { 1 1 } en_bl { 1 1 } erasures_num { 0 0 } ml_tr_num { 0 } enml_bl { 0 0 }",
    "code_n 4 code_k 2 SNR { 0 1 } tr_num { 5 6 } en_bit { 1 1 } en_bl { 1 1 } erasures_num { 0 0 } ml_tr_num { 0 0 } enml_bl { 0 }",
    "code_n 4 code_k 2 SNR 0 tr_num { 5 } en_bit { 1 } en_bl { 1 } erasures_num { 0 } ml_tr_num { 0 } enml_bl { 0 }",
    "code_n 4 code_k 2 SNR { 0 } tr_num 5 en_bit { 1 } en_bl { 1 } erasures_num { 0 } ml_tr_num { 0 } enml_bl { 0 }",
    "code_n 4 code_k 2 SNR { 0 } tr_num { 5 } en_bit { 1 } en_bl { 1 } erasures_num { 0 } ml_tr_num { 0 } enml_bl",
    "code_n 4 code_k 2 SNR { 0 } tr_num { 5 } en_bit { 1 } en_bl { 1 } erasures_num { 0 } ml_tr_num { 0 } enml_bl { 0",
    "code_n 4 code_k 2 SNR { 0 1",
    "code_n 4 code_k 2 SNR",
    "code_n 4 code_k",
    "code_n 4 code_k 2 SNR { 0 } tr_num { 5 } en_bit { 1 } en_bl { 1 } erasures_num { 0 }", 
    "code_n 4 code_k 2 SNR { 0 } en_bit { 1 } en_bl { 1 } erasures_num { 0 } ml_tr_num { 0 } enml_bl { 0 }",
    "% empty\n", ""};
  int w = sym_choice("bad", 21), i;
  if (w < 20) put_file("in.srf", bad[w]);
  sym_assert(load("in.srf") == NULL, "a malformed results file is loaded");
  // one entry more than there is room for
  if (w == 0) {
    int g;
    for (g = 0; g < 7; g++) {
      FILE *f = fopen("in.srf", "wb"); int j;
      fprintf(f, "code_n 4\ncode_k 2\n");
      for (i = 0; i < 7; i++) { static const char *key[] = {"SNR", "tr_num", "en_bit", "en_bl", "erasures_num", "ml_tr_num", "enml_bl"}; fprintf(f, "%s { ", key[i]); for (j = 0; j < (i == g ? 51 : 50); j++) fprintf(f, "%d ", j); fprintf(f, "}\n"); }
      fclose(f);
      sym_assert(load("in.srf") == NULL, "a results file with too many values is loaded");
    }
  }
}
static void mode_text(void) { // any text in place of '@': rejected or loaded with lengths that agree
  char t[400], alpha[40]; int i, n; mxArray *a; FILE *f;
  sym_param_str("t", "code_n_4_code_k_2_SNR@{_0_}@tr_num_{_5@}", t); sym_param_str("alpha", "_{}0a", alpha);
  n = (int)strlen(t);
  for (i = 0; i < n; i++) { if (t[i] == '@') t[i] = alpha[sym_choice("c", (int)strlen(alpha))]; if (t[i] == '_') t[i] = ' '; if (t[i] == '~') t[i] = '\n'; if (t[i] == 'T') { } }
  f = fopen("in.srf", "wb");
  { // keys with an underscore are written +
    for (i = 0; i < n; i++) if (t[i] == '+') t[i] = '_';
    fwrite(t, 1, n, f);
  }
  fclose(f);
  a = load("in.srf");
  if (a) {
    mxArray *e; int k;
    static const char *key[] = {"EbNo", "BER", "WER", "ERR", "MLER"};
    for (i = 0; i < a->nf && strcmp(a->key[i], "EbNo"); i++) ;
    sym_assert(i < a->nf && a->f[i] != NULL, "a field is missing from the returned structure");
    k = a->f[i]->m * a->f[i]->n;
    for (i = 0; i < 5; i++) { e = field(a, key[i], k); (void)e; }
    field(a, "n", 1); field(a, "k", 1);
    sym_cover("loaded");
  }
  else sym_cover("rejected");
}
static void mode_sim(void) { // a file the simulator wrote
  static sim_init_params SP; void *inst = NULL; int rc, i, np = sym_param("np", 2); double s[8]; FILE *f = fopen("par.txt", "wb");
  sk = sym_param("k", 2); sn = sym_param("n", 4); zero_cw = 1; want_ml = sym_param("ml", 0); force_after = sym_param("force", 2); maxbits = 2;
  fprintf(f, "EbNo_values { "); for (i = 0; i < np; i++) { s[i] = snrv[i]; fprintf(f, "%s ", snrt[i]); }
  fprintf(f, "}\nres_file in.srf\nmin_trials_per_snr %d\nml_lb %s\n", sym_param("mintrn", 1), want_ml ? "on" : "off");
  fclose(f);
  SP.spf_name = "par.txt"; SP.ret_int = 10; SP.dont_randomize = 1;
  sym_assert(sim_init(&SP, &inst) == 0, "a valid simulation file is rejected");
  while ((rc = sim_run(inst)) == RC_SIMUL_NOT_COMPLETED) ;
  sym_assert(rc == 0 && sim_save_res(inst) == 0, "saving the results fails");
  sim_close(inst);
  for (i = 0; i < np; i++) { q[i] = ref[i]; q[i].trn = sym_concrete(q[i].trn); }
  // the file lists the SNR values in increasing order or in that of the simulation
  { double d[60]; int n, j; cnt_t qq[8]; read_file("in.srf"); n = get_dbls("SNR", d, 60); sym_assert(n == np, "the results file does not have each SNR value once"); for (i = 0; i < np; i++) { for (j = 0; j < np && s[j] != d[i]; j++) ; sym_assert(j < np, "the results file has a wrong SNR value"); qq[i] = q[j]; } for (i = 0; i < np; i++) { q[i] = qq[i]; s[i] = d[i]; } }
  check(load("in.srf"), sn, sk, np, s, 1);
}
void harness(void) {
  switch (sym_param("mode", 1)) {
    case 1: mode_good(); break;
    case 2: mode_bad(); break;
    case 3: mode_text(); break;
    case 4: mode_sim(); break;
    case 5: { mxArray *out[1] = {NULL}; n_err = 0; mexFunction(1, out, 0, NULL); sym_assert(out[0] == NULL && n_err > 0, "a call without a file name is not refused"); break; }
  }
  sym_cover("end");
}
