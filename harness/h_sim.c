// The simulator (simulators/sim_bg.c, common/spf_par.c) driven through its public interface with a
// stand-in codec: decoder outcomes, random numbers, clock readings and file contents are symbolic.
#include "hs.h"
static double snr_tab[] = {0, 1.5, 3, -2.25, 10, 0.125, 7.75, 1.2345678};
static char snr_txt[8][16] = {"0", "1.5", "3", "-2.25", "10", "0.125", "7.75", "1.2345678"};
typedef struct {
  int nsnr, ix[8];            // SNR values as indices of snr_tab
  int svt, req[8];            // trial numbers listed with the SNR values
  int mintrn, minen, rndcw, ml, mlh; double fixR; const char *fixtxt; const char *res;
  int hexp;
} cfg_t;
static cfg_t C;
static const char *gap_used = "";
static double exp_sg(int p) { double R = C.fixR > 0 ? C.fixR : (double)sk / sn; return 1.0 / sqrt(2.0 * R * pow(10.0, snr_tab[C.ix[p]] / 10.0)); }
static int req_min(int p) { return C.svt ? C.req[p] : C.mintrn; }
static int point_now(void) { int p; for (p = 0; p < C.nsnr; p++) { double e = exp_sg(p), d = cur_sg - e; if (d < 1e-9 * e && d > -1e-9 * e) return p; } return -1; }
static void write_cfg(const char *name) {
  FILE *f = fopen(name, "wb"); int i;
  fprintf(f, "stub_key 5\nres_file %s\n", C.res);
  if (C.svt) { fprintf(f, "SNR_val_trn {\n"); for (i = 0; i < C.nsnr; i++) fprintf(f, " %s %d\n", snr_txt[C.ix[i]], C.req[i]); fprintf(f, "}\n"); }
  else { fprintf(f, "EbNo_values { "); for (i = 0; i < C.nsnr; i++) fprintf(f, "%s ", snr_txt[C.ix[i]]); fprintf(f, "}\n"); }
  fprintf(f, "min_trials_per_snr %d\nmin_errors_per_snr %d\nrandom_codeword %s\nml_lb %s\n", C.mintrn, C.minen, C.rndcw ? "on" : "off", C.ml ? "on" : "off");
  if (C.mlh) fprintf(f, "ml_lb_hard on\n");
  if (C.fixtxt) fprintf(f, "fixed_R %s\n", C.fixtxt);
  fclose(f);
}
static void get_cfg(void) {
  int i; char b[40];
  memset(&C, 0, sizeof C);
  C.nsnr = sym_param("nsnr", 2); C.svt = sym_param("svt", 0); C.mintrn = sym_param("mintrn", 1); C.minen = sym_param("minen", 1); C.rndcw = sym_param("rndcw", 0); C.ml = sym_param("ml", 0); C.mlh = sym_param("mlh", 0);
  C.res = "res.txt";
  for (i = 0; i < 8; i++) { C.ix[i] = i; C.req[i] = 1 + (i * 2 + 1) % 3; }
  sym_param_str("snrs", "", b); if (b[0]) { C.nsnr = (int)strlen(b); for (i = 0; i < C.nsnr; i++) C.ix[i] = b[i] - '0'; }
  if (sym_param("fixR", 0)) { C.fixtxt = "0.3125"; C.fixR = 0.3125; }
  sk = sym_param("k", 2); sn = sym_param("n", 4); maxbits = sym_param("maxbits", MAXK);
  zero_cw = !C.rndcw; want_ml = C.ml || C.mlh; want_hd = C.mlh; force_after = sym_param("force", 3); er_on = sym_param("er", 1); sym_from = sym_param("from", 0);
  rnd_mode = sym_param("rnd", 0); ticks_max = 0; ret_int = 10;
}
static void new_run(void) { memset(ref, 0, sizeof ref); t_no = 0; log_n = 0; rnd_n = 0; rnd_state = 99; have_x = 0; cur_snrn = -1; sg_set = snrn_set = 0; }
static int hit[8], point_last; // trial at which the error target was met
#ifdef HAVE_CSNRN
#define TOLD (cur_snrn)
#else
#define TOLD (point_now())
#endif
static sim_init_params SP;
static void *open_sim(void) {
  void *inst = NULL;
  SP.spf_name = "par.txt"; SP.ret_int = ret_int; SP.dont_randomize = 1;
  write_cfg("par.txt");
  sym_assert(sim_init(&SP, &inst) == 0, "a valid simulation file is rejected");
  return inst;
}
static void check_state(void *inst) {
  state_t s; int p = t_no ? log_snrn[t_no - 1] : 0;
  get_state(inst, &s, want_ml);
  sym_assert(s.no == p + 1, "the status shows another SNR number than the one simulated");
  sym_assert(s.num == C.nsnr, "the status shows a wrong number of SNR values");
  { double d = s.snr - snr_tab[C.ix[p]]; sym_assert(d < 0.0051 && d > -0.0051, "the status shows another SNR value than the one simulated"); }
  sym_assert_eq(s.trn, ref[p].trn, "the status shows a wrong number of trials");
  sym_assert_eq(s.en, ref[p].en_bl, "the status shows a wrong number of block errors");
  if (want_ml) sym_assert_eq(s.ml, ref[p].enml, "the status shows a wrong number of ML errors");
  sym_assert(s.req >= 1, "the requested number of trials is not positive");
}
#define rate_ok(v, a, b) sym_ratio(v, a, b)
static void check_lines(void *inst, int npts) {
  resline_t l[10]; int i, n = get_lines(inst, l, 10);
  sym_assert(n == npts, "the results table does not have one line per SNR value reached");
  for (i = 0; i < n; i++) {
    double d;
    sym_assert(l[i].snr && l[i].bit && l[i].bl, "a line of the results table is incomplete");
    d = atof(l[i].snr) - snr_tab[C.ix[i]];
    sym_assert(d < 0.0051 && d > -0.0051, "the results table shows a wrong SNR value");
    if (ref[i].trn == 0) continue;
    sym_assert(rate_ok(atof(l[i].bit), ref[i].en_bit, (long long)ref[i].trn * sk), "the displayed bit error rate is not errors over transmitted bits");
    sym_assert(rate_ok(atof(l[i].bl), ref[i].en_bl, ref[i].trn), "the displayed word error rate is not block errors over trials");
    if (want_ml) { sym_assert(l[i].ml != NULL, "the ML bound is not displayed"); if (ref[i].trn_ml == 0) sym_assert(atof(l[i].ml) == 0.0, "the ML bound of a point without ML trials is not 0"); else sym_assert(rate_ok(atof(l[i].ml), ref[i].enml, (ref[i].trn_ml = sym_concrete(ref[i].trn_ml))), "the displayed ML bound is not ML errors over ML trials"); }
  }
}
// the results file holds exactly these points (sums tot[], in the order of exp_ix[])
static void check_file(const int *eix, const cnt_t *tot0, int np, int rates) {
  cnt_t tot[60];
  double d[60]; int v[60], i, n;
  memcpy(tot, tot0, np * sizeof tot[0]);
  sym_assert(read_file(C.res) > 0, "the results file is missing or empty");
  i = find_key("code_n"); sym_assert(i >= 0 && atoi(tk[i + 1]) == sn, "the results file has a wrong code_n");
  i = find_key("code_k"); sym_assert(i >= 0 && atoi(tk[i + 1]) == sk, "the results file has a wrong code_k");
  n = get_dbls("SNR", d, 60); sym_assert(n == np, "the results file does not have each SNR value once");
  for (i = 0; i < np; i++) sym_assert(d[i] == snr_tab[eix[i]], "the results file has a wrong SNR value");
#define GI(key, field, msg) n = get_ints(key, v, 60); sym_assert(n == np, "a counter group of the results file has a wrong length"); for (i = 0; i < np; i++) sym_assert_eq(v[i], tot[i].field, msg);
  GI("tr_num", trn, "the saved number of trials is wrong")
  GI("en_bit", en_bit, "the saved number of bit errors is wrong")
  GI("en_bl", en_bl, "the saved number of block errors is wrong")
  GI("erasures_num", er, "the saved number of erasures is wrong")
  GI("ml_tr_num", trn_ml, "the saved number of ML trials is wrong")
  GI("enml_bl", enml, "the saved number of ML errors is wrong")
  if (!rates) return;
  for (i = 0; i < np; i++) tot[i].trn_ml = sym_concrete(tot[i].trn_ml);
#define GR(key, a, b, msg) n = get_dbls(key, d, 60); sym_assert(n == np, "a rate group of the results file has a wrong length"); for (i = 0; i < np; i++) if (tot[i].b > 0) sym_assert(rate_ok(d[i], tot[i].a, tot[i].b), msg);
  GR("WER", en_bl, trn, "the saved WER is not block errors over trials")
  GR("ERR", er, trn, "the saved ERR is not erasures over trials")
  n = get_dbls("MLER", d, 60); sym_assert(n == np, "a rate group of the results file has a wrong length");
  for (i = 0; i < np; i++) if (tot[i].trn > 0) { if (tot[i].trn_ml == 0) sym_assert(d[i] == 0.0, "the saved MLER of a point without ML trials is not 0"); else sym_assert(rate_ok(d[i], tot[i].enml, tot[i].trn_ml), "the saved MLER is not ML errors over ML trials"); }
  { // the table in the comment lines
    char *p = strstr(fcopy, "% SNR"); int c; double f[5];
    sym_assert(p != NULL, "the results file has no table");
    for (i = 0; i < np; i++) {
      p = strchr(p, '\n'); sym_assert(p != NULL && p[1] == '%', "the table of the results file lacks a line");
      p += 2;
      for (c = 0; c < 5; c++) { while (*p == ' ') p++; f[c] = *p == '-' && p[1] == 'n' ? 0 : atof(p); while (*p && *p != ' ' && *p != '\n') p++; }
      { double e = f[0] - snr_tab[eix[i]]; sym_assert(e < 0.0051 && e > -0.0051, "the table of the results file has a wrong SNR value"); }
      if (tot[i].trn == 0) continue;
      sym_assert(rate_ok(f[1], tot[i].en_bit, (long long)tot[i].trn * sk), "the tabulated BER is not bit errors over transmitted bits");
      sym_assert(rate_ok(f[2], tot[i].en_bl, tot[i].trn), "the tabulated WER is not block errors over trials");
      sym_assert(rate_ok(f[3], tot[i].er, tot[i].trn), "the tabulated ERR is not erasures over trials");
      if (tot[i].trn_ml > 0) sym_assert(rate_ok(f[4], tot[i].enml, tot[i].trn_ml), "the tabulated ML bound is not ML errors over ML trials");
    }
  }
}
static void observe_run(void) {
  int p; char b[20];
  for (p = 0; p < C.nsnr; p++) { sprintf(b, "trn%d", p); sym_observe_int(b, ref[p].trn); sprintf(b, "en%d", p); sym_observe_int(b, ref[p].en_bl); sprintf(b, "bit%d", p); sym_observe_int(b, ref[p].en_bit); }
}
static void check_stop(void) {
  int p;
  for (p = 0; p < C.nsnr; p++) {
    sym_assert(ref[p].trn >= req_min(p), "an SNR point ends with fewer trials than requested");
    sym_assert(ref[p].en_bl >= C.minen, "an SNR point ends with fewer block errors than requested");
  }
}
// called by the stand-in decoder before a trial is counted
void on_trial(int p) {
  int lim = req_min(p), h = hit[p];
#ifdef HAVE_CSNRN
  sym_assert(point_now() == p, "the noise level the codec is told does not belong to the SNR index it is told");
#endif
  sym_assert(p >= point_last, "an SNR point is resumed after a later one");
  if (p > point_last) sym_assert(p == point_last + 1, "an SNR point is skipped");
  point_last = p;
  if (h > 0) { if (h + h / 2 + 1 > lim) lim = h + h / 2 + 1; sym_assert(ref[p].trn < lim, "an SNR point goes on after its trials and errors are reached"); }
}
void after_trial(int p) { hit[p] = hit[p] ? hit[p] : (ref[p].en_bl >= C.minen) ? ref[p].trn : 0; }

static void check_file_any(const cnt_t *r, int np, int rates);
static void mode_count(void) { // C18, C19
  void *inst; int rc, i; 
  get_cfg(); new_run();
  inst = open_sim();
  ticks_max = sym_param("ticks", 0);
  while ((rc = sim_run(inst)) == RC_SIMUL_NOT_COMPLETED) { check_state(inst); if (sym_param("show", 0)) check_lines(inst, log_snrn[t_no - 1] + 1); }
  sym_assert(rc == 0, "the simulation ends with an error");
  for (i = 0; i < C.nsnr; i++) sym_assert(ref[i].trn > 0, "the simulation is reported complete before every SNR value is done");
  check_stop();
  check_lines(inst, C.nsnr);
  sym_assert(sim_save_res(inst) == 0, "saving the results fails");
  check_file_any(ref, C.nsnr, 1);
  sym_assert(!sym_file_exists("res.txt.bsy"), "the busy marker is left behind");
  sim_close(inst);
  sym_assert(codec_live == 0, "the codec is not closed");
  observe_run();
}
// a decoder error ends the run; the trial is not counted
static void mode_decerr(void) {
  void *inst; int rc, live, p, i, at; cnt_t keep[8];
  get_cfg(); new_run();
  inst = open_sim();
  live = sym_heap_live();
  at = codec_decerr = sym_choice("err_at", 1 + sym_param("maxerr", 4));
  ticks_max = sym_param("ticks", 0);
  while ((rc = sim_run(inst)) == RC_SIMUL_NOT_COMPLETED) ;
  if (t_no > at) {
    sym_assert(rc < 0, "a decoder error is not reported");
    sym_assert(sym_heap_live() == live, "a run that fails leaves memory allocated");
    p = cur_snrn; 
    memcpy(keep, ref, sizeof ref);
    { state_t s; get_state(inst, &s, want_ml); sym_assert(s.no == p + 1, "the status shows another SNR number than the one simulated"); sym_assert_eq(s.trn, ref[p].trn, "a trial without an outcome is counted"); sym_assert_eq(s.en, ref[p].en_bl, "the status shows a wrong number of block errors"); }
    sym_assert(sim_save_res(inst) == 0, "saving the results fails");
    check_file_any(ref, p + 1, 0);
    sym_cover("error");
    codec_decerr = -1;
    while ((rc = sim_run(inst)) == RC_SIMUL_NOT_COMPLETED) ;
  }
  sym_assert(rc == 0, "the simulation ends with an error");
  sym_assert(sym_heap_live() == live, "a run leaves memory allocated");
  check_stop();
  sym_assert(sim_save_res(inst) == 0, "saving the results fails");
  check_file_any(ref, C.nsnr, 0);
  sim_close(inst);
  (void)i; (void)keep;
  observe_run();
}
// running short of memory, or an encoder that fails, ends the call with an error and leaves no trace
static int same_file(const char *name, const char *copy, int len) { FILE *f = fopen(name, "rb"); int i, c, ok = 1; if (!f) return 0; for (i = 0; i < len; i++) { c = fgetc(f); if (c != (unsigned char)copy[i]) { ok = 0; break; } } if (ok && fgetc(f) != EOF) ok = 0; fclose(f); return ok; }
static void mode_fault(void) {
  void *inst = NULL; int rc, live, i, p, fired, what = sym_param("what", 0), nat = sym_param("nat", 6), saved = sym_param("before", 0);
  get_cfg(); new_run();
  if (what == 0) {
    SP.spf_name = "par.txt"; SP.ret_int = ret_int; SP.dont_randomize = 1; write_cfg("par.txt");
    live = sym_heap_live();
    sym_fail_alloc(1 + sym_choice("at", nat));
    rc = sim_init(&SP, &inst);
    fired = sym_fail_alloc(0);
    if (fired) {
      sym_assert(rc < 0, "sim_init reports success without the memory it needs");
      sym_assert(sym_heap_live() == live, "a failed sim_init leaves memory allocated");
      sym_assert(codec_live == 0, "a failed sim_init leaves a codec open");
      sym_cover("struck");
    }
    else { sym_assert(rc == 0, "a valid simulation file is rejected"); sim_close(inst); sym_cover("missed"); }
    sym_assert(sym_heap_live() == live, "a closed simulation leaves memory allocated");
    sym_assert(codec_live == 0, "a closed simulation leaves its codec open");
  }
  inst = open_sim();
  live = sym_heap_live();
  ticks_max = sym_param("ticks", 0);
  if (what == 1) { // the run
    int at = sym_choice("run", 2), n = 0;
    for (;;) {
      if (n++ == at) {
        cnt_t keep[8]; int t0 = t_no; memcpy(keep, ref, sizeof ref);
        sym_fail_alloc(1 + sym_choice("at", nat));
        rc = sim_run(inst);
        if (sym_fail_alloc(0)) {
          sym_assert(rc < 0, "a run short of memory does not report an error");
          sym_assert(t_no == t0, "a run short of memory decodes");
          sym_assert(sym_heap_live() == live, "a run that fails leaves memory allocated");
          sym_cover("struck");
          continue;
        }
      }
      else rc = sim_run(inst);
      if (rc != RC_SIMUL_NOT_COMPLETED) break;
    }
  }
  else if (what == 3) { // the encoder
    codec_encerr = sym_choice("err_at", 1 + sym_param("maxerr", 4));
    while ((rc = sim_run(inst)) == RC_SIMUL_NOT_COMPLETED) ;
    if (enc_no > codec_encerr) {
      sym_assert(rc < 0, "an encoder error is not reported");
      sym_assert(sym_heap_live() == live, "a run that fails leaves memory allocated");
      p = cur_snrn; if (hit[p] > ref[p].trn) hit[p] = 0;
      { state_t s; get_state(inst, &s, want_ml); sym_assert(s.no == p + 1, "the status shows another SNR number than the one simulated"); sym_assert_eq(s.trn, ref[p].trn, "a trial without an outcome is counted"); sym_assert_eq(s.en, ref[p].en_bl, "the status shows a wrong number of block errors"); }
      sym_assert(sim_save_res(inst) == 0, "saving the results fails");
      check_file_any(ref, p + 1, 0);
      sym_cover(enc_fail_ml ? "struck_ml" : "struck");
      codec_encerr = -1;
      while ((rc = sim_run(inst)) == RC_SIMUL_NOT_COMPLETED) ;
    }
  }
  else while ((rc = sim_run(inst)) == RC_SIMUL_NOT_COMPLETED) { if (what == 2 && saved) sym_assert(sim_save_res(inst) == 0, "saving the results fails"); }
  sym_assert(rc == 0, "the simulation ends with an error");
  sym_assert(sym_heap_live() == live, "a run leaves memory allocated");
  check_stop();
  if (what == 2) { // the save
    int len = read_file(C.res); static char keep[20000];
    if (len > 0) memcpy(keep, fcopy, len);
    sym_fail_alloc(1 + sym_choice("at", nat));
    rc = sim_save_res(inst);
    fired = sym_fail_alloc(0);
    if (fired) {
      sym_assert(rc < 0, "a save short of memory does not report an error");
      if (len > 0) sym_assert(same_file(C.res, keep, len), "a failed save changes the results file");
      sym_assert(sym_heap_live() == live, "a failed save leaves memory allocated");
      sym_cover("struck");
      sym_assert(sim_save_res(inst) == 0, "saving the results fails");
    }
    else { sym_assert(rc == 0, "saving the results fails"); sym_cover("missed"); }
    sym_assert(!sym_file_exists("res.txt.bsy"), "the busy flag is left behind");
  }
  else sym_assert(sim_save_res(inst) == 0, "saving the results fails");
  check_file_any(ref, C.nsnr, 0);
  sim_close(inst);
  sym_assert(sym_heap_live() == 0, "a closed simulation leaves memory allocated");
  (void)i;
  observe_run();
}
// the file holds the first np points in any order
static void check_file_any(const cnt_t *r, int np, int rates) {
  double d[60]; int i, j, n, eix[60]; cnt_t tt[60];
  sym_assert(read_file(C.res) > 0, "the results file is missing or empty");
  n = get_dbls("SNR", d, 60); sym_assert(n == np, "the results file does not have each SNR value once");
  for (i = 0; i < np; i++) {
    for (j = 0; j < np && snr_tab[C.ix[j]] != d[i]; j++) ;
    sym_assert(j < np, "the results file has a wrong SNR value");
    eix[i] = C.ix[j]; tt[i] = r[j];
    for (j = 0; j < i; j++) sym_assert(eix[j] != eix[i], "the results file has an SNR value twice");
  }
  check_file(eix, tt, np, rates);
}
typedef struct { double sg[MAXT], y[MAXT][MAXC]; int snrn[MAXT], n, rnd; cnt_t r[8]; } run_t;
static run_t RA;
static void mode_resume(void) { // C20
  void *inst; int rc, i, j, nint = 0; static cnt_t z[8];
  get_cfg(); new_run();
  inst = open_sim();
  ticks_max = 0;
  while ((rc = sim_run(inst)) == RC_SIMUL_NOT_COMPLETED) ;
  sym_assert(rc == 0, "the simulation ends with an error");
  memcpy(RA.sg, log_sg, sizeof log_sg); memcpy(RA.y, log_y, sizeof log_y); memcpy(RA.snrn, log_snrn, sizeof log_snrn); RA.n = log_n; RA.rnd = rnd_n; memcpy(RA.r, ref, sizeof ref);
  sim_close(inst);
  memset(hit, 0, sizeof hit); point_last = 0;
  new_run();
  inst = open_sim();
  tick_n = 0; ticks_max = sym_param("ticks", 4);
  while ((rc = sim_run(inst)) == RC_SIMUL_NOT_COMPLETED) {
    nint++;
    if (sym_param("saves", 1)) {
      int w = sym_choice("act", 3);
      if (w == 1) { sym_assert(sim_save_res(inst) == 0, "saving the results fails"); check_file_any(ref, log_snrn[t_no - 1] + 1, 0); }
      if (w == 2) check_lines(inst, log_snrn[t_no - 1] + 1);
    }
    check_state(inst);
    sym_assert(nint < 40, "the simulation does not end");
  }
  sym_assert(rc == 0, "the simulation ends with an error");
  if (nint) sym_cover("interrupted");
  sym_assert(log_n == RA.n, "an interrupted simulation performs another number of trials");
  sym_assert(rnd_n == RA.rnd, "an interrupted simulation draws another number of random values");
  for (i = 0; i < log_n; i++) {
    sym_assert(log_snrn[i] == RA.snrn[i], "an interrupted simulation performs a trial at another SNR value");
    sym_assert(log_sg[i] == RA.sg[i], "an interrupted simulation performs a trial at another noise level");
    for (j = 0; j < sn; j++) sym_assert(log_y[i][j] == RA.y[i][j], "an interrupted simulation decodes another received word");
  }
  for (i = 0; i < C.nsnr; i++) { sym_assert_eq(ref[i].trn, RA.r[i].trn, "counters"); sym_assert_eq(ref[i].en_bl, RA.r[i].en_bl, "counters"); }
  sym_assert(sim_save_res(inst) == 0, "saving the results fails");
  check_file_any(RA.r, C.nsnr, sym_param("rates", 0));
  sym_assert(sim_save_res(inst) == 0, "saving the results again fails");
  check_file_any(RA.r, C.nsnr, 0);
  check_lines(inst, C.nsnr);
  (void)z;
  sim_close(inst);
  observe_run();
}
// C23: the received words against the draws
extern int draw_log[]; extern int draw_n;
static double u01(int i) { return (double)draw_log[i] / 2147483647.0; }
static void mode_noise(void) {
  void *inst; int rc, t, i, d = 0;
  get_cfg(); new_run();
  inst = open_sim();
  while ((rc = sim_run(inst)) == RC_SIMUL_NOT_COMPLETED) ;
  sym_assert(rc == 0, "the simulation ends with an error");
  for (t = 0; t < log_n; t++) {
    double c[MAXC]; int x[MAXK];
    double e = exp_sg(log_snrn[t]), ds = log_sg[t] - e;
    sym_assert(ds < 1e-9 * e && ds > -1e-9 * e, "the codec is told another noise level than the one of the Eb/N0 value and the rate");
    if (t) sym_assert(log_snrn[t] >= log_snrn[t - 1], "the SNR points are not simulated in order");
    for (i = 0; i < sk; i++) x[i] = 0;
    if (C.rndcw) for (i = 0; i < sk; i++) x[i] = u01(d++) > 0.5;
    stub_cw(x, c);
    for (i = 0; i < sn; i += 2) {
      double v1, v2, r, q, a, b;
      for (;;) { sym_assert(d + 1 < draw_n, "noise is added without new random values"); v1 = 2 * u01(d) - 1; v2 = 2 * u01(d + 1) - 1; d += 2; r = v1 * v1 + v2 * v2; if (!(r >= 1.0)) break; }
      q = sqrt(-2.0 * log(r) / r) * e;
      a = log_y[t][i] - (c[i] + v1 * q); b = log_y[t][i + 1] - (c[i + 1] + v2 * q);
      sym_assert(a < 1e-6 && a > -1e-6 && b < 1e-6 && b > -1e-6, "a received value is not the symbol plus its scaled Gaussian draw");
    }
  }
  sym_assert(d == draw_n, "random values are drawn that no trial uses");
  sim_close(inst);
  observe_run();
}
// C21: sessions sharing one results file
static const char *lists[] = {"01", "10", "12", "021", "0", "2", "320", "1", "31", "13", "7", "75", "57", "4620", "0246", "315"};
static int slots[8], nslots; static cnt_t total[8];
static void add_total(int ix, const cnt_t *c) { cnt_t *t = &total[ix]; t->trn += c->trn; t->en_bit += c->en_bit; t->en_bl += c->en_bl; t->er += c->er; t->trn_ml += c->trn_ml; t->enml += c->enml; }
static void check_sums(int rates) { // the file holds every SNR value once, in any order, with the exact sums
  double d[60]; int n, i, j, eix[60]; cnt_t tt[60];
  sym_assert(read_file(C.res) > 0, "the results file is missing or empty");
  n = get_dbls("SNR", d, 60);
  sym_assert(n == nslots, "the results file does not have each SNR value once");
  for (i = 0; i < n; i++) {
    for (j = 0; j < nslots && snr_tab[slots[j]] != d[i]; j++) ;
    sym_assert(j < nslots, "the results file has an SNR value that was not simulated");
    for (eix[i] = slots[j], j = 0; j < i; j++) sym_assert(eix[j] != eix[i], "the results file has an SNR value twice");
    tt[i] = total[eix[i]];
  }
  check_file(eix, tt, n, rates);
}
static void slot(int ix) { int j; for (j = 0; j < nslots; j++) if (slots[j] == ix) return; slots[nslots++] = ix; }
static void mode_merge(void) {
  void *inst; int rc, s, i, ns = sym_param("sessions", 2), pre = sym_param("pre", 0), nl = sym_param("lists", 10), l0 = sym_param("l0", 0);
  get_cfg();
  if (pre) { // an old file with any counters
    int a[2] = {0, 2}, np = 2; FILE *f; cnt_t o[2]; char b[20];
    if (pre == 2) { a[0] = 3; a[1] = 1; }
    if (pre == 3) { a[0] = 2; a[1] = 0; }
    f = fopen(C.res, "wb");
    for (i = 0; i < np; i++) {
      int lim = sym_param("maxold", 1000000000);
#define OLD(fld, nme) sprintf(b, nme "%d", i); o[i].fld = sym_int(b, 0, lim);
      OLD(trn, "o_trn") OLD(en_bit, "o_bit") OLD(en_bl, "o_bl") OLD(er, "o_er") OLD(trn_ml, "o_trml") OLD(enml, "o_enml")
      slot(a[i]); total[a[i]] = o[i];
    }
    fprintf(f, "code_n %d\ncode_k %d\n\nSNR { %s %s }\n", sn, sk, snr_txt[a[0]], snr_txt[a[1]]);
    fprintf(f, "tr_num { %d %d }\nen_bit { %d %d }\nen_bl { %d %d }\n", o[0].trn, o[1].trn, o[0].en_bit, o[1].en_bit, o[0].en_bl, o[1].en_bl);
    fprintf(f, "erasures_num { %d %d }\nWER { 1.000e-01 2.000e-01 }\nERR { 1.000e-01 2.000e-01 }\n", o[0].er, o[1].er);
    fprintf(f, "ml_tr_num { %d %d }\nenml_bl { %d %d }\nMLER { 0.0 0.0 }\n\n%% SNR   BER\n%% 0.00  1.0", o[0].trn_ml, o[1].trn_ml, o[0].enml, o[1].enml);
    fclose(f);
  }
  for (s = 0; s < ns; s++) {
    const char *l = lists[l0 + sym_choice("list", nl)]; cnt_t before[8];
    C.nsnr = (int)strlen(l); for (i = 0; i < C.nsnr; i++) C.ix[i] = l[i] - '0';
    new_run(); memset(hit, 0, sizeof hit); point_last = 0;
    memset(before, 0, sizeof before);
    inst = open_sim();
    tick_n = 0; ticks_max = sym_param("ticks", 0);
    for (;;) {
      rc = sim_run(inst);
      sym_assert(rc == 0 || rc == RC_SIMUL_NOT_COMPLETED, "the simulation ends with an error");
      if (rc == 0 || sym_choice("save", 2)) {
        sym_assert(sim_save_res(inst) == 0, "saving the results fails");
        sym_assert(!sym_file_exists("res.txt.bsy"), "the busy marker is left behind");
        for (i = 0; i < C.nsnr; i++) {
          cnt_t d = ref[i]; cnt_t *b = &before[i];
          if (ref[i].trn == 0) continue;
          d.trn -= b->trn; d.en_bit -= b->en_bit; d.en_bl -= b->en_bl; d.er -= b->er; d.trn_ml -= b->trn_ml; d.enml -= b->enml;
          before[i] = ref[i];
          slot(C.ix[i]); add_total(C.ix[i], &d);
        }
        check_sums(!pre);
      }
      if (rc == 0) break;
    }
    sim_close(inst);
  }
  observe_run();
}
// an old results file with a full table
static void mode_full(void) {
  int np = sym_param("old", 50), i, t0, w, have, rc, need = 0; FILE *f; void *inst; static char keep[20000]; double d[60]; int v[60], n;
  get_cfg(); new_run();
  w = sym_choice("run", 4); C.nsnr = w == 3 ? 2 : 1; C.ix[0] = w == 0 ? 2 : w == 1 ? 1 : 0; C.ix[1] = 2; // 3 (old), 1.5 (new in the middle), 0 (old), 0 and 3
  if (w == 2) C.ix[0] = 3;                                                                            // -2.25: new at the front
  t0 = sym_int("old_trn", 1, 1000000);
  inst = open_sim();
  rc = sim_run(inst); sym_assert(rc == 0, "the simulation ends with an error");
  f = fopen(C.res, "wb");
  fprintf(f, "SNR {"); for (i = 0; i < np; i++) fprintf(f, " %d", i); fprintf(f, " }\ntr_num {"); for (i = 0; i < np; i++) fprintf(f, " %d", t0 + i);
  fprintf(f, " }\nen_bit {"); for (i = 0; i < np; i++) fprintf(f, " %d", i); fprintf(f, " }\nen_bl {"); for (i = 0; i < np; i++) fprintf(f, " %d", i);
  fprintf(f, " }\nerasures_num {"); for (i = 0; i < np; i++) fprintf(f, " 1"); fprintf(f, " }\nml_tr_num {"); for (i = 0; i < np; i++) fprintf(f, " 0"); fprintf(f, " }\nenml_bl {"); for (i = 0; i < np; i++) fprintf(f, " 0"); fprintf(f, " }\n"); fclose(f);
  have = read_file(C.res); memcpy(keep, fcopy, have);
  need = w == 1 || w == 2;
  rc = sim_save_res(inst);
  sym_assert(!sym_file_exists("res.txt.bsy"), "the busy marker is left behind");
  if (np + need > 50) {
    sym_cover("full");
    sym_assert(rc != 0, "a results file without room is reported as saved");
    sym_assert(read_file(C.res) == have && !memcmp(keep, fcopy, have), "a results file without room is overwritten");
  } else {
    sym_cover("room");
    sym_assert(rc == 0, "saving the results fails");
    read_file(C.res);
    n = get_dbls("SNR", d, 60); sym_assert(n == np + need, "the results file does not have each SNR value once");
    n = get_ints("tr_num", v, 60); sym_assert(n == np + need, "a counter group of the results file has a wrong length");
    for (i = 0; i < n; i++) {
      int k, add = 0; for (k = 0; k < C.nsnr; k++) if (d[i] == snr_tab[C.ix[k]]) add = ref[k].trn;
      if (d[i] == (int)d[i] && d[i] >= 0) sym_assert_eq(v[i], t0 + (int)d[i] + add, "the saved number of trials is wrong"); else sym_assert_eq(v[i], add, "the saved number of trials is wrong");
    }
  }
  sim_close(inst);
  observe_run();
}
// an old results file that cannot be used is not replaced
static void mode_badold(void) {
  static const char *bad[] = {
    "SNR { 0 1.5 }\ntr_num { 5 6 }\nen_bit { 1 1 }\nen_bl { 1 1 }\nerasures_num { 0 0 }\nml_tr_num { 0 0 }\nenml_bl { 0 }\n",
    "SNR { 0 1.5 }\ntr_num { 5 }\nen_bit { 1 }\nen_bl { 1 }\nerasures_num { 0 }\nml_tr_num { 0 }\nenml_bl { 0 }\n",
    "SNR { 0 }\ntr_num { 5 }\nen_bit { 1 }\nen_bl 1\nerasures_num { 0 }\nml_tr_num { 0 }\nenml_bl { 0 }\n",
    "SNR { 0 }\ntr_num { 5 }\nen_bit { 1 }\nen_bl { 1 }\nml_tr_num { 0 }\nenml_bl { 0 }\n",
    "SNR 0\ntr_num { 5 }\nen_bit { 1 }\nen_bl { 1 }\nerasures_num { 0 }\nml_tr_num { 0 }\nenml_bl { 0 }\n",
    "tr_num { 5 }\nen_bit { 1 }\nen_bl { 1 }\nerasures_num { 0 }\nml_tr_num { 0 }\nenml_bl { 0 }\n",
    "SNR { 0 1.5 }\ntr_num { 5 6 }\nen_bit { 1 1 }\nen_bl { 1",                     // cut off
    "code_n 4\ncode_k 2\n\nSNR",
    "code_n 4\ncode_k 2\n\nSNR { 0 1.5 }\ntr_num { 5 6 }\nen_bit { 1 1 }\nen_bl { 1 1 }\nerasures_num { 0 0 }\nWER { 1 1 }\nml_tr_num {",
    "include missing_file\n", "SNR { 0 }\ntr_num"};
  static char keep[2000]; void *inst; int rc, live, w = sym_choice("bad", 6 + 5);
  get_cfg(); new_run();
  inst = open_sim();
  put_file(C.res, bad[w]); strcpy(keep, bad[w]);
  rc = sim_run(inst); sym_assert(rc == 0, "the simulation ends with an error");
  live = sym_heap_live();
  sym_assert(sim_save_res(inst) != 0, "an inconsistent results file is accepted");
  sym_assert(read_file(C.res) == (int)strlen(keep) && !strcmp(fcopy, keep), "an inconsistent results file is overwritten");
  sym_assert(!sym_file_exists("res.txt.bsy"), "the busy marker is left behind by a failed save");
  sym_assert(sym_heap_live() == live, "a failed save leaves memory or files open");
  remove(C.res);
  sym_assert(sim_save_res(inst) == 0, "saving fails after the bad file is gone");
  check_file_any(ref, C.nsnr, 0);
  // a marker of another writer
  put_file("res.txt.bsy", "x"); clk_calls = 0;
  sym_assert(sim_save_res(inst) != 0, "a results file another simulation is writing is overwritten");
  sym_assert(clk_calls > 0, "saving does not wait for another writer");
  sym_assert(sym_file_exists("res.txt.bsy"), "the busy marker of another writer is removed");
  remove("res.txt.bsy");
  sym_assert(sim_save_res(inst) == 0, "saving fails after the other writer is done");
  check_file_any(ref, C.nsnr, 0);
  sim_close(inst);
  observe_run();
}
// C25: operator commands at any return
static void mode_ctrl(void) {
  void *inst; int rc, n = 0, i, maxc = sym_param("cmds", 2), cmd_used = 0; state_t a, b; cnt_t keep[8];
  get_cfg(); new_run();
  inst = open_sim();
  ticks_max = sym_param("ticks", 3);
  for (;;) {
    if (n == 0 && sym_param("early", 1)) rc = RC_SIMUL_NOT_COMPLETED; else rc = sim_run(inst);
    n++;
    sym_assert(n < 40, "the simulation does not end");
    if (rc == RC_SIMUL_NOT_COMPLETED) {
      while (cmd_used < maxc) {
        int c = sym_choice("cmd", 4), want, p;
        if (c == 0) break;
        cmd_used++;
        memcpy(keep, ref, sizeof ref);
        get_state(inst, &a, want_ml);
        sim_control(inst, c == 1 ? SIM_CTRL_CUR_MORE : c == 2 ? SIM_CTRL_CUR_LESS : SIM_CTRL_CUR_NEXT);
        get_state(inst, &b, want_ml);
        want = c == 1 ? a.req + a.req / 2 : c == 2 ? a.req - a.req / 3 : a.trn;
        if (c == 2 && want < a.trn) want = a.trn;
        sym_assert_eq(b.req, want, "a command changes the requested trials to a wrong number");
        sym_assert(a.trn == b.trn && a.no == b.no && a.en == b.en && a.num == b.num && a.ml == b.ml, "a command changes more than the requested trials");
        p = a.no - 1; 
        hit[p] = -1;        // the usual stopping rule is suspended for this point
        sym_cover(c == 1 ? "more" : c == 2 ? "less" : "next");
        if (c == 3) { // the point must not go on
          int t = ref[p].trn;
          ticks_max = tick_n; // no more interruptions
          rc = sim_run(inst);
          sym_assert(ref[p].trn == t, "trials are added to a point after the command for the next one");
          if (rc == 0) goto done;
        }
      }
    } else break;
  }
done:
  sym_assert(rc == 0, "the simulation ends with an error");
  // commands after the last point
  for (i = 1; i <= 3; i++) {
    sim_control(inst, i == 1 ? SIM_CTRL_CUR_MORE : i == 2 ? SIM_CTRL_CUR_LESS : SIM_CTRL_CUR_NEXT);
  }
  { int t = t_no; sym_assert(sim_run(inst) == 0, "a completed simulation is reported as not completed"); sym_assert(t_no == t, "a completed simulation performs more trials"); }
  for (i = 0; i < C.nsnr; i++) {
    if (hit[i] >= 0) { sym_assert(ref[i].trn >= req_min(i), "a command changes the trials of another SNR point"); sym_assert(ref[i].en_bl >= C.minen, "a command changes the trials of another SNR point"); }
  }
  sym_assert(sim_save_res(inst) == 0, "saving the results fails");
  check_file_any(ref, C.nsnr, 0);
  sim_close(inst);
  observe_run();
}

// C24: keys in any order, unknown and codec parameters between them
#define MAXL 12
static void put_items(char (*it)[1600], int n, int perm, int gapkinds) { // one symbolic order, one extra parameter somewhere
  static const char *gap[] = {"", "unk 5", "unk { 1 2 3 }", "unk {EbNo_values 3}", "unk { }", "unk ml_lb", "unk { ml_lb on min_trials_per_snr }", "unk {res_file} more { fixed_R } last 7", "unk -1e300"};
  int i, j, used[MAXL] = {0}, g = gapkinds > 0 ? sym_choice("gap", gapkinds) : 0, at = g ? sym_choice("gap_at", n + 1) : -1, rev = perm == 2 ? sym_choice("reversed", 2) : 0; FILE *f = fopen("par.txt", "wb");
  for (i = 0; i <= n; i++) {
    int w;
    if (i == at) fprintf(f, "%s\n", gap[g]);
    if (i == n) break;
    w = perm == 1 ? sym_choice("item", n - i) : rev ? n - 1 - i : 0;
    for (j = 0; used[j] || w-- > 0; j++) ;
    used[j] = 1;
    fputs(it[j], f);
  }
  fclose(f);
  gap_used = gap[g];
}
static int codec_has(const char *words) { // the words follow each other in what the codec was given
  static char b[400], w[20][40]; int n = 0, i, m = 0; char *p; static char *t[600];
  for (i = 0; words[i];) { int k = 0; while (words[i] == ' ') i++; if (!words[i]) break; while (words[i] && words[i] != ' ') { w[n][k++] = words[i]; i++; if (w[n][k - 1] == '{' || words[i] == '}') break; } w[n++][k] = 0; }
  for (p = codec_str; *p;) { while (*p && (*p == '\1' || *p == ' ' || *p == '\n')) p++; if (!*p) break; t[m++] = p; while (*p && *p != '\1' && *p != ' ' && *p != '\n') p++; }
  for (i = 0; i + n <= m; i++) { int j; for (j = 0; j < n; j++) { size_t l = strlen(w[j]); if (strncmp(t[i + j], w[j], l) || (t[i + j][l] != '\1' && t[i + j][l] != 0 && t[i + j][l] != ' ' && t[i + j][l] != '\n')) break; } if (j == n) return 1; }
  (void)b;
  return 0;
}
static int add_list(char *d, int symnum) {
  int i, n;
  if (C.svt) { n = sprintf(d, "SNR_val_trn {"); for (i = 0; i < C.nsnr; i++) n += sprintf(d + n, " %s %d", snr_txt[C.ix[i]], C.req[i]); n += sprintf(d + n, " }\n"); }
  else { n = sprintf(d, "EbNo_values {"); for (i = 0; i < C.nsnr; i++) n += sprintf(d + n, "%s%s", i ? " " : "", snr_txt[C.ix[i]]); n += sprintf(d + n, "}\n"); }
  (void)symnum;
  return n;
}
static void mode_params(void) {
  static char it[MAXL][1600]; char items[20]; int n = 0, i, s = sym_param("sym", 0), rc, mt, me; void *inst = NULL;
  get_cfg(); new_run();
  sym_param_str("items", "rLte", items);
  i = sym_param("snrsym", 0) ? sym_choice("snr0", 8) : 1; rc = sym_param("snrsym", 0) ? 2 * sym_choice("step", 2) : 0;
  { int a; for (a = 0; a < C.nsnr; a++) C.ix[a] = (i + a * (1 + rc)) % 8; }
  mt = C.mintrn = 0; me = C.minen = 0;
  for (i = 0; i < C.nsnr; i++) C.req[i] = s ? sym_int("req", -5, 100000000) : C.svt ? sym_choice("req", 4) - 1 : 0;
  for (i = 0; items[i]; i++) {
    char *d = it[n++];
    switch (items[i]) {
      case 'r': sprintf(d, "res_file %s\n", C.res); break;
      case 'L': add_list(d, s); break;
      case 't': mt = s ? sym_int("mintrn", -5, 100000000) : sym_choice("mintrn", 5) - 1; sprintf(d, "min_trials_per_snr %d\n", mt); break;
      case 'e': me = s ? sym_choice("minen", 3) - 1 : sym_choice("minen", 5) - 1; sprintf(d, "min_errors_per_snr %d\n", me); break;
      case 'w': C.rndcw = sym_choice("rndcw", 2); sprintf(d, "random_codeword %s\n", C.rndcw ? "on" : "off"); break;
      case 'm': C.ml = sym_choice("ml", 2); sprintf(d, "ml_lb %s\n", C.ml ? "on" : "off"); break;
      case 'h': C.mlh = sym_choice("mlh", 2); sprintf(d, "ml_lb_hard %s\n", C.mlh ? "on" : "off"); break;
      case 'f': C.fixR = sym_choice("fixR", 2) ? 0.3125 : 0.0; sprintf(d, "fixed_R %s\n", C.fixR > 0 ? "0.3125" : "0"); break;
      case 'c': sprintf(d, "stub_key 5\nRM_m 7\n"); break;
      case 'g': sprintf(d, "stub_grp { 10 3 4 }\n"); break;
    }
  }
  C.mintrn = mt = mt < 1 ? 1 : mt; C.minen = me < 1 ? 1 : me;
  for (i = 0; i < C.nsnr; i++) if (!C.svt) C.req[i] = mt; else if (C.req[i] < 1) C.req[i] = mt;
  C.svt = 1;              // from here on C.req holds what is wanted
  zero_cw = !C.rndcw; want_ml = C.ml || C.mlh; want_hd = C.mlh;
  put_items(it, n, sym_param("perm", 1), sym_param("gaps", 9));
  SP.spf_name = "par.txt"; SP.ret_int = ret_int; SP.dont_randomize = 1;
  sym_assert(sim_init(&SP, &inst) == 0, "a valid simulation file is rejected");
  sym_assert(inst != NULL && codec_live == 1, "initialisation yields no instance");
  if (strchr(items, 'c')) sym_assert(codec_has("stub_key 5") && codec_has("RM_m 7"), "the codec is not given its parameters");
  if (strchr(items, 'g')) sym_assert(codec_has("stub_grp { 10 3 4 }"), "the codec is not given its parameters");
  sym_assert(codec_has(gap_used), "parameters unknown to the simulator are not passed to the codec");
  if (s) {
    state_t st;
    for (i = 0; i < C.nsnr; i++) {
      if (i == 0) get_state(inst, &st, want_ml);
      sym_assert(st.no == i + 1 && st.num == C.nsnr, "the number of SNR values is wrong");
      { double d = st.snr - snr_tab[C.ix[i]]; sym_assert(d < 0.0051 && d > -0.0051, "an SNR value is read wrongly"); }
      sym_assert_eq(st.req, C.req[i], "the number of trials requested for an SNR value is wrong");
      clock_jumps = 1;
      if (i) sim_control(inst, SIM_CTRL_CUR_NEXT);
      else { hit[0] = -1; rc = sim_run(inst); hit[0] = -1; if (rc == 0) break; sim_control(inst, SIM_CTRL_CUR_NEXT); }
      if (i + 1 == C.nsnr) break;
      hit[i] = -1; rc = sim_run(inst); hit[i] = hit[i + 1] = -1;
      sym_assert(log_n && log_snrn[log_n - 1] == i + 1, "the command for the next point does not lead to the next point");
      get_state(inst, &st, want_ml);
      if (rc == 0) break;
    }
  }
  else {
    while ((rc = sim_run(inst)) == RC_SIMUL_NOT_COMPLETED) ;
    sym_assert(rc == 0, "the simulation ends with an error");
    check_stop();
    check_lines(inst, C.nsnr);
    sym_assert(sim_save_res(inst) == 0, "saving the results fails");
    check_file_any(ref, C.nsnr, 1);
  }
  sim_close(inst);
  sym_assert(codec_live == 0, "the codec is not closed");
  observe_run();
}
static void mode_badparams(void) {
  static char it[MAXL][1600]; int n = 0, i, kind = sym_param("kind", 0), rc, live; void *inst = NULL; char *d; static char name[1100];
  get_cfg(); new_run();
  d = it[n++]; 
  { int nl = kind == 3 ? 1000 : kind == 20 ? 999 : 0; if (nl) { memset(name, 'f', nl); if (nl == 999) { int q; for (q = 0; q < 996; q += 2) { name[q] = '.'; name[q + 1] = '/'; } } sprintf(d, "res_file %s\n", name); C.res = name; } else sprintf(d, "res_file res.txt\n"); }
  d = it[n++];
  switch (kind) {
    case 0: sprintf(d, "unk { 1 2 }\n"); break;
    case 1: sprintf(d, "EbNo_values { }\n"); break;
    case 2: sprintf(d, "SNR_val_trn { }\n"); break;
    case 5: case 21: i = sprintf(d, "EbNo_values { "); { int v; for (v = 0; v < (kind == 5 ? 51 : 50); v++) i += sprintf(d + i, "%d ", v); } sprintf(d + i, "}\n"); break;
    case 6: case 22: i = sprintf(d, "SNR_val_trn { "); { int v; for (v = 0; v < (kind == 6 ? 51 : 50); v++) i += sprintf(d + i, "%d %d ", v, v + 1); } sprintf(d + i, "}\n"); break;
    case 7: sprintf(d, "SNR_val_trn { 1 20 2 }\n"); break;
    case 8: sprintf(d, "EbNo_values { 1 2\n"); break;
    case 9: sprintf(d, "SNR_val_trn { 1 20\n"); break;
    case 10: sprintf(d, "EbNo_values 2\n"); break;
    case 11: sprintf(d, "SNR_val_trn 2\n"); break;
    case 14: sprintf(d, "EbNo_values\n"); break;
    case 15: sprintf(d, "SNR_val_trn\n"); break;
    case 16: sprintf(d, "SNR_val_trn {\n"); break;
    case 17: sprintf(d, "SNR_val_trn { 1\n"); break;
    case 18: sprintf(d, "EbNo_values {\n"); break;
    default: sprintf(d, "EbNo_values { 1 2 }\n");
  }
  sprintf(it[n++], "min_trials_per_snr 2\n");
  sprintf(it[n++], "stub_key 5\n");
  if (kind == 8 || kind == 9 || (kind >= 14 && kind <= 18)) { // the bad item comes last
    char t[1600]; strcpy(t, it[1]); strcpy(it[1], it[n - 1]); strcpy(it[n - 1], t);
    put_items(it, n, 0, 0);
  }
  else if (kind != 12) put_items(it, n, 1, 3);
  if (kind == 13) put_file("par.txt", sym_choice("empty", 2) ? "" : "% nothing\n");
  if (kind == 4) codec_fail_init = 1;
  SP.spf_name = "par.txt"; SP.ret_int = ret_int; SP.dont_randomize = 1;
  live = sym_heap_live();
  rc = sim_init(&SP, &inst);
  if (kind >= 20) {
    state_t s;
    sym_assert(rc == 0 && inst != NULL, "a valid simulation file is rejected");
    get_state(inst, &s, 0);
    sym_assert(s.num == (kind == 20 ? 2 : 50), "the number of SNR values is wrong");
    if (kind == 20) {
      C.mintrn = 2; C.nsnr = 2; C.ix[0] = 0; C.ix[1] = 1; snr_tab[0] = 1; snr_tab[1] = 2;
      rc = sim_run(inst); sym_assert(rc == 0, "the simulation ends with an error");
      sym_assert(sim_save_res(inst) == 0, "saving the results fails");
      check_file_any(ref, C.nsnr, 0);
    }
    sim_close(inst);
  }
  else {
    sym_assert(rc != 0, "a simulation file that is not valid is accepted");
    sym_assert(inst == NULL, "a failed initialisation yields an instance");
  }
  sym_assert(codec_live == 0, "a failed initialisation does not close the codec");
  sym_assert(sym_heap_live() == live, "a failed initialisation leaves memory or files open");
}
void harness(void) {
  switch (sym_param("mode", 1)) {
    case 1: mode_count(); break;
    case 2: mode_resume(); break;
    case 3: mode_merge(); break;
    case 4: mode_badold(); break;
    case 5: mode_noise(); break;
    case 6: mode_ctrl(); break;
    case 7: mode_full(); break;
    case 10: mode_decerr(); break;
    case 11: mode_fault(); break;
    case 8: mode_params(); break;
    case 9: mode_badparams(); break;
  }
  sym_cover("end");
}
