// The simulator's displayed and saved figures and its trial requests for any reachable counter values:
// the instance is set up through the interface and its counters are then made symbolic.
#include "simulators/sim_bg.c"
#include "hs.h"
static int point_last = -1;
void on_trial(int p) { point_last = p; }
void after_trial(int p) { (void)p; }
static int point_now(void) { return 0; }
static const char *par = "res_file res.txt\nmin_errors_per_snr %d\nrandom_codeword off\nml_lb %s\n";
static int base_trn = 1, listed;
static void *open_it(int minen, int ml) {
  static sim_init_params SP; void *inst = NULL; FILE *f = fopen("par.txt", "wb");
  if (listed) fprintf(f, "SNR_val_trn { 0 %d 1.5 3 3 1 }\n", base_trn); else fprintf(f, "EbNo_values { 0 1.5 3 }\nmin_trials_per_snr %d\n", base_trn);
  fprintf(f, par, minen, ml ? "on" : "off"); fclose(f);
  zero_cw = 1; want_ml = 0;
  SP.spf_name = "par.txt"; SP.ret_int = 10; SP.dont_randomize = 1;
  sym_assert(sim_init(&SP, &inst) == 0, "a valid simulation file is rejected");
  return inst;
}
static cnt_t c[3];
static void any_counters(sim_bg_inst *s, int i, int ml) {
  char b[20];
#define SYM(f, lo, hi) sprintf(b, #f "%d", i); c[i].f = sym_int(b, lo, hi);
  SYM(trn, 1, sym_param("maxtrn", 2147483646))
  SYM(en_bl, 0, 2147483646) SYM(en_bit, 0, 2147483646) SYM(er, 0, 2147483646) SYM(trn_ml, 0, 2147483646) SYM(enml, 0, 2147483646)
  sym_assume(c[i].en_bl <= c[i].trn); sym_assume((long long)c[i].en_bit <= (long long)c[i].trn * sk); sym_assume(c[i].er <= c[i].trn);
  sym_assume(c[i].trn_ml <= c[i].trn); sym_assume(c[i].enml <= c[i].trn_ml);
  if (!ml) { c[i].trn_ml = 0; c[i].enml = 0; }
  s->pt[i].trn = c[i].trn; s->pt[i].en_bl = c[i].en_bl; s->pt[i].en_bit = c[i].en_bit; s->pt[i].er_n = c[i].er; s->pt[i].trn_ml = c[i].trn_ml; s->pt[i].enml_bl = c[i].enml;
}
static void mode_show(void) {
  int ml = sym_param("ml", 1), i, n, v[10]; sim_bg_inst *s; resline_t l[5]; double d[10];
  sk = sym_param("k", 5); sn = 8;
  s = (sim_bg_inst *)open_it(1, ml);
  for (i = 0; i < 2; i++) any_counters(s, i, ml);
  s->csnrn = 1;
  n = get_lines(s, l, 5);
  sym_assert(n == 2, "the results table does not have one line per SNR value reached");
  for (i = 0; i < 2; i++) {
    sym_assert(sym_ratio(atof(l[i].bit), c[i].en_bit, (long long)c[i].trn * sk), "the displayed bit error rate is not errors over transmitted bits");
    sym_assert(sym_ratio(atof(l[i].bl), c[i].en_bl, c[i].trn), "the displayed word error rate is not block errors over trials");
    if (ml) sym_assert(sym_ratio(atof(l[i].ml), c[i].enml, c[i].trn_ml), "the displayed ML bound is not ML errors over ML trials");
  }
  sym_assert(sim_save_res(s) == 0, "saving the results fails");
  sym_assert(read_file("res.txt") > 0, "the results file is missing or empty");
#define GI(key, f, msg) n = get_ints(key, v, 10); sym_assert(n == 2, "a counter group of the results file has a wrong length"); for (i = 0; i < 2; i++) sym_assert_eq(v[i], c[i].f, msg);
  GI("tr_num", trn, "the saved number of trials is wrong")
  GI("en_bit", en_bit, "the saved number of bit errors is wrong")
  GI("en_bl", en_bl, "the saved number of block errors is wrong")
  GI("erasures_num", er, "the saved number of erasures is wrong")
  GI("ml_tr_num", trn_ml, "the saved number of ML trials is wrong")
  GI("enml_bl", enml, "the saved number of ML errors is wrong")
#define GR(key, a, b, msg) n = get_dbls(key, d, 10); sym_assert(n == 2, "a rate group of the results file has a wrong length"); for (i = 0; i < 2; i++) sym_assert(sym_ratio(d[i], c[i].a, c[i].b), msg);
  GR("WER", en_bl, trn, "the saved WER is not block errors over trials")
  GR("ERR", er, trn, "the saved ERR is not erasures over trials")
  GR("MLER", enml, trn_ml, "the saved MLER is not ML errors over ML trials")
  {
    char *p = strstr(fcopy, "% SNR"); int q; double f[5];
    sym_assert(p != NULL, "the results file has no table");
    for (i = 0; i < 2; i++) {
      p = strchr(p, '\n'); sym_assert(p != NULL && p[1] == '%', "the table of the results file lacks a line");
      p += 2;
      for (q = 0; q < 5; q++) { while (*p == ' ') p++; f[q] = atof(p); while (*p && *p != ' ' && *p != '\n') p++; }
      sym_assert(sym_ratio(f[1], c[i].en_bit, (long long)c[i].trn * sk), "the tabulated BER is not bit errors over transmitted bits");
      sym_assert(sym_ratio(f[2], c[i].en_bl, c[i].trn), "the tabulated WER is not block errors over trials");
      sym_assert(sym_ratio(f[3], c[i].er, c[i].trn), "the tabulated ERR is not erasures over trials");
      sym_assert(sym_ratio(f[4], c[i].enml, c[i].trn_ml), "the tabulated ML bound is not ML errors over ML trials");
    }
  }
  // saved again without new trials: nothing changes
  sym_assert(sim_save_res(s) == 0, "saving the results again fails");
  sym_assert(read_file("res.txt") > 0, "the results file is missing or empty");
  GI("tr_num", trn, "the second save changes the number of trials")
  GI("en_bl", en_bl, "the second save changes the number of block errors")
  sim_close(s);
}
// one trial from any counter state that satisfies the invariant: it is kept, and the point goes on while errors lack
#define CAPT 2147483646
static void mode_step(void) {
  int minen = sym_param("minen", 1), base, trn, en, req, e0; sim_bg_inst *s; state_t a;
  sk = 1; sn = 2; force_after = 1; er_on = 0;
  base = base_trn = sym_int("base", 1, CAPT); listed = sym_choice("listed", 2);
  s = (sim_bg_inst *)open_it(minen, 0);
  trn = sym_int("trn", 0, CAPT - 1); req = sym_int("req", 1, 2147483647); en = sym_int("en", 0, minen);
  if (sym_param("en_lo", -1) >= 0) sym_assume(en >= sym_param("en_lo", 0));
  if (sym_param("en_hi", -1) >= 0) sym_assume(en <= sym_param("en_hi", 0));
  if (sym_param("en_is", -1) >= 0) en = sym_param("en_is", 0);
  sym_assume(en <= trn); sym_assume(trn < req); sym_assume(req >= base);
  s->trn_req[0] = req;       // ... and later
  s->pt[0].trn = trn; s->pt[0].en_bl = en;
  clock_jumps = 1;
  sym_assert(sim_run(s) == RC_SIMUL_NOT_COMPLETED, "a simulation with trials left is reported complete");
  sym_assert(point_last == 0, "a point is left before its requested trials are done");
  e0 = oe[0][0];
  get_state(s, &a, 0);
  sym_assert_eq(a.trn, trn + 1, "a trial is not counted once");
  sym_assert_eq(a.en, en + e0, "a block error is not counted once");
  sym_assert(a.req >= base, "the requested number of trials falls below the required minimum");
  if (en + e0 >= minen) { sym_cover("enough"); sym_assert_eq(a.req, req, "the requested number of trials changes although enough errors were observed"); }
  else { sym_cover("short"); sym_assert(a.req > trn + 1, "a point ends with fewer block errors than requested"); }
}
// an operator command in any counter state, at any point or after the last one
static void mode_cmd(void) {
  int np = sym_param("np", 3), cur, i, c, r[50], t[50], e[50]; long long want; sim_bg_inst *s; static sim_init_params SP; void *inst = NULL; FILE *f; char b[20]; state_t st;
  sk = 2; sn = 4; zero_cw = 1; want_ml = 0;
  f = fopen("par.txt", "wb"); fprintf(f, "res_file r\nEbNo_values {"); for (i = 0; i < np; i++) fprintf(f, " %d", i); fprintf(f, " }\n"); fclose(f);
  SP.spf_name = "par.txt"; SP.ret_int = 10; SP.dont_randomize = 1;
  sym_assert(sim_init(&SP, &inst) == 0, "a valid simulation file is rejected");
  s = (sim_bg_inst *)inst;
  cur = s->csnrn = sym_param("cur", -1) >= 0 ? sym_param("cur", 0) : sym_choice("cur", np + 1);
  for (i = 0; i < np; i++) {
    if (i > cur + 1 || i < cur - 1) { r[i] = 5; t[i] = i < cur ? 5 : 0; e[i] = 0; }
    else { sprintf(b, "req%d", i); r[i] = sym_int(b, 1, 2147483647); sprintf(b, "trn%d", i); t[i] = sym_int(b, 0, 2147483647); sprintf(b, "en%d", i); e[i] = sym_int(b, 0, 2147483647); sym_assume(t[i] <= r[i]); sym_assume(e[i] <= t[i]); }
    s->trn_req[i] = r[i]; s->pt[i].trn = t[i]; s->pt[i].en_bl = e[i];
  }
  c = sym_choice("cmd", 3);
  sim_control(s, c == 0 ? SIM_CTRL_CUR_MORE : c == 1 ? SIM_CTRL_CUR_LESS : SIM_CTRL_CUR_NEXT);
  sym_assert(s->csnrn == cur, "a command moves to another SNR point at once");
  for (i = 0; i < np; i++) {
    int now = s->trn_req[i];
    sym_assert_eq(s->pt[i].trn, t[i], "a command changes a trial counter"); sym_assert_eq(s->pt[i].en_bl, e[i], "a command changes an error counter");
    if (i != cur) { sym_assert_eq(now, r[i], "a command changes another point's requested trials"); continue; }
    want = r[i];
    if (c == 0) { want = (long long)r[i] + r[i] / 2; sym_assert(now == want || (want > 2147483647 && now == 2147483647), "more trials are not one half more, within the range of int"); }
    else if (c == 1) { sym_assert(now >= t[i], "fewer trials are requested than already done"); sym_assert(now == r[i] - r[i] / 3 || now == t[i], "fewer trials are not one third fewer"); sym_assert(now >= r[i] - r[i] / 3, "fewer trials are not one third fewer"); }
    else sym_assert_eq(now, t[i], "the next point is requested with more trials to do");
    get_state(s, &st, 0);
    sym_assert_eq(st.req, now, "the status shows other requested trials than the command set"); sym_assert_eq(st.trn, t[i], "the status shows other trials than those done");
  }
  if (cur == np) { sym_cover("after_last"); sym_assert(sim_run(s) == 0, "a completed simulation is reported as not completed"); sym_assert(t_no == 0, "a completed simulation performs more trials"); }
  sim_close(s);
}
void harness(void) {
  switch (sym_param("mode", 1)) { case 1: mode_show(); break; case 2: mode_step(); break; case 3: mode_cmd(); break; }
  sym_cover("end");
}
