// The simulator program (simulators/main_txt.c): its main() with a stand-in simulation whose return
// codes are symbolic, a symbolic clock and symbolic options.
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <time.h>
#include "sym.h"
#define main prog_main
#include "simulators/main_txt.c"
#undef main
#ifdef SYMBOLIC
#define W(f) f
#else
#define W(f) __wrap_##f
#endif
static long long m_now = 1700000000, m_last = 1700000000;      // clock; time of the last save
static int m_inst_obj, m_init_rc, m_save_int = 600, m_ret_int = 10, m_nr, m_max;
static int m_inits, m_runs, m_saves, m_saves_run, m_closes, m_run_rc, m_last_save_rc, m_due, m_over, m_save_errs;
static const char *m_name;
time_t W(time)(time_t *p) { if (p) *p = m_now; return m_now; }
void err_msg(char s[]) { sym_assert(strlen(s) < 20000, "text"); }
void show_msg(char s[]) { sym_assert(strlen(s) < 20000, "text"); }
void msg_flush(void) { }
void msg_printf(char *f, ...) { sym_assert(strlen(f) < 20000, "text"); }
int sim_init(sim_init_params *sp, void **inst) {
  sym_assert(m_inits == 0, "the simulation is initialised twice");
  m_inits++;
  sym_assert(sp->spf_name != NULL && !strcmp(sp->spf_name, m_name), "the simulation is initialised from another file than the one named");
  sym_assert_eq(sp->ret_int, m_ret_int, "the return interval is not the one given");
  sym_assert((sp->dont_randomize != 0) == m_nr, "the -nr option is not honoured");
  if (m_init_rc) return m_init_rc;
  *inst = &m_inst_obj; return 0;
}
#define OPEN(c) do { sym_assert(m_inits == 1 && m_init_rc == 0 && m_closes == 0, "the simulation is used before it is initialised or after it is closed"); sym_assert((c) == (void *)&m_inst_obj, "another simulation instance is used"); } while (0)
static void between(void) { // all that had to happen after the last return has happened
  if (m_runs == 0) { sym_assert(m_saves_run == 0, "results are saved before the simulation has run"); return; }
  sym_assert_eq(m_saves_run, m_due, "results are not saved exactly when more than the save interval has passed since the last save");
}
int sim_run(void *c) {
  int w, dt;
  OPEN(c);
  sym_assert(!m_over, "the simulation is run again after it is over");
  between();
  m_runs++; m_saves_run = 0;
  dt = sym_int("dt", 0, sym_param("dtmax", 4095));
  m_now += dt;
  w = m_runs >= m_max ? 1 + sym_choice("last", 3) : sym_choice("run", 4);
  m_run_rc = w == 0 ? RC_SIMUL_NOT_COMPLETED : w == 1 ? RC_OK : w == 2 ? RC_ERROR : 1;
  if (w) m_over = 1; else m_due = m_now - m_last > m_save_int;
  return m_run_rc;
}
int sim_save_res(void *c) {
  OPEN(c);
  sym_assert(m_runs > 0, "results are saved before the simulation has run");
  m_saves++; m_saves_run++; m_last = m_now;
  m_last_save_rc = sym_choice("save", 2) ? RC_ERROR : RC_OK;
  if (m_last_save_rc) m_save_errs++;
  return m_last_save_rc;
}
void sim_close(void *c) {
  OPEN(c);
  sym_assert(m_over, "the simulation is closed before it is over");
  sym_assert(m_saves_run == 1, "the results are not saved exactly once at the end");
  m_closes++;
}
static void text(char s[], const char *name, int big) {
  static const int len[] = {0, 10, 74, 75, 76, 400}; int n = len[sym_choice(name, 6)];
  if (big && n == 400) n = 9000;
  memset(s, 'x', n); s[n] = 0;
}
static int m_txt;
void sim_state_str(void *c, char s[]) { OPEN(c); if (m_txt == 1) text(s, "state", 0); else strcpy(s, "state"); }
void sim_cur_res_str(void *c, char s[]) { OPEN(c); if (m_txt == 2) text(s, "res", 1); else strcpy(s, "results"); }
void sim_control(void *c, int cmd) { OPEN(c); sym_assert(0, "a command is given that nobody entered"); (void)cmd; }
void harness(void) {
  static char num[6][16], name[] = "some file.spf"; char *av[12]; int ac = 0, i, nopt = sym_param("nopt", 2), rc;
  m_max = sym_param("runs", 3); m_txt = sym_param("text", 0);
  av[ac++] = "simulator";
  m_name = name;
  if (sym_param("noarg", 0)) {
    av[ac] = NULL;
    rc = prog_main(ac, av);
    sym_assert((rc & 255) != 0, "a call without a file name exits with status 0");
    sym_assert(m_inits == 0 && m_runs == 0, "a call without a file name runs a simulation");
    sym_cover("end");
    return;
  }
  av[ac++] = name;
  for (i = 0; i < nopt; i++) {
    int w = sym_choice("opt", 7);
    if (w == 0) { av[ac++] = "-nr"; m_nr = 1; }
    if (w == 1 || w == 2) {
      int v = sym_int("val", 0, sym_param("vmax", 2000));
      sprintf(num[i], "%d", v);
      av[ac++] = w == 1 ? "-si" : "-ri"; av[ac++] = num[i];
      if (w == 1) m_save_int = v; else m_ret_int = v;
    }
    if (w == 3) av[ac++] = "-x";
    if (w == 4) { av[ac++] = "-si"; av[ac++] = "0"; m_save_int = 0; }
    if (w >= 5) { av[ac++] = w == 5 ? "-si" : "-ri"; break; }  // the last one without its value
  }
  av[ac] = NULL;
  m_init_rc = sym_choice("init", 3); if (m_init_rc == 2) m_init_rc = RC_ERROR;
  rc = prog_main(ac, av);
  sym_assert(m_inits == 1, "the simulation is not initialised");
  if (m_init_rc) {
    sym_assert((rc & 255) != 0, "a failed initialisation exits with status 0");
    sym_cover("init_fails");
  }
  else {
    sym_assert(m_over, "the program ends before the simulation is completed");
    sym_assert(m_closes == 1, "the simulation is not closed");
    if (m_run_rc == RC_OK && m_last_save_rc == RC_OK) sym_assert((rc & 255) == 0, "a successful simulation exits with a nonzero status");
    else sym_assert((rc & 255) != 0, "a failed run or a failed final save exits with status 0");
    if (m_saves > 1) sym_cover("saved_between");
    if (m_run_rc != RC_OK) sym_cover("run_fails");
    if (m_save_errs) sym_cover("save_fails");
  }
  sym_observe_int("runs", m_runs); sym_observe_int("saves", m_saves);
  sym_cover("end");
}
