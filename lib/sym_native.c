// Native implementation of sym.h: replays concrete inputs found by the solver against the real code.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <unistd.h>
#include "sym.h"
#define MAXIN 200000
static struct { char kind; char *name; char *val; int used; } in[MAXIN];
static int nin = 0, ncur = 0;
static struct { char *k, *v; } par[256];
static int npar = 0;
static FILE *obsF;
static char keymsg[8192];
static int live = 0;
void harness(void);

static const char *lookup(const char *name) {
  // inputs are requested in the order they were recorded; later duplicates follow earlier ones
  for (int k = 0; k < nin; k++) { int i = (ncur + k) % nin; if (!in[i].used && !strcmp(in[i].name, name)) { in[i].used = 1; ncur = (i + 1) % nin; return in[i].val; } }
  return NULL;
}
static long long geti(const char *name, long long lo, long long hi) { const char *v = lookup(name); long long x = v ? strtoll(v, NULL, 10) : lo; if (x < lo) x = lo; if (x > hi) x = hi; return x; }
int sym_bit(const char *name) { return (int)geti(name, 0, 1); }
int sym_bit_i(const char *name, int i) { char b[300]; snprintf(b, sizeof b, "%s[%d]", name, i); return sym_bit(b); }
int sym_int(const char *name, int lo, int hi) { return (int)geti(name, lo, hi); }
long long sym_i64(const char *name, long long lo, long long hi) { return geti(name, lo, hi); }
int sym_choice(const char *name, int n) { return (int)geti(name, 0, n - 1); }
unsigned char sym_char(const char *name) { return (unsigned char)geti(name, 0, 255); }
double sym_real(const char *name, double lo, double hi) { const char *v = lookup(name); double d = v ? strtod(v, NULL) : (lo + hi) / 2; return d; }
double sym_fp(const char *name, double lo, double hi) { return sym_real(name, lo, hi); }
double sym_real_i(const char *name, int i, double lo, double hi) { char b[300]; snprintf(b, sizeof b, "%s[%d]", name, i); return sym_real(b, lo, hi); }
void sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); _exit(77); } }
void sym_assert(int c, const char *msg) { if (!c) { fprintf(stderr, "REPLAY-VIOLATION %s\n", msg); fflush(NULL); _exit(99); } }
void sym_assert_eq(long long a, long long b, const char *msg) { sym_assert(a == b, msg); }
void sym_cover(const char *name) { (void)name; }
void sym_observe_int(const char *name, long long v) { if (obsF) fprintf(obsF, "o %s %lld\n", name, v); }
void sym_observe_dbl(const char *name, double v) { if (obsF) fprintf(obsF, "o %s %.17g\n", name, v); }
int sym_param(const char *name, int d) { for (int i = 0; i < npar; i++) if (!strcmp(par[i].k, name)) return atoi(par[i].v); return d; }
int sym_param_str(const char *name, const char *d, char *buf) { for (int i = 0; i < npar; i++) if (!strcmp(par[i].k, name)) { strcpy(buf, par[i].v); return (int)strlen(buf); } strcpy(buf, d); return (int)strlen(buf); }
int sym_policy(int p) { (void)p; return 0; }
int sym_heap_live(void) { return live; }
int sym_concrete(int v) { return v; }
int sym_file_exists(const char *name) { FILE *f = fopen(name, "r"); if (f) { fclose(f); live += 0; return 1; } return 0; }
int sym_is_symbolic(void) { return 0; }
int sym_or(int a, int b) { return (a != 0) | (b != 0); }
int sym_ratio(double v, long long a, long long b) { double d = v * (double)b - (double)a, t = 6e-4 * (a < 0 ? -(double)a : (double)a) + 1e-9; return b == 0 || (d <= t && d >= -t); }
int sym_and(int a, int b) { return (a != 0) & (b != 0); }
void sym_debug(const char *name, double v) { fprintf(stderr, "DEBUG %s %g\n", name, v); }

// allocation counting (the objects under replay are linked with --wrap)
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
static int fail_in = 0, fail_fired = 0;
int sym_fail_alloc(int n) { int f = fail_fired; fail_fired = 0; fail_in = n; return f; }
static int alloc_fails(void) { if (fail_in > 0 && --fail_in == 0) { fail_fired = 1; return 1; } return 0; }
void *__wrap_malloc(size_t n) { if (alloc_fails()) return NULL; void *p = __real_malloc(n); if (p) live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { if (alloc_fails()) return NULL; void *p = __real_calloc(a, b); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (alloc_fails()) return NULL; void *p = __real_realloc(q, n); if (!q && p) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
FILE *__wrap_fopen(const char *n, const char *m) { FILE *f = __real_fopen(n, m); if (f) live++; return f; }
int __wrap_fclose(FILE *f) { live--; return __real_fclose(f); }

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "-D") && i + 1 < argc) { char *s = strdup(argv[++i]), *e = strchr(s, '='); if (e) { *e = 0; par[npar].k = s; par[npar].v = e + 1; } else { par[npar].k = s; par[npar].v = "1"; } npar++; }
    else if (!strcmp(argv[i], "--obs") && i + 1 < argc) obsF = __real_fopen(argv[++i], "w");
    else {
      FILE *f = __real_fopen(argv[i], "r"); static char ln[8192]; char k[8]; static char n[4096], v[4096];
      if (!f) { fprintf(stderr, "no input file\n"); return 76; }
      while (fgets(ln, sizeof ln, f)) { if (ln[0] == '#' || ln[0] == 'o') continue; if (sscanf(ln, "%7s %4095s %4095s", k, n, v) == 3 && nin < MAXIN) { in[nin].kind = k[0]; in[nin].name = strdup(n); in[nin].val = strdup(v); nin++; } }
      __real_fclose(f);
    }
  }
  (void)keymsg;
  harness();
  if (obsF) __real_fclose(obsF);
  fflush(NULL);
  return 0;
}
