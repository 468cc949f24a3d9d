// Harness interface: symbolic inputs, assumptions, assertions. In the solver run these are
// interpreted by engine/ecsym; in the native replay they are implemented by lib/sym_native.c.
#ifndef SYM_H
#define SYM_H
int sym_bit(const char *name);
int sym_bit_i(const char *name, int i);
int sym_int(const char *name, int lo, int hi);
long long sym_i64(const char *name, long long lo, long long hi);
int sym_choice(const char *name, int n);           // concrete on every path: 0..n-1
unsigned char sym_char(const char *name);
double sym_real(const char *name, double lo, double hi);
double sym_fp(const char *name, double lo, double hi);   // a double, operations on it rounded
double sym_real_i(const char *name, int i, double lo, double hi);
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_assert_eq(long long a, long long b, const char *msg); // as sym_assert(a == b, msg)
void sym_cover(const char *name);
void sym_observe_int(const char *name, long long v);
void sym_observe_dbl(const char *name, double v);
int sym_param(const char *name, int dflt);          // configuration of this run (concrete)
int sym_param_str(const char *name, const char *dflt, char *buf);
int sym_policy(int p);
int sym_heap_live(void);
int sym_fail_alloc(int n); // the n-th allocation from now on fails (0: none); returns whether the fault armed before has struck
int sym_concrete(int v);
int sym_file_exists(const char *name);
int sym_is_symbolic(void);
int sym_or(int a, int b);
int sym_and(int a, int b);
int sym_ratio(double v, long long a, long long b); // b == 0, or v shows a / b (to three decimals)
void sym_debug(const char *name, double v);
#endif
