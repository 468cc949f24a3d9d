// Parameter file preparsing (common/spf_par.c) against a reference: files are templates in which '@'
// stands for a symbolic character; '~' is LF, '^' CR, '`' TAB, '_' blank.
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "sym.h"
#include "common/spf_par.h"
static int n_err;
void err_msg(char s[]) { (void)s; n_err++; }
void show_msg(char s[]) { (void)s; }
void msg_flush(void) { }
static int MAXF;
static char *text[4], *want; static int tlen[4], present[4];
static const char *fname[4] = {"main.txt", "f1", "f2", "f3"};
static char alpha[64]; static int nsymc;
static char symc(void) { // any character of the alphabet: the special ones one by one, 'x' is any other byte, 'a' any of a, c, i, k
  static const char special[] = " \n%{}\t,\r";
  char b[20], c; int i, k = nsymc++, n = (int)strlen(alpha);
  sprintf(b, "k%d", k);
  i = sym_choice(b, n);
  if (alpha[i] == 'a') { sprintf(b, "c%d", k); return (char)('a' + 2 * sym_bit_i(b, 0) + 8 * sym_bit_i(b, 1)); }
  if (alpha[i] != 'x') return alpha[i];
  sprintf(b, "c%d", k);
  c = (char)sym_char(b);
  sym_assume(c != 0);
  for (i = 0; special[i]; i++) sym_assume(c != special[i]);
  return c;
}
static char plain(char c) { return c == '~' ? '\n' : c == '^' ? '\r' : c == '`' ? '\t' : c == '_' ? ' ' : c; }
static void load(int f) {
  char key[10], tpl[2000]; int i, n = 0, rep; 
  sprintf(key, "t%d", f);
  sym_param_str(key, "!", tpl);
  present[f] = tpl[0] != '!';
  for (i = 0; present[f] && tpl[i]; i++) {
    if (tpl[i] == '$') { // a long word of as many characters as the number that follows
      char w = tpl[++i]; rep = atoi(tpl + ++i); while (tpl[i] >= '0' && tpl[i] <= '9') i++; i--;
      while (rep-- > 0 && n < MAXF) text[f][n++] = w;
    }
    else text[f][n++] = tpl[i] == '@' ? symc() : plain(tpl[i]);
  }
  tlen[f] = n;
  if (present[f]) { FILE *h = fopen(fname[f], "wb"); fwrite(text[f], 1, n, h); fclose(h); }
}
// ---- reference
static int wlen, fail, depth, inc_next;
static void put(const char *s, int n) { int i; for (i = 0; i < n; i++) want[wlen++] = s[i]; want[wlen++] = TOKEN_SEP_CHAR; }
static int sep(char c) { return c == ' ' || c == ',' || c == '\t' || c == '\n' || c == '\r'; }
static int is(const char *w, int n, const char *s) { int i, l = (int)strlen(s); if (n != l) return 0; for (i = 0; i < n; i++) if (w[i] != s[i]) return 0; return 1; }
static void ref(int f) {
  int i = 0, n, L = tlen[f]; const char *s = text[f]; int inc = 0;
  if (++depth > 20) { fail = 1; return; }
  if (L == 0) fail = 1;
  while (i < L && !fail) {
    if (s[i] == COMMENT_CHAR) { while (i < L && s[i] != '\n') i++; continue; }
    if (sep(s[i])) { i++; continue; }
    for (n = 0; i + n < L && s[i + n] != COMMENT_CHAR && !sep(s[i + n]); n++) ;
    // a comment within a line ends the word: the line end follows it
    if (inc) {
      int g; inc = 0;
      for (g = 0; g < 4; g++) if (present[g] && is(s + i, n, fname[g])) break;
      if (g == 4) fail = 1; else ref(g);
    }
    else if (is(s + i, n, "include")) inc = 1;
    else {
      int b = i, m = n, e = 0;
      if (s[b] == GROUP_CHAR_BEGIN) { put("{", 1); b++; m--; }
      if (m > 0 && s[b + m - 1] == GROUP_CHAR_END) { e = 1; m--; }
      if (m > 0) put(s + b, m);
      if (e) put("}", 1);
    }
    i += n;
  }
  if (inc) fail = 1;
  depth--;
}
void harness(void) {
  char *out = (char *)&n_err, *was = out; int f, rc, i, n, tr = sym_param("try", 0);
  sym_param_str("alpha", "x_~%{}`,^", alpha);
  for (i = 0; alpha[i]; i++) alpha[i] = plain(alpha[i]);
  MAXF = sym_param("cap", 300);
  for (f = 0; f < 4; f++) text[f] = (char *)malloc(MAXF);
  want = (char *)malloc(MAXF);
  for (f = 0; f < 4; f++) load(f);
  rc = tr ? spf_tryread_preparse("main.txt", &out) : spf_read_preparse("main.txt", &out);
  if (present[0]) ref(0); else fail = 1;
  if (sym_param("huge", 0)) { // near the size limit: refused, or parsed exactly
    int cap = sym_param("huge", 0);
    if (cap == 2) sym_assert(rc != 0, "a parameter file that is too large is not refused");
    if (rc != 0) fail = 1;
    else sym_cover("read");
  }
  if (fail) {
    sym_assert(rc != 0, "a file that is missing or empty is not reported");
    sym_assert(out == was, "a failed preparse yields a result");
    if (!(tr && !present[0])) sym_assert(n_err > 0, "an error is not reported to the user");
    sym_cover("error");
  }
  else {
    sym_assert(rc == 0, "a readable file is rejected");
    sym_assert(n_err == 0, "an error is reported for a readable file");
    n = (int)strlen(out);
    sym_assert(n == wlen, "the preparsed text has a wrong length");
    for (i = 0; i < n && i < wlen; i++) sym_assert_eq(out[i], want[i], "the preparsed text is not the file's tokens in order");
    if (n < 200) for (i = 0; i < n; i++) { char b[20]; sprintf(b, "o%d", i); sym_observe_int(b, out[i]); }
    free(out);
    sym_cover("end");
  }
  sym_observe_int("rc", rc);
  for (f = 0; f < 4; f++) free(text[f]);
  free(want);
  sym_assert(sym_heap_live() == 0, "memory is left allocated");
}
