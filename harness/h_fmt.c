// The reliability format (formats.h): conversion of channel samples, combining rules, path-metric terms, for every double.
#include <stdlib.h>
#include <math.h>
#include <float.h>
#include "sym.h"
#include "common/std_defs.h"
#include "common/typedefs.h"
#include "formats/formats.h"
enum { M_RANGE = 1, M_MONO, M_XOR, M_ADD, M_METRIC, M_LLR, M_ADDODD, M_CHAIN };
static double fmt(double y) { double v[1], e[1]; v[0] = y; VY_TO_FORMAT(v, e, 1); return e[0]; }
static double xore(double a, double b) { return XOR_EST(a, b); }
static double adde(double a, double b) { double r; ADD_EST(a, b, r); return r; }
static int sgn(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static double val(const char *n, double lo, double hi) {
  double y = sym_fp(n, lo, hi); return y;
}
static void inside(double e, const char *msg) { sym_assert(e == e && e > -1.0 && e < 1.0, msg); }
// a reliability the decoders can hold: the clipped range of the format, taken from the format itself
static double top(void) { double e = fmt(-1e6); return e; }
static double rel(const char *n) { double t = top(), e = sym_fp(n, -1, 1); sym_assume(e <= t && e >= -t); return e; }
static double lo10(const char *p) { return sym_param(p, 0) / 100.0; }
void harness(void) {
  int mode = sym_param("mode", 1);
  if (mode == M_RANGE) {
    static const double sp[] = {0.0, DBL_MAX, -DBL_MAX, 1e300, -1e300, 709.0, -709.0, 710.0, -710.0, 1420.0, -1420.0, DBL_MIN, -DBL_MIN};
    int c = sym_choice("special", 15); double y, e, l0, l1, l;
    if (c < 13) y = sp[c];
    else if (c == 13) y = val("y", 1e-300, 1e300);
    else y = -val("y", 1e-300, 1e300);
    e = fmt(y);
    inside(e, "the reliability of a finite sample is not a number strictly inside (-1,1)");
    sym_assert(sgn(e) == -sgn(y), "the reliability's sign is not opposite to the sample's");
    sym_assert(CHECK_EST0(e) == (y < 0), "the hard decision does not follow the sample");
    sym_observe_dbl("e", e);
    l0 = EST_TO_LNP0(e); l1 = EST_TO_LNP1(e); l = EST2LLR(e);
    sym_assert(l0 == l0 && l1 == l1 && l == l && l0 > -100 && l0 < 1 && l1 > -100 && l1 < 1 && l > -100 && l < 100, "a path-metric term of a finite sample is not finite");
    sym_assert(!(e >= 0) || (l0 >= 0 && l1 <= 0), "a log-probability term has the wrong sign");
    sym_assert(!(e <= 0) || (l0 <= 0 && l1 >= 0), "a log-probability term has the wrong sign");
    sym_assert(!(y > 1e-6) || l < 0, "the log-likelihood ratio has the wrong sign");
    sym_assert(!(y < -1e-6) || l > 0, "the log-likelihood ratio has the wrong sign");
    sym_cover("end");
  } else if (mode == M_MONO) {
    double y1 = val("y1", -1e300, 1e300), y2 = val("y2", -1e300, 1e300), e1, e2;
    sym_assume(y1 < y2);
    e1 = fmt(y1); e2 = fmt(y2);
    sym_assert(e1 >= e2, "the reliability does not grow with the sample's magnitude");
    if (y1 >= -16 && y2 <= 16 && y2 >= y1 + 1) sym_assert(e1 > e2, "distinct moderate samples have equal reliabilities");
    sym_assert(fmt(-y1) == -e1, "the reliability is not odd in the sample");
    sym_assert(STRONGER_EST0(e1, e2) || e1 == e2, "the comparison of reliabilities does not follow the samples");
    sym_cover("end");
  } else if (mode == M_XOR) {
    double a = rel("a"), b = rel("b"), r = xore(a, b);
    inside(r, "the product rule leaves (-1,1)");
    sym_assert(fabs(r) <= fabs(a) && fabs(r) <= fabs(b), "the product rule yields more than its weaker operand");
    if (fabs(a) > 1e-100 && fabs(b) > 1e-100) sym_assert(sgn(r) == sgn(a) * sgn(b), "the product rule has the wrong sign");
    sym_assert(fabs(r - a * b) <= 1e-12, "the product rule is not the product");
    sym_assert(xore(-a, b) == -r && xore(a, -b) == -r, "the product rule is not odd");
    sym_assert(xore(b, a) == r, "the product rule is not symmetric");
    sym_assert(XOR_YLDEC(a, YLDEC0) == a && XOR_YLDEC(a, YLDEC1) == -a && EST_XOR_YLDEC(a, YLDEC0) == a && EST_XOR_YLDEC(a, YLDEC1) == INV_EST(a), "a decided symbol does not keep or invert the reliability");
    sym_cover("end");
  } else if (mode == M_ADD) {
    double a = rel("a"), b = rel("b"), r = adde(a, b), t = top(), p, s;
    inside(r, "the sum rule leaves (-1,1) or is not a number");
    s = a + b; p = 1.0 + a * b;
    sym_assert(fabs(r * p - s) <= 3e-8, "the sum rule is not (a+b)/(1+ab) up to clipping");
    if (s > 1e-200) sym_assert(r > 0, "the sum rule has the wrong sign");
    if (s < -1e-200) sym_assert(r < 0, "the sum rule has the wrong sign");
    sym_assert(r <= t && r >= -t, "the sum rule exceeds the clipped range");
    sym_cover("end");
  } else if (mode == M_ADDODD) {
    double a = rel("a"), b = rel("b"), r = adde(a, b);
    sym_assert(adde(-a, -b) == -r, "the sum rule is not odd");
    sym_assert(adde(b, a) == r, "the sum rule is not symmetric");
    sym_assert(fabs(adde(a, -a)) <= 0, "opposite reliabilities do not cancel");
    sym_assert(fabs(adde(a, 0.0) - a) <= 1e-15, "a zero reliability changes the other one");
    sym_cover("end");
  } else if (mode == M_METRIC) { // terms of a path metric, e of either sign
    double e = rel("e"), l0 = EST_TO_LNP0(e), l1 = EST_TO_LNP1(e), l = EST2LLR(e), d = EST0_ADD_LNP1_SUB_LNP0(e);
    sym_assert(fabs(l0 - l1 - l) <= 2e-7, "the log-likelihood ratio is not the difference of the log-probabilities");
    sym_assert(fabs(l + d) <= 2e-7, "the metric difference of a flipped symbol is not minus the log-likelihood ratio");
    sym_assert(l0 <= e + 1e-12 && l0 * (1.0 + e) >= e - 1e-12, "ln(1+e) is off");
    sym_assert(l1 <= -e + 1e-12 && l1 * (1.0 - e) >= -e - 1e-12, "ln(1-e) is off");
    sym_cover("end");
  } else if (mode == M_LLR) { // LLR(fmt(y)) = -y
    double y = val("y", lo10("lo"), lo10("hi")), e, l;
    if (sym_choice("neg", 2)) y = -y;
    e = fmt(y); l = EST2LLR(e);
    sym_assert(fabs(l + y) <= 2e-6, "the log-likelihood ratio of a sample is not the sample");
    sym_assert(fabs(EST_TO_LNP0(e) - EST_TO_LNP1(e) + y) <= 2e-6, "the difference of the log-probabilities is not the sample");
    sym_observe_dbl("l", l);
    sym_cover("end");
  } else if (mode == M_CHAIN) { // what repeated combining makes of three samples
    double a = fmt(val("a", -1e300, 1e300)), b = fmt(val("b", -1e300, 1e300)), c = fmt(val("c", -1e300, 1e300)), v = xore(a, b), u = adde(v, c), w;
    inside(u, "combined reliabilities leave (-1,1)");
    w = xore(u, xore(c, INV_EST(a)));
    inside(w, "combined reliabilities leave (-1,1)");
    w = EST_TO_LNP0(w);
    sym_assert(w == w && w > -100 && w < 1, "a path-metric term of combined reliabilities is not finite");
    sym_cover("end");
  }
}
