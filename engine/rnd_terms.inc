// ---------------------------------------------------------------- rounded reals (DN_RND)
// A double with a symbolic value: a term over inputs in which every operation is the exact real operation followed by rounding.
// Signs are kept outside the terms (rounding is odd), equal terms are shared. NaN and infinities never occur in a term: where an
// operation could produce one, the path is split and the exceptional result is a constant.
enum { RN_IN, RN_CONST, RN_ADD, RN_SUB, RN_MUL, RN_DIV, RN_TANH, RN_LOG, RN_LOG1P, RN_EXP, RN_EXPM1, RN_ATANH };
struct RNode { int op; uint32_t a, b; double c, lo, hi; uint32_t in; };
static std::vector<RNode> rns(1);
static std::unordered_multimap<uint64_t, uint32_t> rnIndex;
static uint32_t rnMk(int op, uint32_t a, uint32_t b, double c, double lo, double hi, uint32_t in = 0) {
  uint64_t cb; memcpy(&cb, &c, 8);
  uint64_t h = mix(mix(mix(mix((uint64_t)op, a), b), cb), in);
  auto r = rnIndex.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { const RNode &n = rns[it->second]; if (n.op == op && n.a == a && n.b == b && !memcmp(&n.c, &c, 8) && n.in == in) return it->second; }
  rns.push_back({op, a, b, c, lo, hi, in}); rnIndex.emplace(h, (uint32_t)rns.size() - 1);
  return (uint32_t)rns.size() - 1;
}
static Val rnV(uint32_t n, int neg) { DNode q; q.kind = DN_RND; q.a = n; q.s = (uint8_t)neg; return mkD(q); }
static bool isRnd(const Val &v) { return v.k == V_SDBL && dn(v).kind == DN_RND; }
struct RRef { uint32_t n; int s; };
static bool rnRef(const Val &v, RRef &r) {
  if (v.k == V_DBL) { double d = dblOf(v); if (!std::isfinite(d)) return false; r.s = std::signbit(d); d = std::fabs(d); r.n = rnMk(RN_CONST, 0, 0, d, d, d); return true; }
  if (!isRnd(v)) throw Unsupported{"mixed floating-point term"};
  r.n = dn(v).a; r.s = dn(v).s; return true;
}
static void rnBd(RRef r, double &lo, double &hi) { const RNode &n = rns[r.n]; if (r.s) { lo = -n.hi; hi = -n.lo; } else { lo = n.lo; hi = n.hi; } }
static double dnw(double x) { return std::nextafter(std::nextafter(x, -INFINITY), -INFINITY); }
static double upw(double x) { return std::nextafter(std::nextafter(x, INFINITY), INFINITY); }
// atoms: (sa) a > k * (sb) b
struct RRAtom { RRef a, b; double k; };
static std::vector<RRAtom> rratoms;
static std::unordered_multimap<uint64_t, uint32_t> rrIndex;
static BId rrGt(RRef a, RRef b, double k = 1) {
  double al, ah, bl, bh; rnBd(a, al, ah); rnBd(b, bl, bh); bl *= k; bh *= k;
  if (al > bh) return BTRUE;
  if (ah <= bl) return BFALSE;
  if (k == 1 && a.n == b.n && a.s == b.s) return BFALSE;
  uint64_t kb; memcpy(&kb, &k, 8);
  uint64_t h = mix(mix(mix(a.n * 2 + a.s, b.n * 2 + b.s), kb), 5);
  auto r = rrIndex.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { const RRAtom &x = rratoms[atoms[it->second].a]; if (x.a.n == a.n && x.a.s == a.s && x.b.n == b.n && x.b.s == b.s && x.k == k) return batom(it->second); }
  rratoms.push_back({a, b, k});
  uint32_t id = newAtom(AT_RR, (uint32_t)rratoms.size() - 1, 0);
  rrIndex.insert({h, id});
  return batom(id);
}
static BId rrGtV(const Val &a, const Val &b, bool strict) {
  RRef x, y;
  if (a.k == V_DBL && std::isinf(dblOf(a))) return dblOf(a) > 0 ? BTRUE : BFALSE;
  if (b.k == V_DBL && std::isinf(dblOf(b))) return dblOf(b) > 0 ? BFALSE : BTRUE;
  rnRef(a, x); rnRef(b, y);
  return strict ? rrGt(x, y) : bnot(rrGt(y, x));
}
static BId rrEqV(const Val &a, const Val &b) {
  if ((a.k == V_DBL && std::isinf(dblOf(a))) || (b.k == V_DBL && std::isinf(dblOf(b)))) return BFALSE;
  RRef x, y; rnRef(a, x); rnRef(b, y);
  return band(bnot(rrGt(x, y)), bnot(rrGt(y, x)));
}
static const double RN_BIG = 1e300;
static RRef rnZero() { return {rnMk(RN_CONST, 0, 0, 0.0, 0.0, 0.0), 0}; }
static void rnDynOne(RRef r, double &lo, double &hi);
static int rnSign(RRef r) { // decides the sign by splitting: -1, 0, 1
  double lo, hi; rnDynOne(r, lo, hi);
  if (lo > 0) return 1;
  if (hi < 0) return -1;
  if (decideHook(rrGt(r, rnZero()))) return 1;
  return decideHook(rrGt(rnZero(), r)) ? -1 : 0;
}
// bounds of a node that follow from comparisons with constants on the path (rounding is monotone, so plain double arithmetic bounds it)
static void rnDyn(const std::vector<uint32_t> &nodes, const std::vector<BId> &lits, std::map<uint32_t, std::pair<double, double>> &bd);
static void rnDynOne(RRef r, double &lo, double &hi);
static bool rnMay(BId c) { return c != BFALSE && satWith(c) != 0; }
static Val rnInfBin(int op, const Val &a, const Val &b) { // one operand is an infinity or NaN constant
  double ca = a.k == V_DBL ? dblOf(a) : 0, cb = b.k == V_DBL ? dblOf(b) : 0;
  if ((a.k == V_DBL && std::isnan(ca)) || (b.k == V_DBL && std::isnan(cb))) return mkDbl(NAN);
  bool ai = a.k == V_DBL && std::isinf(ca);
  if (op == F_ADD) return mkDbl(ai ? ca : cb);
  if (op == F_SUB) return mkDbl(ai ? ca : -cb);
  RRef r; rnRef(ai ? b : a, r);
  if (op == F_DIV && !ai) return mkDbl(0.0);
  int s = rnSign(r);
  if (op == F_MUL) return mkDbl(s == 0 ? NAN : (ai ? ca : cb) * s);
  return mkDbl(s < 0 ? -ca : ca);
}
static Val rnBin(int op, const Val &a, const Val &b) {
  if ((a.k == V_DBL && !std::isfinite(dblOf(a))) || (b.k == V_DBL && !std::isfinite(dblOf(b)))) return rnInfBin(op, a, b);
  RRef x, y; rnRef(a, x); rnRef(b, y);
  double cx = rns[x.n].op == RN_CONST ? (x.s ? -rns[x.n].c : rns[x.n].c) : NAN, cy = rns[y.n].op == RN_CONST ? (y.s ? -rns[y.n].c : rns[y.n].c) : NAN;
  auto after = [](uint32_t p, uint32_t q) { bool cp = rns[p].op == RN_CONST, cq = rns[q].op == RN_CONST; return cp != cq ? cq : p > q; }; // constants first
  if (op == F_SUB) { y.s ^= 1; op = F_ADD; cy = -cy; }
  double xl, xh, yl, yh; rnBd(x, xl, xh); rnBd(y, yl, yh);
  if (op == F_ADD) {
    if (cx == 0) return rnV(y.n, y.s);
    if (cy == 0) return a;
    if (x.n == y.n && x.s != y.s) return mkDbl(0.0);
    if (after(x.n, y.n)) { std::swap(x, y); }
    double lo = dnw(xl + yl), hi = upw(xh + yh);
    if (!(std::fmax(std::fabs(lo), std::fabs(hi)) < 1e307)) { // bounded by what the path knows
      double a1, a2, b1, b2; rnDynOne(x, a1, a2); rnDynOne(y, b1, b2); double l = a1 + b1, h = a2 + b2;
      if (!(std::fmax(std::fabs(l), std::fabs(h)) < 1e307)) throw Unsupported{"floating-point sum may overflow"};
      lo = -INFINITY; hi = INFINITY;
    }
    if (x.s == y.s) return rnV(rnMk(RN_ADD, x.n, y.n, 0, x.s ? -hi : lo, x.s ? -lo : hi), x.s);
    return rnV(rnMk(RN_SUB, x.n, y.n, 0, x.s ? -hi : lo, x.s ? -lo : hi), x.s); // x.n - y.n, sign of x
  }
  int s = x.s ^ y.s; x.s = y.s = 0; rnBd(x, xl, xh); rnBd(y, yl, yh);
  auto four = [](double a, double b, double c, double d, double &lo, double &hi) { lo = dnw(std::min(std::min(a, b), std::min(c, d))); hi = upw(std::max(std::max(a, b), std::max(c, d))); };
  double lo, hi;
  if (op == F_MUL) {
    if (std::fabs(cx) == 1) return rnV(y.n, s);
    if (std::fabs(cy) == 1) return rnV(x.n, s);
    if (cx == 0 || cy == 0) return mkDbl(0.0);
    if (after(x.n, y.n)) std::swap(x, y);
    four(xl * yl, xl * yh, xh * yl, xh * yh, lo, hi);
    if (x.n == y.n) lo = std::max(lo, 0.0);
    if (xl >= 0 && yl >= 0) lo = std::max(lo, 0.0);
    if (!(std::fmax(std::fabs(lo), std::fabs(hi)) < 1e307)) {
      double a1, a2, b1, b2, l, h; rnDynOne(x, a1, a2); rnDynOne(y, b1, b2); four(a1 * b1, a1 * b2, a2 * b1, a2 * b2, l, h);
      if (!(std::fmax(std::fabs(l), std::fabs(h)) < 1e307)) throw Unsupported{"floating-point product may overflow"};
      lo = x.n == y.n || (xl >= 0 && yl >= 0) ? 0 : -INFINITY; hi = INFINITY;
    }
    return rnV(rnMk(RN_MUL, x.n, y.n, 0, lo, hi), s);
  }
  if (op == F_DIV) {
    if (std::fabs(cy) == 1) return rnV(x.n, s);
    if (cx == 0 && (yl > 0 || yh < 0)) return mkDbl(0.0);
    rnDynOne(x, xl, xh); rnDynOne(y, yl, yh);
    if (yl <= 0 && yh >= 0 && rnSign(y) == 0) { int t = rnSign(x); return mkDbl(t == 0 ? NAN : ((t < 0) ^ s) ? -INFINITY : INFINITY); }
    if (yl > 0 || yh < 0) four(xl / yl, xl / yh, xh / yl, xh / yh, lo, hi);
    else { lo = -INFINITY; hi = INFINITY; }
    if (!(std::fmax(std::fabs(lo), std::fabs(hi)) < 1e307)) { // bounded by what the path knows
      RRef nx = x, ny = y; nx.s ^= 1; ny.s ^= 1;
      if (rnMay(band(rrGt(x, y, RN_BIG), rrGt(x, ny, RN_BIG))) || rnMay(band(rrGt(nx, y, RN_BIG), rrGt(nx, ny, RN_BIG)))) throw Unsupported{"floating-point quotient may overflow"};
    }
    lo = -INFINITY; hi = INFINITY;
    if (rns[y.n].lo > 0 || rns[y.n].hi < 0) { double al = rns[x.n].lo, ah = rns[x.n].hi, bl = rns[y.n].lo, bh = rns[y.n].hi; four(al / bl, al / bh, ah / bl, ah / bh, lo, hi); }
    return rnV(rnMk(RN_DIV, x.n, y.n, 0, lo, hi), s);
  }
  throw Unsupported{"operation on rounded reals"};
}
static Val rnUn(int op, const Val &a) {
  const DNode q = dn(a);
  RRef x{q.a, q.s}; double xl, xh; rnBd(x, xl, xh);
  auto cmpC = [&](double c) { RRef k; rnRef(mkDbl(c), k); return k; };
  switch (op) {
    case U_NEG: return rnV(q.a, !q.s);
    case U_TANH: { const RNode &n = rns[q.a]; double lo = dnw(std::tanh(n.lo)), hi = upw(std::tanh(n.hi)); if (n.lo >= 0) lo = std::max(lo, 0.0); return rnV(rnMk(RN_TANH, q.a, 0, 0, std::max(lo, -1.0), std::min(hi, 1.0)), q.s); }
    case U_ATANH: case U_LOG: case U_LOG1P: {
      double edge = op == U_LOG ? 0 : -1;
      if (xl <= edge) {
        if (decideHook(bnot(rrGt(x, cmpC(edge))))) return mkDbl(op != U_ATANH && decideHook(bnot(rrGt(cmpC(edge), x))) ? -INFINITY : NAN);
      }
      if (op == U_ATANH && xh >= 1 && decideHook(bnot(rrGt(cmpC(1), x)))) return mkDbl(INFINITY);
      uint32_t arg = q.a;
      if (q.s && op == U_LOG) arg = rnMk(RN_SUB, rnZero().n, q.a, 0, xl, xh); // exact: 0 - x
      if (op == U_ATANH) return rnV(rnMk(RN_ATANH, q.a, 0, 0, -20, 20), q.s);
      if (q.s && op == U_LOG1P) arg = rnMk(RN_SUB, rnZero().n, q.a, 0, xl, xh);
      double lo = -800, hi = 800;
      if (xl > edge) lo = dnw(op == U_LOG ? std::log(xl) : std::log1p(xl)) - 1e-9;
      hi = std::min(upw(op == U_LOG ? std::log(xh) : std::log1p(xh)) + 1e-9, 710.0);
      return rnV(rnMk(op == U_LOG ? RN_LOG : RN_LOG1P, arg, 0, 0, lo, hi), 0);
    }
    case U_EXP: case U_EXPM1: {
      if (xh > 690 && decideHook(rrGt(x, cmpC(690)))) {
        if (!decideHook(rrGt(x, cmpC(709.8)))) throw Unsupported{"exponential near the overflow threshold"};
        return mkDbl(INFINITY);
      }
      uint32_t arg = q.a;
      if (q.s) arg = rnMk(RN_SUB, rnZero().n, q.a, 0, xl, xh);
      if (op == U_EXPM1) return rnV(rnMk(RN_EXPM1, arg, 0, 0, -1, upw(std::expm1(std::min(xh, 690.0))) * (1 + 1e-9)), 0);
      return rnV(rnMk(RN_EXP, arg, 0, 0, 0, upw(std::exp(std::min(xh, 690.0))) * (1 + 1e-9)), 0);
    }
  }
  throw Unsupported{"function " + std::to_string(op) + " of a rounded real"};
}
Val rnInput(double lo, double hi, int &idx) {
  idx = nReals++; g_rnd = true;
  ratoms.push_back({R_IN, lo, hi, (uint32_t)idx});
  return rnV(rnMk(RN_IN, 0, 0, 0, lo, hi, (uint32_t)ratoms.size() - 1), 0);
}
