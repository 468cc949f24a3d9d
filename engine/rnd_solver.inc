// ---------------------------------------------------------------- queries over rounded reals
// One fresh nonlinear-real query per decision. Each operation is the real one with a relative error of 2^-53 (exact monotone
// rounding, landmarks at constants); tanh/log/exp are within 2 ulp of the true function, monotone, and bounded by tangents and
// secants that are added where the solver's model departs from the true value.
static double zNum(z3::model &zm, const z3::expr &e, bool *ok = nullptr) {
  z3::expr v = zm.eval(e, true);
  if (ok) *ok = true;
  Z3_ast a = v;
  if (Z3_is_algebraic_number(*Z, a)) v = z3::expr(*Z, Z3_get_algebraic_number_lower(*Z, a, 40));
  if (!v.is_numeral()) { if (ok) *ok = false; return 0; }
  std::string s = Z3_get_numeral_string(*Z, v);
  size_t k = s.find('/');
  if (k == std::string::npos) return (double)strtold(s.c_str(), nullptr);
  std::string n = s.substr(0, k), d = s.substr(k + 1);
  // keep within the range of long double
  auto big = [](const std::string &t, int &ex) { ex = 0; std::string u = t; if (u.size() > 40) { ex = (int)u.size() - 40; u.resize(40); } return strtold(u.c_str(), nullptr); };
  int en, ed; long double x = big(n, en), y = big(d, ed);
  return (double)(x / y * powl(10.0L, en - ed));
}
static double rnTrue(int op, double t) {
  switch (op) { case RN_TANH: return std::tanh(t); case RN_LOG: return std::log(t); case RN_LOG1P: return std::log1p(t); case RN_EXP: return std::exp(t); case RN_EXPM1: return std::expm1(t); default: return std::atanh(t); }
}
static double rnD1(int op, double t) { switch (op) { case RN_TANH: { double c = std::cosh(std::min(std::fabs(t), 300.0)); return 1 / c / c; } case RN_LOG: return 1 / t; case RN_LOG1P: return 1 / (1 + t); case RN_EXP: case RN_EXPM1: return std::exp(t); default: return 1 / (1 - t * t); } }
static double rnD2(int op, double t) { switch (op) { case RN_TANH: return 2 * std::fabs(std::tanh(t)) * rnD1(op, t); case RN_LOG: return 1 / t / t; case RN_LOG1P: return 1 / (1 + t) / (1 + t); case RN_EXP: case RN_EXPM1: return std::exp(t); default: return 2 * std::fabs(t) / (1 - t * t) / (1 - t * t); } }
static bool rnOdd(int op) { return op == RN_TANH || op == RN_ATANH; }
static bool rnConcave(int op) { return op == RN_TANH || op == RN_LOG || op == RN_LOG1P; }
static bool rnFun(int op) { return op >= RN_TANH; }
struct RLemma { uint32_t node; bool tangent; double p, q; };
static std::vector<RLemma> rnLemmas; // valid for every value: kept for later queries of the process
static double evalRn(const Model &m, uint32_t n);
static double evalRef(const Model &m, RRef r) { double v = evalRn(m, r.n); return r.s ? -v : v; }
static double evalRn(const Model &m, uint32_t i) {
  const RNode n = rns[i];
  switch (n.op) {
    case RN_IN: return evalRAtom(m, n.in);
    case RN_CONST: return n.c;
    case RN_ADD: return evalRn(m, n.a) + evalRn(m, n.b);
    case RN_SUB: return evalRn(m, n.a) - evalRn(m, n.b);
    case RN_MUL: return evalRn(m, n.a) * evalRn(m, n.b);
    case RN_DIV: return evalRn(m, n.a) / evalRn(m, n.b);
    default: return rnTrue(n.op, evalRn(m, n.a));
  }
}
static z3::expr zRn(uint32_t i) {
  const RNode n = rns[i];
  if (n.op == RN_CONST) return zdbl(n.c);
  return Z->real_const((n.op == RN_IN ? "r" + std::to_string(n.in) : "f" + std::to_string(i)).c_str());
}
static z3::expr zRef(RRef r) { z3::expr e = zRn(r.n); return r.s ? -e : e; }
static void rrCollect(BId b, std::vector<char> &seenA, std::vector<char> &seenN, std::vector<uint32_t> &nodes) {
  size_t n; linAtoms(b, n);
  for (size_t i = 0; i < n; i++) {
    const uint32_t *p = linAtoms(b, n); uint32_t a = p[i];
    if (seenA.size() <= a) seenA.resize(atoms.size() + 1, 0);
    if (seenA[a]) continue;
    seenA[a] = 1;
    Atom at = atoms[a];
    if (at.kind == AT_AND) { rrCollect(at.a, seenA, seenN, nodes); rrCollect(at.b, seenA, seenN, nodes); }
    else if (at.kind == AT_GATE) { const Gate g = gates[at.a]; rrCollect(g.a, seenA, seenN, nodes); if (g.kind != 4) { rrCollect(g.b, seenA, seenN, nodes); rrCollect(g.c, seenA, seenN, nodes); } }
    else if (at.kind == AT_RR) {
      std::vector<uint32_t> st{rratoms[at.a].a.n, rratoms[at.a].b.n};
      while (!st.empty()) {
        uint32_t x = st.back(); st.pop_back();
        if (seenN.size() <= x) seenN.resize(rns.size() + 1, 0);
        if (seenN[x]) continue;
        seenN[x] = 1; nodes.push_back(x);
        const RNode &r = rns[x];
        if (r.op > RN_CONST) { st.push_back(r.a); if (r.op <= RN_DIV) st.push_back(r.b); }
      }
    }
  }
}
static void rnBound(uint32_t i, const std::function<void(uint32_t, double &, double &)> &get, double &lo, double &hi) {
  const RNode n = rns[i]; lo = n.lo; hi = n.hi;
  if (n.op <= RN_CONST) return;
  double al, ah, bl = 0, bh = 0, l = -INFINITY, h = INFINITY; get(n.a, al, ah); if (n.op <= RN_DIV) get(n.b, bl, bh);
  auto four = [&](double a, double b, double c, double d) { if (std::isnan(a) || std::isnan(b) || std::isnan(c) || std::isnan(d)) return; l = std::min(std::min(a, b), std::min(c, d)); h = std::max(std::max(a, b), std::max(c, d)); };
  auto fun = [&](double (*f)(double)) { double x = f(al), y = f(ah); l = std::isnan(x) ? -INFINITY : dnw(dnw(x)); h = std::isnan(y) ? INFINITY : upw(upw(y)); if (std::isinf(l) && l > 0) l = -INFINITY; };
  switch (n.op) {
    case RN_ADD: l = al + bl; h = ah + bh; break;
    case RN_SUB: l = al - bh; h = ah - bl; break;
    case RN_MUL: four(al * bl, al * bh, ah * bl, ah * bh); if (n.a == n.b) l = std::max(l, 0.0); break;
    case RN_DIV: if (bl > 0 || bh < 0) four(al / bl, al / bh, ah / bl, ah / bh); break;
    case RN_TANH: fun(std::tanh); break;
    case RN_EXP: fun(std::exp); l = std::max(l, 0.0); break;
    case RN_EXPM1: fun(std::expm1); break;
    case RN_LOG: if (al > 0) { fun(std::log); l -= 1e-15; h += 1e-15; } break;
    case RN_LOG1P: if (al > -1) fun(std::log1p); break;
    default: if (al > -1 && ah < 1) fun(std::atanh);
  }
  if (std::isnan(l)) l = -INFINITY;
  if (std::isnan(h)) h = INFINITY;
  lo = std::max(lo, l); hi = std::min(hi, h);
}
static void rnDyn(const std::vector<uint32_t> &nodes, const std::vector<BId> &lits, std::map<uint32_t, std::pair<double, double>> &bd) { // nodes: ascending, closed under operands
  std::map<uint32_t, std::pair<double, double>> given;
  for (BId b : lits) {
    size_t n; const uint32_t *p = linAtoms(b, n);
    if (n != 1 || atoms[p[0]].kind != AT_RR) continue;
    const RRAtom x = rratoms[atoms[p[0]].a]; if (x.k != 1) continue;
    bool neg = b & 1; // neg: a <= b, else a > b (weakened to >=)
    auto side = [&](RRef v, double c, bool upper) { // v <= c or v >= c
      if (v.s) { c = -c; upper = !upper; }
      auto it = given.emplace(v.n, std::make_pair(-INFINITY, INFINITY)).first;
      if (upper) it->second.second = std::min(it->second.second, c); else it->second.first = std::max(it->second.first, c);
    };
    const RNode &na = rns[x.a.n], &nb = rns[x.b.n];
    if (nb.op == RN_CONST) side(x.a, x.b.s ? -nb.c : nb.c, neg);
    if (na.op == RN_CONST) side(x.b, x.a.s ? -na.c : na.c, !neg);
  }
  auto get = [&](uint32_t k, double &l, double &h) { auto it = bd.find(k); if (it != bd.end()) { l = it->second.first; h = it->second.second; } else { l = rns[k].lo; h = rns[k].hi; } };
  for (uint32_t i : nodes) {
    double l, h; rnBound(i, get, l, h);
    auto it = given.find(i);
    if (it != given.end()) { l = std::max(l, it->second.first); h = std::min(h, it->second.second); }
    bd[i] = {l, h};
  }
}
static void rnDynOne(RRef r, double &lo, double &hi) {
  std::vector<uint32_t> nodes, st{r.n}; std::vector<char> seen(rns.size() + 1, 0);
  while (!st.empty()) { uint32_t x = st.back(); st.pop_back(); if (seen[x]) continue; seen[x] = 1; nodes.push_back(x); const RNode &n = rns[x]; if (n.op > RN_CONST) { st.push_back(n.a); if (n.op <= RN_DIV) st.push_back(n.b); } }
  std::sort(nodes.begin(), nodes.end());
  std::map<uint32_t, std::pair<double, double>> bd; rnDyn(nodes, pc, bd);
  lo = bd[r.n].first; hi = bd[r.n].second; if (r.s) { double t = lo; lo = -hi; hi = -t; }
}
static z3::check_result rrCheck(const std::vector<BId> &query, const z3::expr_vector &ex, Model *m, int *conf = nullptr) {
  std::vector<char> seenA, seenN; std::vector<uint32_t> nodes;
  for (BId c : pc) rrCollect(c, seenA, seenN, nodes);
  for (BId c : query) rrCollect(c, seenA, seenN, nodes);
  std::sort(nodes.begin(), nodes.end());
  z3::expr_vector ax(*Z);
  for (BId c : pc) ax.push_back(zB(c));
  for (unsigned i = 0; i < ex.size(); i++) ax.push_back(ex[i]);
  zDefs(); for (size_t i = 0; i < pendingAx.size(); i++) ax.push_back(pendingAx[i]);
  const z3::expr U = zdbl(std::ldexp(1, -53)), U4 = zdbl(std::ldexp(1, -51)), MIN = zdbl(std::ldexp(1, -1022)), one = Z->real_val(1), zero = Z->real_val(0);
  std::vector<double> lm{0, 1}; for (uint32_t i : nodes) if (rns[i].op == RN_CONST) { lm.push_back(rns[i].c); }
  std::sort(lm.begin(), lm.end()); lm.erase(std::unique(lm.begin(), lm.end()), lm.end());
  std::map<uint32_t, std::pair<double, double>> bd; { std::vector<BId> lits = pc; lits.insert(lits.end(), query.begin(), query.end()); rnDyn(nodes, lits, bd); }
  std::map<uint32_t, z3::expr> V; // exact value before rounding
  std::map<uint32_t, z3::expr> L; // natural logarithm of a node's value
  auto around = [&](const z3::expr &r, const z3::expr &v, const z3::expr &u) { // relative error
    ax.push_back(z3::implies(v >= 0, r >= v * (one - u) && r <= v * (one + u)));
    ax.push_back(z3::implies(v <= 0, r <= v * (one - u) && r >= v * (one + u)));
  };
  std::vector<uint32_t> logs;
  std::function<void(uint32_t)> needL = [&](uint32_t i) {
    if (L.count(i)) return;
    L.emplace(i, Z->real_const(("l" + std::to_string(i)).c_str())); logs.push_back(i);
    const RNode n = rns[i];
    if (n.op == RN_DIV || n.op == RN_MUL) { needL(n.a); needL(n.b); }
  };
  for (uint32_t i : nodes) {
    const RNode n = rns[i]; z3::expr r = zRn(i);
    if (n.op == RN_CONST) continue;
    if (n.op == RN_IN) { ax.push_back(r >= zdbl(n.lo)); ax.push_back(r <= zdbl(n.hi)); continue; }
    double dl = bd[i].first, dh = bd[i].second;
    if (std::isfinite(dl)) ax.push_back(r >= zdbl(dl));
    if (std::isfinite(dh)) ax.push_back(r <= zdbl(dh));
    z3::expr A = zRn(n.a);
    if (n.op <= RN_DIV) {
      z3::expr B = zRn(n.b), v(*Z);
      if (n.op == RN_ADD) v = A + B;
      else if (n.op == RN_SUB) v = A - B;
      else if (n.op == RN_MUL) { v = Z->real_const(("q" + std::to_string(i)).c_str()); ax.push_back(v == A * B); }
      else { v = Z->real_const(("q" + std::to_string(i)).c_str()); ax.push_back(v * B == A); ax.push_back(B != 0); }
      V.emplace(i, v);
      auto pow2 = [&](uint32_t k) { if (rns[k].op != RN_CONST) return false; int e; return std::frexp(rns[k].c, &e) == 0.5; };
      if (n.op == RN_SUB && rns[n.a].op == RN_CONST && rns[n.a].c == 0) { ax.push_back(r == v); continue; }
      if (n.op <= RN_SUB) around(r, v, U);
      else {
        bool exact = (n.op == RN_MUL && (pow2(n.a) || pow2(n.b))) || (n.op == RN_DIV && pow2(n.b));
        z3::expr u = exact ? zero : U;
        ax.push_back(z3::implies(v >= MIN, r >= v * (one - u) && r <= v * (one + u)));
        ax.push_back(z3::implies(v <= -MIN, r <= v * (one - u) && r >= v * (one + u)));
        ax.push_back(z3::implies(v > -MIN && v < MIN, r >= -MIN && r <= MIN));
        ax.push_back(z3::implies(v >= 0, r >= 0)); ax.push_back(z3::implies(v <= 0, r <= 0));
        for (uint32_t k : {n.a, n.b}) if (rns[k].op != RN_CONST) { z3::expr K = zRn(k); ax.push_back(z3::implies(v <= K, r <= K)); ax.push_back(z3::implies(v >= K, r >= K)); ax.push_back(z3::implies(v <= -K, r <= -K)); ax.push_back(z3::implies(v >= -K, r >= -K)); }
      }
      for (double c : lm) for (int s = 0; s < (c != 0 ? 2 : 1); s++) { z3::expr k = zdbl(s ? -c : c); ax.push_back(z3::implies(v <= k, r <= k)); ax.push_back(z3::implies(v >= k, r >= k)); }
      continue;
    }
    switch (n.op) {
      case RN_TANH:
        ax.push_back(z3::implies(A > 0, r > 0 && r <= A * (one + U4))); ax.push_back(z3::implies(A < 0, r < 0 && r >= A * (one + U4))); ax.push_back(z3::implies(A == 0, r == 0));
        ax.push_back(z3::implies(A >= 19, r >= zdbl(1 - 1e-15))); ax.push_back(z3::implies(A <= -19, r <= zdbl(-1 + 1e-15)));
        break;
      case RN_ATANH: ax.push_back(z3::implies(A > 0, r >= A * (one - U4))); ax.push_back(z3::implies(A < 0, r <= A * (one - U4))); ax.push_back(z3::implies(A == 0, r == 0)); break;
      case RN_LOG: needL(n.a); around(r, L.at(n.a), U4); break;
      case RN_LOG1P: ax.push_back(z3::implies(A > 0, r > 0 && r <= A * (one + U4))); ax.push_back(z3::implies(A < 0, r <= A * (one - U4))); ax.push_back(z3::implies(A == 0, r == 0)); break;
      case RN_EXP: ax.push_back(r > 0); ax.push_back(z3::implies(A >= 0, r >= 1)); ax.push_back(z3::implies(A <= 0, r <= 1)); break;
      case RN_EXPM1: ax.push_back(r >= -1); ax.push_back(z3::implies(A > 0, r > 0)); ax.push_back(z3::implies(A < 0, r < 0)); ax.push_back(z3::implies(A == 0, r == 0)); break;
    }
  }
  // rounding and the functions are monotone
  for (size_t x = 0; x < nodes.size(); x++) for (size_t y = 0; y < x; y++) {
    const RNode p = rns[nodes[x]], q = rns[nodes[y]];
    if (p.op <= RN_CONST || q.op <= RN_CONST) continue;
    z3::expr rp = zRn(nodes[x]), rq = zRn(nodes[y]);
    if (p.op != q.op) continue;
    z3::expr a = p.op <= RN_DIV ? V.at(nodes[x]) : zRn(p.a), b = q.op <= RN_DIV ? V.at(nodes[y]) : zRn(q.a);
    ax.push_back(z3::implies(a <= b, rp <= rq)); ax.push_back(z3::implies(b <= a, rq <= rp));
  }
  // logarithms
  for (size_t x = 0; x < logs.size(); x++) {
    uint32_t i = logs[x]; const RNode n = rns[i]; z3::expr r = zRn(i), l = L.at(i);
    ax.push_back(z3::implies(r > 0, l <= r - 1 && l * r >= r - 1)); ax.push_back(z3::implies(r >= 1, l >= 0));
    if (n.op == RN_CONST && n.c > 0) { double c = std::log(n.c); ax.push_back(l >= zdbl(c - std::fabs(c) * 1e-15)); ax.push_back(l <= zdbl(c + std::fabs(c) * 1e-15)); }
    if (n.op == RN_DIV || n.op == RN_MUL) {
      z3::expr d = n.op == RN_DIV ? L.at(n.a) - L.at(n.b) : L.at(n.a) + L.at(n.b), eps = zdbl(3e-16);
      ax.push_back(z3::implies(zRn(n.a) > 0 && zRn(n.b) > 0 && r > zdbl(1e-300), l - d <= eps && d - l <= eps));
    }
    for (size_t y = 0; y < x; y++) { z3::expr s = zRn(logs[y]), k = L.at(logs[y]); ax.push_back(z3::implies(r > 0 && r <= s, l <= k)); ax.push_back(z3::implies(s > 0 && s <= r, k <= l)); }
    // ln(1 + tanh t) - ln(1 - tanh t) = 2t, up to the rounding of tanh and of 1 +- tanh
    for (size_t y = 0; y < logs.size(); y++) {
      const RNode q = rns[logs[y]];
      auto oneT = [&](const RNode &k, int op, uint32_t &t) { if (k.op != op) return false; const RNode &u = rns[k.a], &w = rns[k.b]; if (u.op == RN_CONST && u.c == 1 && w.op == RN_TANH) { t = k.b; return true; } if (w.op == RN_CONST && w.c == 1 && u.op == RN_TANH && op == RN_ADD) { t = k.a; return true; } return false; };
      auto Tone = [&](const RNode &k, uint32_t &t) { if (k.op != RN_SUB) return false; const RNode &u = rns[k.a], &w = rns[k.b]; if (w.op == RN_CONST && w.c == 1 && u.op == RN_TANH) { t = k.a; return true; } return false; };
      (void)Tone;
      uint32_t t1, t2;
      if (oneT(n, RN_ADD, t1) && oneT(q, RN_SUB, t2) && t1 == t2) {
        z3::expr T = zRn(t1), d = l - L.at(logs[y]) - 2 * zRn(rns[t1].a), eps = zdbl(2e-7);
        ax.push_back(z3::implies(T <= zdbl(1 - 5e-9) && T >= zdbl(-1 + 5e-9), d <= eps && d >= -eps));
      }
    }
  }
  auto lemma = [&](const RLemma &k) {
    const RNode n = rns[k.node]; bool odd = rnOdd(n.op);
    z3::expr t = zRn(n.a), r = n.op == RN_LOG ? L.at(n.a) : zRn(k.node);
    for (int s = 0; s < (odd ? 2 : 1); s++) {
      z3::expr tt = s ? -t : t, rr = s ? -r : r, dom = odd ? tt >= 0 : n.op == RN_LOG ? tt > 0 : n.op == RN_LOG1P ? tt > -1 : Z->bool_val(true);
      if (k.tangent) {
        double f = rnTrue(n.op, k.p), sl = rnD1(n.op, k.p), e = std::fabs(f) * 2e-15 + 1e-300;
        z3::expr line = zdbl(f) + zdbl(sl) * (tt - zdbl(k.p));
        ax.push_back(z3::implies(dom, rnConcave(n.op) ? rr <= line + zdbl(e) : rr >= line - zdbl(e)));
      } else {
        double f = rnTrue(n.op, k.p), g = rnTrue(n.op, k.q), e = std::max(std::fabs(f), std::fabs(g)) * 2e-15 + 1e-300;
        z3::expr line = zdbl(f) + (zdbl(g) - zdbl(f)) * ((tt - zdbl(k.p)) / (zdbl(k.q) - zdbl(k.p)));
        ax.push_back(z3::implies(tt >= zdbl(k.p) && tt <= zdbl(k.q), rnConcave(n.op) ? rr >= line - zdbl(e) : rr <= line + zdbl(e)));
      }
    }
  };
  for (auto &k : rnLemmas) if (seenN.size() > k.node && seenN[k.node]) lemma(k);
  double t0 = now(), lim = g_timeout_ms * 4 / 1000.0;
  z3::check_result r = z3::unknown;
  bool got = false;
  auto holds = [&](const Model &c) { for (BId b : pc) if (!evalB(c, b)) return false; for (BId b : query) if (!evalB(c, b)) return false; return true; };
  for (int round = 0; round < 60; round++) {
    double left = lim - (now() - t0); if (left < 0.05) { r = z3::unknown; break; }
    z3::solver s(*Z, getenv("ECSYM_NRA") ? getenv("ECSYM_NRA") : "QF_NRA"); z3::params p(*Z); p.set("timeout", (unsigned)(left * 1000)); s.set(p);
    s.add(ax);
    if (getenv("ECSYM_DUMP")) { static int k = 0; char fn[200]; snprintf(fn, sizeof fn, "%s/q%d_%d.smt2", getenv("ECSYM_DUMP"), (int)getpid(), k++); FILE *f = fopen(fn, "w"); if (f) { fprintf(f, "%s", s.to_smt2().c_str()); fclose(f); } }
    double q0 = now();
    r = s.check();
    if (getenv("ECSYM_DBG")) fprintf(stderr, "rr query %d (%zu nodes, %u axioms) %d %.2f s\n", round, nodes.size(), ax.size(), (int)r, now() - q0);
    if (r != z3::sat) break;
    z3::model zm = s.get_model();
    Model c; c.bits.assign(nInputs, 0); c.reals.assign(nReals, 0);
    for (uint32_t a = 0; a < atoms.size(); a++) if (isIn(atoms[a].kind) && a < zAtom.size() && zAtom[a]) { z3::expr v = zm.eval(*zAtom[a], true); c.bits[atoms[a].a] = v.is_true(); }
    for (size_t i = 1; i < rns.size(); i++) if (rns[i].op == RN_IN) {
      double d = std::min(std::max(0.0, rns[i].lo), rns[i].hi);
      if (seenN.size() > i && seenN[i]) d = zNum(zm, zRn((uint32_t)i));
      c.reals[ratoms[rns[i].in].a] = std::min(std::max(d, rns[i].lo), rns[i].hi);
    }
    c.ok = true;
    if (m && !got) *m = c;
    if (holds(c)) { if (m) *m = c; got = true; break; }
    // values of the neighbourhood, and extreme ones
    static const double F[] = {1 + 1e-9, 1 - 1e-9, 1.001, 0.999, 1.1, 0.9, 2, 0.5, 10, 0.1, 100, 1e5, 1e20, 1e200, 1e-20};
    for (double f : F) { Model d = c; for (size_t i = 1; i < rns.size(); i++) if (rns[i].op == RN_IN) { double &x = d.reals[ratoms[rns[i].in].a]; x = std::min(std::max(x * f, rns[i].lo), rns[i].hi); } if (holds(d)) { if (m) *m = d; got = true; break; } }
    if (got) break;
    int added = 0;
    for (uint32_t i : nodes) {
      const RNode n = rns[i]; if (!rnFun(n.op)) continue;
      bool ok1, ok2; double t = zNum(zm, zRn(n.a), &ok1), v = zNum(zm, n.op == RN_LOG ? L.at(n.a) : zRn(i), &ok2);
      if (!ok1 || !ok2) continue;
      if (rnOdd(n.op) && t < 0) { t = -t; v = -v; }
      if ((n.op == RN_LOG && t < 1e-290) || (n.op == RN_LOG1P && t <= -1) || (n.op == RN_ATANH && t >= 1)) continue;
      double f = rnTrue(n.op, t), gap = v - f;
      if (!std::isfinite(f) || std::fabs(gap) <= std::fabs(f) * 1e-14 + 1e-300) continue;
      RLemma k{i, rnConcave(n.op) == (gap > 0), t, 0};
      if (!k.tangent) {
        double h = std::sqrt(std::fabs(gap) / std::max(rnD2(n.op, t), 1e-30)), cap = n.op == RN_LOG ? t / 2 : n.op == RN_LOG1P ? (1 + t) / 2 : n.op == RN_ATANH ? (1 - t) / 2 : std::max(1.0, t / 4);
        h = std::max(std::min(h, cap), std::fabs(t) * 1e-9 + 1e-250);
        k.p = t - h; k.q = t + h; if (rnOdd(n.op) && k.p < 0) k.p = 0;
        if (!(k.q > k.p)) continue;
      }
      rnLemmas.push_back(k); lemma(k); added++;
    }
    if (!added) break;
  }
  __sync_add_and_fetch((uint64_t *)&ST->solver_us, (uint64_t)((now() - t0) * 1e6)); __sync_add_and_fetch((uint64_t *)&ST->queries, 1);
  __sync_add_and_fetch((uint64_t *)(r == z3::sat ? &ST->qsat : r == z3::unsat ? &ST->qunsat : &ST->qunknown), 1);
  if (conf) *conf = got;
  return r;
}
