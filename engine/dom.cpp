#include "dom.h"
#include <unistd.h>
#include <cmath>
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <chrono>
#include <z3++.h>

Stats *ST = nullptr;
std::string (*whereHook)() = nullptr;
int g_leafcap = 64;
unsigned g_timeout_ms = 20000;
bool (*decideHook)(BId c) = nullptr;
void (*reportUB)(const std::string &, BId) = nullptr;

static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

// ---------------------------------------------------------------- linear forms
struct LinRef { uint32_t off, len; };
static std::vector<uint32_t> linArena;
static std::vector<LinRef> lins{{0, 0}};
static std::unordered_multimap<uint64_t, uint32_t> linIndex;
static std::vector<Atom> atoms;
static std::vector<uint32_t> atomLin; // atom -> lin id
static std::unordered_map<uint64_t, uint32_t> andIndex, rposIndex;
static int nInputs = 0;

static uint64_t hashAtoms(const uint32_t *p, size_t n) { uint64_t h = n; for (size_t i = 0; i < n; i++) h = mix(h, p[i]); return h; }
static uint32_t internLin(const uint32_t *p, size_t n) {
  if (n == 0) return 0;
  uint64_t h = hashAtoms(p, n);
  auto r = linIndex.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    LinRef &L = lins[it->second];
    if (L.len == n && !memcmp(&linArena[L.off], p, n * 4)) return it->second;
  }
  LinRef L; L.off = (uint32_t)linArena.size(); L.len = (uint32_t)n;
  linArena.insert(linArena.end(), p, p + n);
  lins.push_back(L);
  linIndex.emplace(h, (uint32_t)lins.size() - 1);
  return (uint32_t)lins.size() - 1;
}
const uint32_t *linAtoms(BId b, size_t &n) { LinRef &L = lins[b >> 1]; n = L.len; return n ? &linArena[L.off] : nullptr; }
uint32_t natoms() { return (uint32_t)atoms.size(); }
const Atom &atomOf(uint32_t a) { return atoms[a]; }
int binputs() { return nInputs; }
BId batom(uint32_t a) { return atomLin[a] << 1; }
static uint32_t newAtom(uint8_t k, uint32_t a, uint32_t b) {
  atoms.push_back({k, a, b});
  uint32_t id = (uint32_t)atoms.size() - 1;
  atomLin.push_back(internLin(&id, 1));
  return id;
}
static bool isIn(int kind) { return kind == AT_INPUT || kind == AT_AUX; }
static BId bnewAux() { return batom(newAtom(AT_AUX, nInputs++, 0)); }
static std::vector<BId> defAx; // what defines the auxiliary bits, true on every path
BId bnewInput() { return batom(newAtom(AT_INPUT, nInputs++, 0)); }

BId bxor(BId a, BId b) {
  uint32_t k = (a ^ b) & 1, la = a >> 1, lb = b >> 1;
  if (la == 0) return (lb << 1) | k;
  if (lb == 0) return (la << 1) | k;
  if (la == lb) return k;
  LinRef A = lins[la], B = lins[lb];
  static std::vector<uint32_t> tmp;
  tmp.clear(); tmp.reserve(A.len + B.len);
  const uint32_t *p = &linArena[A.off], *pe = p + A.len, *q = &linArena[B.off], *qe = q + B.len;
  while (p < pe && q < qe) { if (*p < *q) tmp.push_back(*p++); else if (*q < *p) tmp.push_back(*q++); else p++, q++; }
  while (p < pe) tmp.push_back(*p++);
  while (q < qe) tmp.push_back(*q++);
  if (tmp.size() > 20000) throw Unsupported{"linear form too long"};
  return (internLin(tmp.data(), tmp.size()) << 1) | k;
}
static bool singleAnd(uint32_t lin, Atom &at) {
  LinRef &L = lins[lin];
  if (L.len != 1) return false;
  at = atoms[linArena[L.off]];
  return at.kind == AT_AND;
}
BId band(BId a, BId b) {
  if (a == BFALSE || b == BFALSE) return BFALSE;
  if (a == BTRUE) return b;
  if (b == BTRUE) return a;
  if (a == b) return a;
  if (a == bnot(b)) return BFALSE;
  uint32_t ca = a & 1, cb = b & 1, la = a >> 1, lb = b >> 1;
  if (la > lb) { std::swap(la, lb); std::swap(ca, cb); }
  // (x^ca)(y^cb) = xy ^ ca*y ^ cb*x ^ ca*cb
  BId x = la << 1, y = lb << 1, prod;
  if (la == lb) prod = x; // x*x (constants handled below)
  else {
    Atom at;
    if (singleAnd(lb, at) && (at.a == x || at.b == x)) prod = y;
    else if (singleAnd(la, at) && (at.a == y || at.b == y)) prod = x;
    else {
      uint64_t key = ((uint64_t)x << 32) | y;
      auto it = andIndex.find(key);
      uint32_t id;
      if (it != andIndex.end()) id = it->second;
      else { id = newAtom(AT_AND, x, y); andIndex[key] = id; if (atoms.size() > 6000000) throw Unsupported{"too many atoms"}; }
      prod = batom(id);
    }
  }
  BId r = prod;
  if (ca) r = bxor(r, y);
  if (cb) r = bxor(r, x);
  if (ca & cb) r ^= 1;
  return r;
}
BId bite(BId c, BId a, BId b) {
  if (c == BTRUE) return a;
  if (c == BFALSE) return b;
  if (a == b) return a;
  return bxor(b, band(c, bxor(a, b)));
}
// word-level circuits: a carry, a selection or a sum bit whose XOR normal form grows becomes an atom of its own
struct Gate { int kind; BId a, b, c; }; // 2: a ? b : c, 3: majority, 4: alias of a
static std::vector<Gate> gates;
static std::map<std::tuple<int, BId, BId, BId>, uint32_t> gateIndex;
static const size_t GATE_LEN = 4;
static size_t linLen(BId b) { return lins[b >> 1].len; }
static BId bgate(int kind, BId a, BId b, BId c) {
  auto k = std::make_tuple(kind, a, b, c); auto it = gateIndex.find(k); uint32_t id;
  if (it != gateIndex.end()) id = it->second;
  else { gates.push_back({kind, a, b, c}); id = newAtom(AT_GATE, (uint32_t)gates.size() - 1, 0); gateIndex[k] = id; if (atoms.size() > 6000000) throw Unsupported{"too many atoms"}; }
  return batom(id);
}
static BId balias(BId a) { return linLen(a) <= GATE_LEN ? a : bgate(4, a & ~1u, 0, 0) ^ (a & 1); }
static BId bmux(BId c, BId a, BId b) {
  if (bconst(c) || a == b || bconst(a) || bconst(b) || (a >> 1) == (b >> 1) || linLen(a) + linLen(b) <= GATE_LEN) return bite(c, a, b);
  return bgate(2, c, a, b);
}
static BId bmaj(BId a, BId b, BId c) {
  if (bconst(a) || bconst(b) || bconst(c) || (a >> 1) == (b >> 1) || (a >> 1) == (c >> 1) || (b >> 1) == (c >> 1)) return bite(bxor(a, b), c, a);
  if (linLen(a) + linLen(b) + linLen(c) <= GATE_LEN) return bite(bxor(a, b), c, a);
  if (a > b) std::swap(a, b);
  if (b > c) std::swap(b, c);
  if (a > b) std::swap(a, b);
  BId n = a & 1;
  return bgate(3, a ^ n, b ^ n, c ^ n) ^ n;
}

// ---------------------------------------------------------------- reals
struct RLin { std::vector<std::pair<uint32_t, double>> t; double c = 0; };
enum { R_IN, R_LAM, R_ELOG };
struct RAtom { int kind; double lo, hi; uint32_t a; };  // a: input index / core id
static std::vector<RAtom> ratoms;
static std::vector<RLin> rlins;
static std::unordered_multimap<uint64_t, uint32_t> rlinIndex;
struct Core { uint32_t u, E; int pa = -1, pb = -1; };   // u: rlin of LLR, E: rlin of -log cosh(u/2); pa,pb: product of cores
static std::vector<Core> cores;
static std::unordered_map<uint64_t, uint32_t> prodIndex, coreIndex;
static int nReals = 0;

static uint32_t rIntern(RLin l) {
  std::sort(l.t.begin(), l.t.end());
  std::vector<std::pair<uint32_t, double>> o;
  for (auto &e : l.t) { if (!o.empty() && o.back().first == e.first) o.back().second += e.second; else o.push_back(e); }
  l.t.clear();
  for (auto &e : o) if (std::fabs(e.second) > 1e-12) l.t.push_back(e);
  uint64_t h = 17; uint64_t bits;
  for (auto &e : l.t) { memcpy(&bits, &e.second, 8); h = mix(mix(h, e.first), bits); }
  if (l.c == 0) l.c = 0.0;
  memcpy(&bits, &l.c, 8); h = mix(h, bits);
  auto r = rlinIndex.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { RLin &x = rlins[it->second]; if (x.c == l.c && x.t == l.t) return it->second; }
  rlins.push_back(l);
  rlinIndex.emplace(h, (uint32_t)rlins.size() - 1);
  return (uint32_t)rlins.size() - 1;
}
static uint32_t rComb(uint32_t a, double ca, uint32_t b, double cb, double c = 0) {
  RLin l;
  for (auto &e : rlins[a].t) l.t.push_back({e.first, e.second * ca});
  for (auto &e : rlins[b].t) l.t.push_back({e.first, e.second * cb});
  l.c = rlins[a].c * ca + rlins[b].c * cb + c;
  return rIntern(l);
}
static uint32_t rScale(uint32_t a, double ca) { RLin l; for (auto &e : rlins[a].t) l.t.push_back({e.first, e.second * ca}); l.c = rlins[a].c * ca; return rIntern(l); }
static uint32_t rConst(double c) { RLin l; l.c = c; return rIntern(l); }
static uint32_t rAtomLin(uint32_t a) { RLin l; l.t.push_back({a, 1.0}); return rIntern(l); }
static void rBounds(uint32_t a, double &lo, double &hi) {
  RLin &l = rlins[a]; lo = hi = l.c;
  for (auto &e : l.t) { double x = ratoms[e.first].lo * e.second, y = ratoms[e.first].hi * e.second; lo += std::min(x, y); hi += std::max(x, y); }
}
// lin > 0 as Boolean (ties excluded unless the form is constant)
static BId rPos(uint32_t a, bool strict) {
  RLin &l = rlins[a];
  if (l.t.empty()) return (strict ? l.c > 0 : l.c >= 0) ? BTRUE : BFALSE;
  double lo, hi; rBounds(a, lo, hi);
  if (lo > 0) return BTRUE;
  if (hi < 0) return BFALSE;
  bool neg = l.t[0].second < 0;
  double s = 1.0 / l.t[0].second;
  uint32_t n = rScale(a, s);
  auto it = rposIndex.find(n);
  uint32_t id;
  if (it != rposIndex.end()) id = it->second; else { id = newAtom(AT_RPOS, n, 0); rposIndex[n] = id; }
  return neg ? bnot(batom(id)) : batom(id);
}
static uint32_t coreOf(uint32_t u) {
  auto it = coreIndex.find(u);
  if (it != coreIndex.end()) return it->second;
  double lo, hi; rBounds(u, lo, hi);
  uint32_t ci = (uint32_t)cores.size();
  double m = std::max(std::fabs(lo), std::fabs(hi));
  ratoms.push_back({R_ELOG, -m / 2 - 1e-9, 0, ci});
  uint32_t e = rAtomLin((uint32_t)ratoms.size() - 1);
  Core c; c.u = u; c.E = e;
  cores.push_back(c);
  coreIndex[u] = ci;
  return ci;
}
static BId corePos(uint32_t ci) {
  Core &c = cores[ci];
  if (c.pa >= 0) return bnot(bxor(corePos(c.pa), corePos(c.pb)));
  return rPos(c.u, true);
}

enum { DN_SG = 1, DN_ITE, DN_LIN, DN_AFEXP, DN_CORE, DN_SUM2, DN_AFCORE, DN_RATIO, DN_INT, DN_OPQ, DN_RND };
static bool g_rnd = false; // rounded-real inputs exist
struct DNode { uint8_t kind; uint8_t s = 0; uint32_t a = 0, b = 0; double d0 = 0, d1 = 0; Val va, vb; uint32_t leaves = 1; };
static std::vector<DNode> dnodes(1);
static std::unordered_multimap<uint64_t, uint32_t> dIndex;
static Val mkD(const DNode &n) {
  uint64_t b0, b1; memcpy(&b0, &n.d0, 8); memcpy(&b1, &n.d1, 8);
  uint64_t h = mix(mix(mix(mix(mix(n.kind, n.s), n.a), n.b), b0), b1);
  h = mix(mix(mix(mix(h, n.va.p), n.va.k), n.vb.p), n.vb.k);
  auto r = dIndex.equal_range(h);
  uint32_t id = 0;
  for (auto it = r.first; it != r.second; ++it) {
    DNode &x = dnodes[it->second];
    if (x.kind == n.kind && x.s == n.s && x.a == n.a && x.b == n.b && !memcmp(&x.d0, &n.d0, 8) && !memcmp(&x.d1, &n.d1, 8) && x.va == n.va && x.vb == n.vb) { id = it->second; break; }
  }
  if (!id) { dnodes.push_back(n); id = (uint32_t)dnodes.size() - 1; dIndex.emplace(h, id); if (dnodes.size() > 8000000) throw Unsupported{"too many double nodes"}; }
  Val v; v.k = V_SDBL; v.w = 64; v.p = id; return v;
}
static inline const DNode &dn(const Val &v) { return dnodes[v.p]; }
static Val mkSG(BId s, double mag) {
  if (mag == 0) return mkDbl(0.0);
  if (mag < 0 || std::signbit(mag)) { mag = -mag; s = bnot(s); }
  if (bconst(s)) return mkDbl(s == BTRUE ? -mag : mag);
  DNode n; n.kind = DN_SG; n.a = s; n.d0 = mag; return mkD(n);
}
static bool isSG(const Val &v) { return v.k == V_SDBL && dn(v).kind == DN_SG; }
static bool isITE(const Val &v) { return v.k == V_SDBL && dn(v).kind == DN_ITE; }
static void sgOf(const Val &v, BId &s, double &m) {
  if (v.k == V_DBL) { double d = dblOf(v); s = std::signbit(d) ? BTRUE : BFALSE; m = std::fabs(d); }
  else { s = dn(v).a; m = dn(v).d0; }
}
static uint32_t leavesOf(const Val &v) { if (v.k != V_SDBL) return 1; const DNode &n = dn(v); return n.kind == DN_ITE ? n.leaves : n.kind == DN_SG ? 2 : 1; }
static Val mkLinV(uint32_t l) { if (rlins[l].t.empty()) return mkDbl(rlins[l].c); DNode n; n.kind = DN_LIN; n.a = l; return mkD(n); }
static Val mkCore(uint32_t ci, int neg) { DNode n; n.kind = DN_CORE; n.a = ci; n.s = neg; return mkD(n); }

static Val restrictD(const Val &v, BId c, bool val) {
  if (v.k != V_SDBL) return v;
  const DNode n = dn(v);
  if (n.kind == DN_SG) { if ((n.a >> 1) == (c >> 1)) return mkSG((((c ^ n.a) & 1) ? !val : val) ? BTRUE : BFALSE, n.d0); return v; }
  if (n.kind == DN_ITE) {
    if ((n.a >> 1) == (c >> 1)) { bool cv = ((c ^ n.a) & 1) ? !val : val; return restrictD(cv ? n.va : n.vb, c, val); }
    Val a = restrictD(n.va, c, val), b = restrictD(n.vb, c, val);
    if (a == n.va && b == n.vb) return v;
    return iteD(n.a, a, b);
  }
  return v;
}
Val iteD(BId c, const Val &a, const Val &b) {
  if (c == BTRUE) return a;
  if (c == BFALSE) return b;
  if (a == b) return a;
  bool sa = a.k == V_DBL || isSG(a), sb = b.k == V_DBL || isSG(b);
  if (sa && sb) {
    BId x, y; double m, k;
    sgOf(a, x, m); sgOf(b, y, k);
    if (m == k) return mkSG(bite(c, x, y), m);
    if (std::isfinite(m) && std::isfinite(k) && std::fabs(m - k) <= 1e-13 * std::max(m, k)) { if (ST) __sync_add_and_fetch((uint64_t *)&ST->snaps, 1); return mkSG(bite(c, x, y), std::max(m, k)); }
  }
  Val a2 = restrictD(a, c, true), b2 = restrictD(b, c, false);
  if (a2 != a || b2 != b) return iteD(c, a2, b2);
  DNode n; n.kind = DN_ITE;
  if (c & 1) { n.a = bnot(c); n.va = b; n.vb = a; } else { n.a = c; n.va = a; n.vb = b; }
  n.leaves = leavesOf(a) + leavesOf(b);
  return mkD(n);
}
static Val normD(const Val &v) {
  if (v.k != V_SDBL) return v;
  const DNode n = dn(v);
  if (n.kind == DN_SG) { BId s = bred(n.a); return s == n.a ? v : mkSG(s, n.d0); }
  if (n.kind == DN_ITE) {
    BId c = bred(n.a);
    if (c == BTRUE) return normD(n.va);
    if (c == BFALSE) return normD(n.vb);
    Val a = normD(n.va), b = normD(n.vb);
    if (c == n.a && a == n.va && b == n.vb) return v;
    return iteD(c, a, b);
  }
  return v;
}
// pick a condition to case-split a value on
static bool condOf(const Val &v, BId &c) {
  if (v.k != V_SDBL) return false;
  const DNode &n = dn(v);
  if (n.kind == DN_SG || n.kind == DN_ITE) { c = n.a & ~1u; return true; }
  return false;
}
#include "rnd_terms.inc"
static Val leafBin(int op, const Val &a, const Val &b);
static Val fBinR(int op, Val a, Val b, int &budget) {
  if (a.k == V_DBL && b.k == V_DBL) {
    double x = dblOf(a), y = dblOf(b);
    switch (op) { case F_ADD: return mkDbl(x + y); case F_SUB: return mkDbl(x - y); case F_MUL: return mkDbl(x * y); case F_DIV: return mkDbl(x / y); default: return mkDbl(std::fmod(x, y)); }
  }
  bool sa = a.k == V_DBL || isSG(a), sb = b.k == V_DBL || isSG(b);
  if (sa && sb) {
    BId x, y; double m, k; sgOf(a, x, m); sgOf(b, y, k);
    if (op == F_MUL) return mkSG(bxor(x, y), m * k);
    if (op == F_DIV && k != 0) return mkSG(bxor(x, y), m / k);
    if (op == F_ADD || op == F_SUB) {
      BId y2 = op == F_SUB ? bnot(y) : y;
      if (m == 0) return mkSG(y2, k);
      if (k == 0) return mkSG(x, m);
      BId d = bxor(x, y2);
      if (d == BFALSE) return mkSG(x, m + k);
      if (d == BTRUE) return mkSG(x, m - k);
    }
  }
  BId c;
  if (condOf(a, c) || condOf(b, c)) {
    if (--budget < 0) {
      bool v = decideHook(c);
      return fBinR(op, restrictD(a, c, v), restrictD(b, c, v), budget);
    }
    Val t = fBinR(op, restrictD(a, c, true), restrictD(b, c, true), budget);
    Val f = fBinR(op, restrictD(a, c, false), restrictD(b, c, false), budget);
    return iteD(c, t, f);
  }
  return leafBin(op, a, b);
}
Val fBin(int op, const Val &a0, const Val &b0) {
  if (a0.k == V_UNDEF || b0.k == V_UNDEF) return Val();
  if (a0.k == V_DBL && b0.k == V_DBL) { int z = 0; Val r = fBinR(op, a0, b0, z); if (a0.w == 32) { r = mkDbl((double)(float)dblOf(r)); r.w = 32; } return r; }
  if (a0.w == 32) throw Unsupported{"symbolic float"};
  int budget = g_leafcap;
  return fBinR(op, normD(a0), normD(b0), budget);
}
// int-valued doubles and dyadic fractions n / 2^sc, exact while n fits in 53 bits
static int sigWidth(const Val &n) { // significant bits of a signed value
  if (n.k == V_INT) { int64_t x = sval(n); uint64_t u = x < 0 ? ~(uint64_t)x : (uint64_t)x; int w = 0; while (u) { w++; u >>= 1; } return w; }
  const std::vector<BId> &b = sbits(n); size_t i = b.size();
  while (i > 1 && b[i - 2] == b[i - 1]) i--;
  return (int)i - 1;
}
static bool fixOf(const Val &v, Val &n, int &sc) {
  if (v.k == V_DBL) {
    double d = dblOf(v); if (!std::isfinite(d)) return false;
    for (sc = 0; sc <= 24; sc++, d *= 2) if (d == std::floor(d)) { if (std::fabs(d) > 9e15) return false; n = mkInt(64, (uint64_t)(int64_t)d); return true; }
    return false;
  }
  const DNode q = dn(v); if (q.kind != DN_INT) return false;
  n = q.va.w == 64 ? q.va : iExt(q.va, 64, q.s); sc = (int)q.b; return true;
}
static Val mkFix(Val n, int sc) {
  if (n.k == V_INT) return mkDbl(std::ldexp((double)sval(n), -sc));
  while (sc > 0 && sbits(n)[0] == BFALSE) { n = iBin(I_ASHR, n, mkInt(64, 1)); sc--; if (n.k == V_INT) return mkDbl(std::ldexp((double)sval(n), -sc)); }
  DNode q; q.kind = DN_INT; q.va = n; q.s = 1; q.b = (uint32_t)sc; return mkD(q);
}
static Val shl64(const Val &n, int k) { return k ? iBin(I_SHL, n, mkInt(64, (uint64_t)k)) : n; }
static bool fixBin(int op, const Val &a, const Val &b, Val &r) {
  Val x, y; int s, t; if (!fixOf(a, x, s) || !fixOf(b, y, t)) return false;
  int wx = sigWidth(x), wy = sigWidth(y);
  if (op == F_ADD || op == F_SUB) {
    int m = std::max(s, t); if (std::max(wx + m - s, wy + m - t) + 1 > 53) return false;
    r = mkFix(iBin(op == F_ADD ? I_ADD : I_SUB, shl64(x, m - s), shl64(y, m - t)), m); return true;
  }
  if (op == F_MUL) { if (wx + wy > 53 || s + t > 24 || (x.k == V_SINT && y.k == V_SINT && (wx > 20 || wy > 20))) return false; r = mkFix(iBin(I_MUL, x, y), s + t); return true; }
  if (op == F_DIV && y.k == V_INT && t == 0) { int64_t c = sval(y); if (c <= 0 || (c & (c - 1))) return false; int k = 0; while (c >> (k + 1)) k++; if (s + k > 24) return false; r = mkFix(x, s + k); return true; }
  return false;
}
// real leaf operations
static Val leafBin(int op, const Val &a, const Val &b) {
  auto lin = [&](const Val &v, uint32_t &l) { if (v.k == V_DBL) { if (!std::isfinite(dblOf(v))) return false; l = rConst(dblOf(v)); return true; } if (dn(v).kind == DN_LIN) { l = dn(v).a; return true; } return false; };
  int ka = a.k == V_DBL ? 0 : dn(a).kind, kb = b.k == V_DBL ? 0 : dn(b).kind;
  double ca = ka ? 0 : dblOf(a), cb = kb ? 0 : dblOf(b);
  if (ka == DN_RND || kb == DN_RND) return rnBin(op, a, b);
  if (op == F_SUB) {
    if (kb == DN_CORE || kb == DN_LIN) return leafBin(F_ADD, a, fUn(U_NEG, b));
    if (kb == 0) return leafBin(F_ADD, a, mkDbl(-cb));
    if (kb == DN_AFEXP && ka == 0) { DNode n = dn(b); n.d0 = ca - n.d0; n.d1 = -n.d1; return mkD(n); }
    if (kb == DN_AFCORE && ka == 0) { DNode n = dn(b); n.d0 = ca - n.d0; n.d1 = -n.d1; return mkD(n); }
  }
  // a constant reliability inside (-1,1) combined with a symbolic one is itself a (constant) core
  auto constCore = [&](double c) { bool neg = c < 0; return mkCore(coreOf(rConst(2 * std::atanh(std::fabs(c)))), neg); };
  auto inner = [](double c) { return std::fabs(c) > 1e-12 && std::fabs(c) < 1; };
  if (op == F_ADD || op == F_MUL) {
    if (ka == DN_CORE && kb == 0 && inner(cb)) return leafBin(op, a, constCore(cb));
    if (kb == DN_CORE && ka == 0 && inner(ca)) return leafBin(op, constCore(ca), b);
  }
  if (op == F_ADD) {
    uint32_t x, y;
    if (lin(a, x) && lin(b, y)) return mkLinV(rComb(x, 1, y, 1));
    if (ka == 0 && (kb == DN_AFEXP || kb == DN_AFCORE)) { DNode n = dn(b); n.d0 += ca; return mkD(n); }
    if (kb == 0 && (ka == DN_AFEXP || ka == DN_AFCORE)) { DNode n = dn(a); n.d0 += cb; return mkD(n); }
    if (ka == 0 && ca == 0) return b;
    if (kb == 0 && cb == 0) return a;
    if (ka == 0 && kb == DN_CORE) { DNode n; n.kind = DN_AFCORE; n.a = dn(b).a; n.d0 = ca; n.d1 = dn(b).s ? -1 : 1; return mkD(n); }
    if (kb == 0 && ka == DN_CORE) return leafBin(op, b, a);
    if (ka == DN_CORE && kb == DN_CORE) { DNode n; n.kind = DN_SUM2; n.a = dn(a).a; n.b = dn(b).a; n.s = dn(a).s | (dn(b).s << 1); return mkD(n); }
  }
  if (op == F_MUL) {
    if (ka == 0 && kb != 0) return leafBin(op, b, a);
    if (kb == 0) {
      if (cb == 1.0) return a;
      if (ka == DN_LIN) return mkLinV(rScale(dn(a).a, cb));
      if (ka == DN_CORE && cb == -1.0) { DNode n = dn(a); n.s ^= 1; return mkD(n); }
      if (ka == DN_AFEXP || ka == DN_AFCORE) { DNode n = dn(a); n.d0 *= cb; n.d1 *= cb; return mkD(n); }
      if (cb == 0) return mkDbl(0);
    }
    if (ka == DN_CORE && kb == DN_CORE) {
      uint32_t x = dn(a).a, y = dn(b).a; int s = dn(a).s ^ dn(b).s;
      if (x > y) std::swap(x, y);
      uint64_t key = ((uint64_t)x << 32) | y;
      auto it = prodIndex.find(key);
      uint32_t ci;
      if (it != prodIndex.end()) ci = it->second;
      else {
        double l1, h1, l2, h2; rBounds(cores[x].u, l1, h1); rBounds(cores[y].u, l2, h2);
        double m = std::min(std::max(std::fabs(l1), std::fabs(h1)), std::max(std::fabs(l2), std::fabs(h2)));
        ci = (uint32_t)cores.size();
        ratoms.push_back({R_LAM, -m, m, ci});
        uint32_t u = rAtomLin((uint32_t)ratoms.size() - 1);
        ratoms.push_back({R_ELOG, -m / 2 - 1e-9, 0, ci});
        uint32_t e = rAtomLin((uint32_t)ratoms.size() - 1);
        Core c; c.u = u; c.E = e; c.pa = (int)x; c.pb = (int)y;
        cores.push_back(c); prodIndex[key] = ci;
      }
      return mkCore(ci, s);
    }
  }
  if (op == F_DIV) {
    if (kb == 0 && cb != 0) { if (ka == DN_LIN) return mkLinV(rScale(dn(a).a, 1.0 / cb)); if (ka == DN_CORE && (cb == 1.0 || cb == -1.0)) { DNode n = dn(a); if (cb < 0) n.s ^= 1; return mkD(n); } }
    if (ka == DN_AFEXP && kb == DN_AFEXP && dn(a).a == dn(b).a) {
      const DNode p = dn(a), q = dn(b);
      if (p.d0 == 1 && p.d1 == -1 && q.d0 == 1 && q.d1 == 1) return mkCore(coreOf(p.a), 1);
      if (p.d0 == -1 && p.d1 == 1 && q.d0 == 1 && q.d1 == 1) return mkCore(coreOf(p.a), 0);
    }
    if (ka == DN_SUM2 && kb == DN_AFCORE) {
      const DNode p = dn(a), q = dn(b);
      const Core &pc = cores[q.a];
      if (pc.pa >= 0 && q.d0 == 1 && std::fabs(q.d1) == 1) {
        uint32_t x = std::min(p.a, p.b), y = std::max(p.a, p.b);
        int s1 = p.s & 1, s2 = (p.s >> 1) & 1;
        double sg = (s1 ^ s2) ? -1 : 1;
        if ((uint32_t)pc.pa == x && (uint32_t)pc.pb == y && q.d1 == sg) {
          // t = (s1 t1 + s2 t2)/(1 + s1 s2 t1 t2)
          Core A = cores[p.a], B = cores[p.b];
          uint32_t u = rComb(A.u, s1 ? -1 : 1, B.u, s2 ? -1 : 1);
          uint32_t E = rComb(rComb(A.E, 1, B.E, 1), 1, rComb(pc.E, 1, pc.u, sg / 2), -1);
          if (rlins[u].t.empty() && rlins[u].c == 0) return mkDbl(0);
          auto key = mix(mix(u, E), 77);
          static std::unordered_map<uint64_t, uint32_t> tadd;
          auto it = tadd.find(key); uint32_t ci;
          if (it != tadd.end()) ci = it->second; else { Core c; c.u = u; c.E = E; ci = (uint32_t)cores.size(); cores.push_back(c); tadd[key] = ci; }
          return mkCore(ci, 0);
        }
      }
    }
    if (ka == DN_AFCORE && kb == DN_AFCORE && dn(a).a == dn(b).a) {
      const DNode p = dn(a), q = dn(b);
      if (p.d0 == 1 && q.d0 == 1 && std::fabs(p.d1) == 1 && q.d1 == -p.d1) { DNode n; n.kind = DN_RATIO; n.a = p.a; n.s = p.d1 < 0; return mkD(n); }
    }
  }
  if (ka == DN_INT || kb == DN_INT) { Val r; if (fixBin(op, a, b, r)) return r; }
  auto opq = [](int k) { return k == 0 || k == DN_INT || k == DN_OPQ; };
  if (opq(ka) && opq(kb)) { DNode n; n.kind = DN_OPQ; n.a = op; n.va = a; n.vb = b; return mkD(n); }
  throw Unsupported{"real operation " + std::to_string(op) + " on " + showD(a) + " , " + showD(b)};
}
static Val leafUn(int op, const Val &a) {
  if (a.k == V_DBL) {
    double x = dblOf(a), r;
    switch (op) {
      case U_NEG: r = -x; break; case U_LOG: r = std::log(x); break; case U_EXP: r = std::exp(x); break; case U_SQRT: r = std::sqrt(x); break;
      case U_FABS: r = std::fabs(x); break; case U_TANH: r = std::tanh(x); break; case U_LOG1P: r = std::log1p(x); break; case U_FLOOR: r = std::floor(x); break;
      case U_CEIL: r = std::ceil(x); break; case U_ATANH: r = std::atanh(x); break; case U_EXPM1: r = std::expm1(x); break; default: r = std::cosh(x);
    }
    return mkDbl(r);
  }
  const DNode n = dn(a);
  if (n.kind == DN_RND && op != U_FABS) return rnUn(op, a);
  switch (op) {
    case U_NEG:
      if (n.kind == DN_LIN) return mkLinV(rScale(n.a, -1));
      if (n.kind == DN_CORE) { DNode q = n; q.s ^= 1; return mkD(q); }
      if (n.kind == DN_AFEXP || n.kind == DN_AFCORE) { DNode q = n; q.d0 = -q.d0; q.d1 = -q.d1; return mkD(q); }
      if (n.kind == DN_SUM2) { DNode q = n; q.s ^= 3; return mkD(q); }
      if (n.kind == DN_INT) { Val r; if (fixBin(F_SUB, mkDbl(0), a, r)) return r; }
      if (n.kind == DN_INT || n.kind == DN_OPQ) return leafBin(F_MUL, a, mkDbl(-1));
      break;
    case U_FABS: { BId p = fCmp(2, a, mkDbl(0)); bool v = decideHook(p); return v ? a : leafUn(U_NEG, a); }
    case U_EXP: if (n.kind == DN_LIN) { DNode q; q.kind = DN_AFEXP; q.a = n.a; q.d0 = 0; q.d1 = 1; return mkD(q); } break;
    case U_EXPM1: if (n.kind == DN_LIN) { DNode q; q.kind = DN_AFEXP; q.a = n.a; q.d0 = -1; q.d1 = 1; return mkD(q); } break;
    case U_TANH: if (n.kind == DN_LIN) return mkCore(coreOf(rScale(n.a, 2)), 0); break;
    case U_ATANH: if (n.kind == DN_CORE) return mkLinV(rScale(cores[n.a].u, n.s ? -0.5 : 0.5)); break;
    case U_LOG1P: if (n.kind == DN_CORE) return mkLinV(rComb(cores[n.a].E, 1, cores[n.a].u, n.s ? -0.5 : 0.5)); break;
    case U_LOG:
      if (n.kind == DN_AFCORE && n.d0 == 1 && std::fabs(n.d1) == 1) return mkLinV(rComb(cores[n.a].E, 1, cores[n.a].u, n.d1 * 0.5));
      if (n.kind == DN_RATIO) return mkLinV(rScale(cores[n.a].u, n.s ? -1 : 1));
      break;
  }
  throw Unsupported{"real function " + std::to_string(op) + " on " + showD(a)};
}
static Val fUnR(int op, Val a, int &budget) {
  if (a.k == V_DBL) return leafUn(op, a);
  if (isSG(a)) { if (op == U_NEG) return mkSG(bnot(dn(a).a), dn(a).d0); if (op == U_FABS) return mkDbl(dn(a).d0); }
  BId c;
  if (condOf(a, c)) {
    if (--budget < 0) { bool v = decideHook(c); return fUnR(op, restrictD(a, c, v), budget); }
    Val t = fUnR(op, restrictD(a, c, true), budget), f = fUnR(op, restrictD(a, c, false), budget);
    return iteD(c, t, f);
  }
  return leafUn(op, a);
}
Val fUn(int op, const Val &a) {
  if (a.k == V_UNDEF) return Val();
  if (a.k == V_DBL) { Val r = leafUn(op, a); if (a.w == 32) { r = mkDbl((double)(float)dblOf(r)); r.w = 32; } return r; }
  int budget = g_leafcap; return fUnR(op, normD(a), budget);
}
static bool cmpConc(int pred, double x, double y) {
  bool un = std::isnan(x) || std::isnan(y);
  switch (pred) {
    case 0: return false; case 1: return x == y; case 2: return x > y; case 3: return x >= y; case 4: return x < y; case 5: return x <= y;
    case 6: return !un && x != y; case 7: return !un; case 8: return un; case 9: return un || x == y; case 10: return un || x > y; case 11: return un || x >= y;
    case 12: return un || x < y; case 13: return un || x <= y; case 14: return un || x != y; default: return true;
  }
}
static BId leafGt(const Val &a, const Val &b, bool strict);
// bit-precise floating-point atoms over int-valued inputs: kind 0..15 comparison, 16 out of range of a w-bit int, 64+k bit k of the conversion
struct FpAtom { int kind; Val a, b; unsigned w; bool sgn; };
static std::vector<FpAtom> fpAtoms;
static std::unordered_multimap<uint64_t, uint32_t> fpIndex;
static BId fpAtom(int kind, const Val &a, const Val &b, unsigned w, bool sgn) {
  uint64_t h = mix(mix(mix((uint64_t)kind, a.p * 2 + a.k), b.p * 2 + b.k), w * 2 + sgn);
  auto r = fpIndex.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) { const FpAtom &f = fpAtoms[atoms[it->second].a]; if (f.kind == kind && f.a == a && f.b == b && f.w == w && f.sgn == sgn) return batom(it->second); }
  fpAtoms.push_back({kind, a, b, w, sgn});
  uint32_t id = newAtom(AT_FP, (uint32_t)fpAtoms.size() - 1, 0);
  fpIndex.insert({h, id});
  return batom(id);
}
static bool isOpq(const Val &v) { return v.k == V_SDBL && (dn(v).kind == DN_INT || dn(v).kind == DN_OPQ); }
// comparison of int-valued doubles with one another or with an integral constant
static bool intCmp(int pred, const Val &a, const Val &b, BId &out) {
  Val x, y; int s, t; if (!fixOf(a, x, s) || !fixOf(b, y, t)) return false;
  int m = std::max(s, t); if (std::max(sigWidth(x) + m - s, sigWidth(y) + m - t) > 62) return false;
  out = iCmp(pred, shl64(x, m - s), shl64(y, m - t)); return true;
}
static BId leafCmp(int pred, const Val &a, const Val &b) {
  if (a.k == V_DBL && b.k == V_DBL) return cmpConc(pred, dblOf(a), dblOf(b)) ? BTRUE : BFALSE;
  if ((a.k == V_DBL && std::isnan(dblOf(a))) || (b.k == V_DBL && std::isnan(dblOf(b)))) return pred >= 8 ? BTRUE : BFALSE;
  switch (pred) {
    case 0: return BFALSE; case 7: return BTRUE; case 8: return BFALSE; case 15: return BTRUE;
    case 1: case 9: case 6: case 14: {
      bool eqp = pred == 1 || pred == 9;
      if (a == b) return eqp ? BTRUE : BFALSE;
      if (isRnd(a) || isRnd(b)) { BId c = rrEqV(a, b); return eqp ? c : bnot(c); }
      if (isOpq(a) || isOpq(b)) { BId c; if (intCmp(P_EQ, a, b, c)) return eqp ? c : bnot(c); return fpAtom(pred, a, b, 0, false); }
      return eqp ? BFALSE : BTRUE;
    }
    case 2: case 10: return leafGt(a, b, true);
    case 3: case 11: return leafGt(a, b, false);
    case 4: case 12: return leafGt(b, a, true);
    default: return leafGt(b, a, false);
  }
}
static BId leafGt(const Val &a, const Val &b, bool strict) {
  if (a == b) return strict ? BFALSE : BTRUE;
  if (isRnd(a) || isRnd(b)) return rrGtV(a, b, strict);
  int ka = a.k == V_DBL ? 0 : dn(a).kind, kb = b.k == V_DBL ? 0 : dn(b).kind;
  if (isOpq(a) || isOpq(b)) {
    BId c; if (intCmp(strict ? P_SGT : P_SGE, a, b, c)) return c;
    // a OP b with b a non-integral constant
    if (ka == DN_INT && kb == 0 && std::isfinite(dblOf(b)) && intCmp(P_SGT, a, mkDbl(std::ldexp(std::floor(std::ldexp(dblOf(b), dn(a).b)), -(int)dn(a).b)), c)) return c;
    if (kb == DN_INT && ka == 0 && std::isfinite(dblOf(a)) && intCmp(P_SLT, b, mkDbl(std::ldexp(std::ceil(std::ldexp(dblOf(a), dn(b).b)), -(int)dn(b).b)), c)) return c;
    return fpAtom(strict ? 2 : 3, a, b, 0, false);
  }
  if ((ka == 0 || ka == DN_LIN) && (kb == 0 || kb == DN_LIN)) {
    if (ka == 0 && std::isinf(dblOf(a))) return dblOf(a) > 0 ? BTRUE : BFALSE;
    if (kb == 0 && std::isinf(dblOf(b))) return dblOf(b) > 0 ? BFALSE : BTRUE;
    uint32_t x = ka ? dn(a).a : rConst(dblOf(a)), y = kb ? dn(b).a : rConst(dblOf(b));
    return rPos(rComb(x, 1, y, -1), strict);
  }
  if ((ka == 0 || ka == DN_CORE) && (kb == 0 || kb == DN_CORE)) {
    if (kb == 0) {
      double c = dblOf(b);
      BId p; 
      if (c >= 1.0) return BFALSE;
      if (c <= -1.0) return BTRUE;
      if (c == 0) { p = corePos(dn(a).a); return dn(a).s ? bnot(p) : p; }
      uint32_t u = rScale(cores[dn(a).a].u, dn(a).s ? -1 : 1);
      return rPos(rComb(u, 1, rConst(0), 0, -2 * std::atanh(c)), strict);
    }
    if (ka == 0) {
      double c = dblOf(a);
      if (c >= 1.0) return BTRUE;
      if (c <= -1.0) return BFALSE;
      if (c == 0) { BId p = corePos(dn(b).a); return dn(b).s ? p : bnot(p); }
      uint32_t u = rScale(cores[dn(b).a].u, dn(b).s ? 1 : -1);
      return rPos(rComb(u, 1, rConst(0), 0, 2 * std::atanh(c)), strict);
    }
    const DNode p = dn(a), q = dn(b);
    if (p.a == q.a) { BId t = corePos(p.a); return p.s ? bnot(t) : t; } // t vs -t
    return rPos(rComb(cores[p.a].u, p.s ? -1 : 1, cores[q.a].u, q.s ? 1 : -1), strict);
  }
  if (ka == DN_AFEXP && kb == 0) { // d0 + d1*exp(l) > c
    const DNode p = dn(a); double t = (dblOf(b) - p.d0) / p.d1;
    if (t <= 0) return p.d1 > 0 ? BTRUE : BFALSE;
    BId g = rPos(rComb(p.a, 1, rConst(0), 0, -std::log(t)), strict);
    return p.d1 > 0 ? g : bnot(g);
  }
  if (ka == 0 && kb == DN_AFEXP) return bnot(leafGt(b, a, !strict));
  throw Unsupported{"real comparison of " + showD(a) + " , " + showD(b)};
}
static BId fCmpR(int pred, Val a, Val b, int &budget) {
  if (a.k == V_DBL && b.k == V_DBL) return leafCmp(pred, a, b);
  BId c;
  if (condOf(a, c) || condOf(b, c)) {
    if (--budget < 0) { bool v = decideHook(c); return fCmpR(pred, restrictD(a, c, v), restrictD(b, c, v), budget); }
    BId t = fCmpR(pred, restrictD(a, c, true), restrictD(b, c, true), budget);
    BId f = fCmpR(pred, restrictD(a, c, false), restrictD(b, c, false), budget);
    return bite(c, t, f);
  }
  return leafCmp(pred, a, b);
}
BId fCmp(int pred, const Val &a, const Val &b) {
  if (a.k == V_DBL && b.k == V_DBL) return leafCmp(pred, a, b);
  int budget = g_leafcap; return fCmpR(pred, normD(a), normD(b), budget);
}
Val rInput(double lo, double hi, int &idx) {
  idx = nReals++;
  ratoms.push_back({R_IN, lo, hi, (uint32_t)idx});
  return mkLinV(rAtomLin((uint32_t)ratoms.size() - 1));
}
int rinputs() { return nReals; }
// ints <-> doubles
static bool twoForms(const std::vector<BId> &b, std::vector<BId> &forms) {
  forms.clear();
  for (BId x : b) { if (bconst(x)) continue; BId f = x & ~1u; if (std::find(forms.begin(), forms.end(), f) == forms.end()) { forms.push_back(f); if (forms.size() > 6) return false; } }
  return true;
}
Val fFromInt(const Val &a, bool sgn) {
  if (a.k == V_UNDEF) return Val();
  if (a.k == V_INT) return mkDbl(sgn ? (double)sval(a) : (double)a.p);
  std::vector<BId> b = sbits(a), forms;
  for (auto &x : b) x = bred(x);
  if (!twoForms(b, forms)) { // represent as an int-valued double
    DNode n; n.kind = DN_INT; n.va = mkSInt(b); n.s = sgn; return mkD(n);
  }
  std::vector<Val> leaf(1u << forms.size());
  for (unsigned m = 0; m < leaf.size(); m++) {
    uint64_t v = 0;
    for (size_t i = 0; i < b.size(); i++) {
      bool bit; if (bconst(b[i])) bit = b[i] & 1; else { size_t k = std::find(forms.begin(), forms.end(), b[i] & ~1u) - forms.begin(); bit = ((m >> k) & 1) ^ (b[i] & 1); }
      if (bit) v |= 1ull << i;
    }
    Val c = mkInt((unsigned)b.size(), v);
    leaf[m] = mkDbl(sgn ? (double)sval(c) : (double)c.p);
  }
  for (size_t k = forms.size(); k-- > 0;) { for (unsigned m = 0; m < (1u << k); m++) leaf[m] = iteD(forms[k], leaf[m | (1u << k)], leaf[m]); }
  return leaf[0];
}
static Val fToIntR(const Val &a, unsigned w, bool sgn, int &budget, BId g) {
  if (a.k == V_DBL) {
    double d = std::trunc(dblOf(a));
    double lo = sgn ? -std::ldexp(1.0, w - 1) : 0, hi = std::ldexp(1.0, sgn ? w - 1 : w);
    if (!(d >= lo && d < hi)) { reportUB("floating-point value out of range in conversion to integer", g); return mkInt(w, sgn ? 1ull << (w - 1) : 0); }
    return mkInt(w, sgn ? (uint64_t)(int64_t)d : (uint64_t)d);
  }
  BId c;
  if (condOf(a, c)) {
    if (--budget < 0) { bool v = decideHook(c); return fToIntR(restrictD(a, c, v), w, sgn, budget, g); }
    Val t = fToIntR(restrictD(a, c, true), w, sgn, budget, band(g, c)), f = fToIntR(restrictD(a, c, false), w, sgn, budget, band(g, bnot(c)));
    return iteVal(c, t, f, 2);
  }
  if (dn(a).kind == DN_INT) {
    Val n; int sc; fixOf(a, n, sc);
    if (dn(a).b == 0 && dn(a).va.w == w && dn(a).s == sgn) return dn(a).va;
    Val neg = mkInt(64, 0);
    if (sc) { BId ng = iCmp(P_SLT, n, mkInt(64, 0)); Val q = iBin(I_ASHR, n, mkInt(64, sc)); if (ng != BFALSE) { Val m = iBin(I_SUB, mkInt(64, 0), iBin(I_ASHR, iBin(I_SUB, mkInt(64, 0), n), mkInt(64, sc))); n = iteVal(ng, m, q, 2); } else n = q; }
    if (w < 64) {
      int64_t lo = sgn ? -(1ll << (w - 1)) : 0, hi = sgn ? (1ll << (w - 1)) - 1 : (1ll << w) - 1;
      BId oor = band(g, bor(iCmp(P_SLT, n, mkInt(64, (uint64_t)lo)), iCmp(P_SGT, n, mkInt(64, (uint64_t)hi))));
      if (bred(oor) != BFALSE && satWith(oor) != 0) reportUB("floating-point value out of range in conversion to integer", oor);
      return iTrunc(n, w);
    }
    return n;
  }
  if (dn(a).kind == DN_OPQ && w <= 64) {
    BId oor = band(g, fpAtom(16, a, a, w, sgn));
    if (bred(oor) != BFALSE && satWith(oor) != 0) reportUB("floating-point value out of range in conversion to integer", oor);
    std::vector<BId> bits(w); for (unsigned i = 0; i < w; i++) bits[i] = fpAtom(64 + (int)i, a, a, w, sgn);
    return mkSInt(bits);
  }
  throw Unsupported{"real to int"};
}
Val fToInt(const Val &a, unsigned w, bool sgn) { if (a.k == V_UNDEF) return Val(); int budget = g_leafcap; return fToIntR(normD(a), w, sgn, budget, BTRUE); }

// ---------------------------------------------------------------- ints
static std::vector<std::vector<BId>> sints(1);
static std::unordered_multimap<uint64_t, uint32_t> sintIndex;
Val mkSInt(const std::vector<BId> &bits) {
  bool conc = true; uint64_t v = 0;
  for (size_t i = 0; i < bits.size(); i++) { if (!bconst(bits[i])) { conc = false; break; } if (bits[i] & 1) v |= 1ull << i; }
  if (conc) return mkInt((unsigned)bits.size(), v);
  uint64_t h = hashAtoms(bits.data(), bits.size());
  auto r = sintIndex.equal_range(h);
  Val o; o.k = V_SINT; o.w = (uint8_t)bits.size();
  for (auto it = r.first; it != r.second; ++it) if (sints[it->second] == bits) { o.p = it->second; return o; }
  sints.push_back(bits); sintIndex.emplace(h, (uint32_t)sints.size() - 1);
  o.p = sints.size() - 1; return o;
}
const std::vector<BId> &sbits(const Val &v) { return sints[v.p]; }
std::vector<BId> bitsOf(const Val &v) {
  if (v.k == V_SINT) return sints[v.p];
  if (v.k != V_INT) throw Unsupported{"bits of non-integer"};
  std::vector<BId> b(v.w); for (unsigned i = 0; i < v.w; i++) b[i] = (v.p >> i) & 1; return b;
}
Val mkBool(BId b) { if (bconst(b)) return mkInt(1, b); return mkSInt(std::vector<BId>{b}); }
typedef std::vector<BId> BV;
static BV addBV(const BV &a, const BV &b, BId cin, BId *ovS = nullptr) {
  BV r(a.size()); BId c = cin, cp = cin;
  for (size_t i = 0; i < a.size(); i++) {
    BId x = bxor(a[i], b[i]); r[i] = balias(bxor(x, c)); cp = c;
    if (i + 1 < a.size() || ovS) c = bmaj(a[i], b[i], c);
  }
  if (ovS) *ovS = bxor(c, cp);
  return r;
}
static BV notBV(BV a) { for (auto &x : a) x = bnot(x); return a; }
static BV negBV(const BV &a) { BV z(a.size(), BFALSE); return addBV(z, notBV(a), BTRUE); }
static BId ultBV(const BV &a, const BV &b, bool sgn) {
  BId lt = BFALSE;
  for (size_t i = 0; i < a.size(); i++) {
    BId x = a[i], y = b[i];
    if (sgn && i + 1 == a.size()) std::swap(x, y);
    lt = bmaj(bnot(x), y, lt);
  }
  return lt;
}
static BId eqBV(const BV &a, const BV &b) {
  // collect distinct difference forms first: linear-only conjunctions stay small
  BId r = BTRUE;
  std::vector<BId> ds;
  for (size_t i = 0; i < a.size(); i++) { BId d = bred(bxor(a[i], b[i])); if (d == BTRUE) return BFALSE; if (d != BFALSE && std::find(ds.begin(), ds.end(), d) == ds.end()) ds.push_back(d); }
  for (BId d : ds) { if (std::find(ds.begin(), ds.end(), bnot(d)) != ds.end()) return BFALSE; r = band(r, bnot(d)); }
  return r;
}
static BV muxBV(BId c, const BV &a, const BV &b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = bmux(c, a[i], b[i]); return r; }
// division by a constant: quotient and remainder are auxiliary bits defined by a = q*d + r, r < d
static void cdivBV(const BV &a, uint64_t d, BV &q, BV &r) {
  static std::map<std::pair<BV, uint64_t>, std::pair<BV, BV>> memo;
  auto it = memo.find({a, d}); if (it != memo.end()) { q = it->second.first; r = it->second.second; return; }
  size_t w = a.size(), l = 64 - __builtin_clzll(d), n = a.size();
  while (n && a[n - 1] == BFALSE) n--;              // significant bits
  q.assign(w, BFALSE); r.assign(w, BFALSE);
  if (n + 1 < l) { r = a; return; }
  for (size_t i = 0; i + l < n + 1; i++) q[i] = bnewAux();
  for (size_t i = 0; i < l && i < w; i++) r[i] = bnewAux();
  BV acc(w + l + 1, BFALSE), rr = r, aa = a, dd(l + 1, BFALSE), rs(r.begin(), r.begin() + std::min(l, w)); rr.resize(w + l + 1, BFALSE); aa.resize(w + l + 1, BFALSE); rs.resize(l + 1, BFALSE);
  for (size_t k = 0; k < l; k++) if ((d >> k) & 1) { BV t(w + l + 1, BFALSE); for (size_t i = 0; i < w; i++) t[i + k] = q[i]; acc = addBV(acc, t, BFALSE); dd[k] = BTRUE; }
  acc = addBV(acc, rr, BFALSE);
  for (size_t i = 0; i < acc.size(); i++) { BId x = bnot(bxor(acc[i], aa[i])); if (x != BTRUE) defAx.push_back(x); }
  defAx.push_back(ultBV(rs, dd, false));
  memo[{a, d}] = {q, r};
}
static void udivBV(const BV &a, const BV &b, BV &q, BV &r) {
  size_t w = a.size(); q.assign(w, BFALSE); BV rem(w + 1, BFALSE); BV bb = b; bb.push_back(BFALSE);
  for (size_t i = w; i-- > 0;) {
    for (size_t j = w; j > 0; j--) rem[j] = rem[j - 1];
    rem[0] = a[i];
    BId ge = bnot(ultBV(rem, bb, false));
    q[i] = ge;
    BV d = addBV(rem, notBV(bb), BTRUE);
    rem = muxBV(ge, d, rem);
  }
  r.assign(rem.begin(), rem.begin() + w);
}
Val iBin(int op, const Val &a, const Val &b) {
  if (a.k == V_UNDEF || b.k == V_UNDEF) return Val();
  unsigned w = a.w;
  if (a.k == V_INT && b.k == V_INT) {
    uint64_t x = a.p, y = b.p; int64_t sx = sval(a), sy = sval(b);
    switch (op) {
      case I_ADD: return mkInt(w, x + y); case I_SUB: return mkInt(w, x - y); case I_MUL: return mkInt(w, x * y);
      case I_UDIV: case I_SDIV: case I_UREM: case I_SREM:
        if (y == 0) { reportUB("integer division by zero", BTRUE); return mkInt(w, 0); }
        if ((op == I_SDIV || op == I_SREM) && sy == -1) { if (sx == (w >= 64 ? INT64_MIN : -(1ll << (w - 1)))) { reportUB("signed division overflow", BTRUE); return mkInt(w, 0); } }
        if (op == I_UDIV) return mkInt(w, x / y); if (op == I_SDIV) return mkInt(w, (uint64_t)(sx / sy)); if (op == I_UREM) return mkInt(w, x % y); return mkInt(w, (uint64_t)(sx % sy));
      case I_SHL: case I_LSHR: case I_ASHR:
        if (y >= w) { reportUB("shift amount out of range", BTRUE); return mkInt(w, 0); }
        if (op == I_SHL) return mkInt(w, x << y); if (op == I_LSHR) return mkInt(w, x >> y); return mkInt(w, (uint64_t)(sx >> y));
      case I_AND: return mkInt(w, x & y); case I_OR: return mkInt(w, x | y); default: return mkInt(w, x ^ y);
    }
  }
  BV A = bitsOf(a), B = bitsOf(b), R(w);
  switch (op) {
    case I_ADD: return mkSInt(addBV(A, B, BFALSE));
    case I_SUB: return mkSInt(addBV(A, notBV(B), BTRUE));
    case I_AND: for (unsigned i = 0; i < w; i++) R[i] = band(A[i], B[i]); return mkSInt(R);
    case I_OR: for (unsigned i = 0; i < w; i++) R[i] = bor(A[i], B[i]); return mkSInt(R);
    case I_XOR: for (unsigned i = 0; i < w; i++) R[i] = bxor(A[i], B[i]); return mkSInt(R);
    case I_MUL: {
      if (a.k == V_INT) std::swap(A, B);
      // A symbolic multiplicand, B multiplier
      BV acc(w, BFALSE);
      for (unsigned i = 0; i < w; i++) {
        if (B[i] == BFALSE) continue;
        BV t(w, BFALSE); for (unsigned j = i; j < w; j++) t[j] = band(A[j - i], B[i]);
        acc = addBV(acc, t, BFALSE);
      }
      return mkSInt(acc);
    }
    case I_SHL: case I_LSHR: case I_ASHR: {
      if (b.k == V_INT) {
        unsigned s = (unsigned)b.p; if (s >= w) { reportUB("shift amount out of range", BTRUE); return mkInt(w, 0); }
        for (unsigned i = 0; i < w; i++) {
          if (op == I_SHL) R[i] = i >= s ? A[i - s] : BFALSE;
          else R[i] = i + s < w ? A[i + s] : (op == I_ASHR ? A[w - 1] : BFALSE);
        }
        return mkSInt(R);
      }
      BV cur = A;
      for (unsigned k = 0; (1u << k) < w; k++) {
        unsigned s = 1u << k; BV t(w);
        for (unsigned i = 0; i < w; i++) { if (op == I_SHL) t[i] = i >= s ? cur[i - s] : BFALSE; else t[i] = i + s < w ? cur[i + s] : (op == I_ASHR ? cur[w - 1] : BFALSE); }
        cur = muxBV(B[k], t, cur);
      }
      BV lim = bitsOf(mkInt(w, w));
      BId bad = bnot(ultBV(B, lim, false));
      if (bad != BFALSE) reportUB("shift amount out of range", bad);
      return mkSInt(cur);
    }
    case I_UDIV: case I_UREM: case I_SDIV: case I_SREM: {
      if (b.k == V_INT && b.p && !(b.p & (b.p - 1)) && !((op == I_SDIV || op == I_SREM) && sval(b) <= 0)) { // a power of two: shifts
        unsigned k = __builtin_ctzll(b.p); BV t = A; BId top = BFALSE;
        if (op == I_SDIV || op == I_SREM) { BV bias(w, BFALSE); for (unsigned i = 0; i < k; i++) bias[i] = A[w - 1]; t = addBV(A, bias, BFALSE); top = t[w - 1]; }
        BV q(w, top), z(w, BFALSE); for (unsigned i = 0; i + k < w; i++) q[i] = t[i + k];
        if (op == I_UDIV || op == I_SDIV) return mkSInt(q);
        if (op == I_UREM) { for (unsigned i = 0; i < k; i++) z[i] = A[i]; return mkSInt(z); }
        for (unsigned i = k; i < w; i++) z[i] = t[i];
        return mkSInt(addBV(A, notBV(z), BTRUE));
      }
      BId z = eqBV(B, BV(w, BFALSE));
      if (z != BFALSE) reportUB("integer division by zero", z);
      bool sg = op == I_SDIV || op == I_SREM;
      BV a2 = A, b2 = B;
      BId sa = A[w - 1], sb = B[w - 1];
      if (sg) { a2 = muxBV(sa, negBV(A), A); b2 = muxBV(sb, negBV(B), B); }
      BV q, r; uint64_t dv = 0; bool dc = true;
      for (unsigned i = 0; i < w; i++) { if (!bconst(b2[i])) dc = false; else if (b2[i] == BTRUE) dv |= 1ull << i; }
      if (dc && dv) cdivBV(a2, dv, q, r); else udivBV(a2, b2, q, r);
      if (op == I_UDIV) return mkSInt(q);
      if (op == I_UREM) return mkSInt(r);
      if (op == I_SDIV) { BId s = bxor(sa, sb); return mkSInt(muxBV(s, negBV(q), q)); }
      return mkSInt(muxBV(sa, negBV(r), r));
    }
  }
  throw Unsupported{"int op"};
}
BId iCmp(int pred, const Val &a, const Val &b) {
  if (a.k == V_INT && b.k == V_INT) {
    uint64_t x = a.p, y = b.p; int64_t sx = sval(a), sy = sval(b); bool r;
    switch (pred) { case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break;
      case P_SGT: r = sx > sy; break; case P_SGE: r = sx >= sy; break; case P_SLT: r = sx < sy; break; default: r = sx <= sy; }
    return r;
  }
  BV A = bitsOf(a), B = bitsOf(b);
  switch (pred) {
    case P_EQ: return eqBV(A, B); case P_NE: return bnot(eqBV(A, B));
    case P_UGT: return ultBV(B, A, false); case P_UGE: return bnot(ultBV(A, B, false)); case P_ULT: return ultBV(A, B, false); case P_ULE: return bnot(ultBV(B, A, false));
    case P_SGT: return ultBV(B, A, true); case P_SGE: return bnot(ultBV(A, B, true)); case P_SLT: return ultBV(A, B, true); default: return bnot(ultBV(B, A, true));
  }
}
Val iExt(const Val &v, unsigned w, bool sgn) {
  if (v.k == V_UNDEF) return Val();
  if (v.k == V_INT) return mkInt(w, sgn ? (uint64_t)sval(v) : v.p);
  BV b = bitsOf(v); b.resize(w, sgn ? b.back() : BFALSE); return mkSInt(b);
}
Val iTrunc(const Val &v, unsigned w) {
  if (v.k == V_UNDEF) return Val();
  if (v.k == V_INT) return mkInt(w, v.p);
  BV b = bitsOf(v); b.resize(w); return mkSInt(b);
}
// policy: 0 only small ints ({-1,0,1} range or identical), 1 also any non-pointer-like ints, 2 anything int
Val iteVal(BId c, const Val &a, const Val &b, int policy) {
  if (c == BTRUE) return a;
  if (c == BFALSE) return b;
  if (a == b) return a;
  if (a.k == V_UNDEF || b.k == V_UNDEF) return Val();
  if ((a.k == V_DBL || a.k == V_SDBL) && (b.k == V_DBL || b.k == V_SDBL)) {
    Val r = iteD(c, normD(a), normD(b));
    if (policy < 2 && leavesOf(r) > (policy ? 64u : 8u)) throw MergeFail{};
    return r;
  }
  if ((a.k == V_INT || a.k == V_SINT) && (b.k == V_INT || b.k == V_SINT) && a.w == b.w) {
    if (policy == 0) {
      auto small = [](const Val &v) { if (v.k == V_INT) { int64_t s = sval(v); return s >= -1 && s <= 1; } const BV &x = sbits(v); for (size_t i = 2; i < x.size(); i++) if (x[i] != x[1]) return false; return true; };
      if (a.w > 1 && !(small(a) && small(b))) throw MergeFail{};
    } else if (policy == 1 && a.w == 64) {
      auto ptr = [](const Val &v) { return v.k == V_INT && v.p >= (1ull << 32) && sval(v) > 0; };
      if (ptr(a) || ptr(b)) throw MergeFail{};
    }
    return mkSInt(muxBV(c, bitsOf(a), bitsOf(b)));
  }
  throw MergeFail{};
}

// ---------------------------------------------------------------- path condition
static std::vector<BId> pc;
static std::vector<size_t> pcMarks;
struct Row { uint32_t pivot; BId rest; };
static std::vector<Row> rows;
static std::vector<size_t> rowMarks;
static std::unordered_map<uint32_t, BId> pivotMap;
static bool pcFalse = false;
static std::vector<char> falseMarks;

BId bred(BId b) {
  if (rows.empty() || bconst(b)) return b;
  BId cur = b;
  // rows are not fully reduced: iterate (pivot is the highest atom of its row, so this terminates)
  for (;;) {
    size_t n; const uint32_t *p = linAtoms(cur, n);
    bool hit = false;
    for (size_t i = n; i-- > 0;) {
      auto it = pivotMap.find(p[i]);
      if (it != pivotMap.end()) { BId rest = it->second; uint32_t at = p[i]; cur = bxor(bxor(cur, batom(at)), rest); hit = true; break; }
    }
    if (!hit) return cur;
  }
}
static void addLin(BId b, int depth) { // b == 1
  BId r = bred(b);
  if (r == BTRUE) return;
  if (r == BFALSE) { pcFalse = true; return; }
  size_t n; const uint32_t *p = linAtoms(r, n);
  uint32_t piv = p[n - 1];
  // atom piv = rest ^ ... : r = piv ^ others ^ const = 1  => piv = others ^ const ^ 1
  BId rest = bnot(bxor(r, batom(piv)));
  std::vector<uint32_t> at(p, p + n);
  rows.push_back({piv, rest});
  pivotMap[piv] = rest;
  if (depth > 6) return;
  // learn literals implied through AND atoms
  for (uint32_t q : at) {
    if (atoms[q].kind != AT_AND) continue;
    BId x = atoms[q].a, y = atoms[q].b;
    BId others = bxor(r, batom(q)); // r = and(x,y) ^ others == 1
    BId o = others;
    if (o == BFALSE) { addLin(x, depth + 1); addLin(y, depth + 1); }
    else if (o == x) { addLin(x, depth + 1); addLin(bnot(y), depth + 1); }        // xy^x = x(1^y)
    else if (o == y) { addLin(y, depth + 1); addLin(bnot(x), depth + 1); }
    else if (o == bnot(bxor(x, y))) { addLin(bnot(x), depth + 1); addLin(bnot(y), depth + 1); } // (1^x)(1^y)
    if (at.size() > 4) break;
  }
}
void pcPush() { pcMarks.push_back(pc.size()); rowMarks.push_back(rows.size()); falseMarks.push_back(pcFalse); }
static size_t synced = 0;
static z3::context *Z = nullptr;
static z3::solver *S = nullptr;
static std::vector<z3::expr *> zAtom, zReal;
void pcPop() {
  size_t m = pcMarks.back(); pcMarks.pop_back();
  if (synced > m) { S->pop((unsigned)(synced - m)); synced = m; }
  pc.resize(m);
  size_t r = rowMarks.back(); rowMarks.pop_back();
  while (rows.size() > r) { pivotMap.erase(rows.back().pivot); rows.pop_back(); }
  pcFalse = falseMarks.back(); falseMarks.pop_back();
}
void pcAdd(BId b) { if (b == BTRUE) return; pc.push_back(b); if (b == BFALSE) pcFalse = true; else addLin(b, 0); }
bool pcConsistent() { return !pcFalse; }
size_t pcSize() { return pc.size(); }
std::vector<BId> pcList() { return pc; }

static z3::expr zdbl(double d) {
  int e; double m = std::frexp(d, &e);
  int64_t mi = (int64_t)std::ldexp(m, 53); e -= 53;
  while (mi && !(mi & 1)) { mi >>= 1; e++; }
  std::string s = std::to_string(mi);
  z3::expr r = Z->real_val(s.c_str());
  if (e == 0 || mi == 0) return r;
  z3::expr p = Z->real_val(1); 
  std::string pw = "1"; // 2^|e| as decimal
  int k = std::abs(e);
  std::vector<int> dig{1};
  for (int i = 0; i < k; i++) { int c = 0; for (auto &x : dig) { x = x * 2 + c; c = x / 10; x %= 10; } if (c) dig.push_back(c); }
  pw.clear(); for (size_t i = dig.size(); i-- > 0;) pw += char('0' + dig[i]);
  if (e > 0) return r * Z->real_val(pw.c_str());
  return Z->real_val((s + "/" + pw).c_str());
}
static z3::expr zRealAtom(uint32_t a);
static z3::expr zRLin(uint32_t l) {
  z3::expr e = zdbl(rlins[l].c);
  for (auto &t : rlins[l].t) { z3::expr v = zRealAtom(t.first); e = e + (t.second == 1 ? v : zdbl(t.second) * v); }
  return e;
}
static std::vector<z3::expr> pendingAx;
static z3::expr zabs(z3::expr e) { return z3::ite(e >= 0, e, -e); }
static z3::expr zB(BId b);
static void zDefs();
static z3::expr zRealAtom(uint32_t a) {
  if (zReal.size() <= a) zReal.resize(ratoms.size() + 16, nullptr);
  if (zReal[a]) return *zReal[a];
  std::string nm = "r" + std::to_string(a);
  zReal[a] = new z3::expr(Z->real_const(nm.c_str()));
  z3::expr v = *zReal[a];
  RAtom ra = ratoms[a];
  pendingAx.push_back(v >= zdbl(ra.lo)); pendingAx.push_back(v <= zdbl(ra.hi));
  if (ra.kind == R_LAM) {
    const Core c = cores[ra.a];
    z3::expr u1 = zRLin(cores[c.pa].u), u2 = zRLin(cores[c.pb].u);
    pendingAx.push_back(zabs(v) <= zabs(u1)); pendingAx.push_back(zabs(v) <= zabs(u2));
    pendingAx.push_back(z3::implies((u1 > 0 && u2 > 0) || (u1 < 0 && u2 < 0), v > 0));
    pendingAx.push_back(z3::implies((u1 > 0 && u2 < 0) || (u1 < 0 && u2 > 0), v < 0));
    // |lambda| >= min(|u1|,|u2|) - log 2
    z3::expr mn = z3::ite(zabs(u1) < zabs(u2), zabs(u1), zabs(u2));
    pendingAx.push_back(zabs(v) >= mn - zdbl(0.6931471805599454));
  }
  if (ra.kind == R_ELOG) {
    const Core c = cores[ra.a];
    z3::expr u = zRLin(c.u);
    pendingAx.push_back(v <= 0); pendingAx.push_back(v <= -zabs(u) / 2 + zdbl(0.6931471805599454)); pendingAx.push_back(v >= -zabs(u) / 2);
  }
  return v;
}
static std::vector<uint32_t> rposSeen;
static bool fpSeen = false;
static z3::expr zbv(const Val &v) {
  if (v.k == V_INT) return Z->bv_val((uint64_t)v.p, v.w);
  std::vector<BId> b = bitsOf(v); z3::expr_vector p(*Z);
  for (size_t i = b.size(); i-- > 0;) p.push_back(z3::ite(zB(b[i]), Z->bv_val(1, 1), Z->bv_val(0, 1)));
  return z3::concat(p);
}
static z3::expr zrm(bool rtz) { return z3::expr(*Z, rtz ? Z3_mk_fpa_rtz(*Z) : Z3_mk_fpa_rne(*Z)); }
static z3::expr zfp(const Val &v);
static z3::expr zfpInt(DNode n) { n.b = 0; return zfp(mkD(n)); }
static z3::expr zfp(const Val &v) {
  z3::sort d64(*Z, Z3_mk_fpa_sort_double(*Z));
  if (v.k == V_DBL) return z3::expr(*Z, Z3_mk_fpa_numeral_double(*Z, dblOf(v), d64));
  static std::unordered_map<uint64_t, z3::expr *> memo;
  auto it = memo.find(v.p); if (it != memo.end()) return *it->second;
  const DNode n = dn(v); z3::expr r(*Z);
  if (n.kind == DN_INT && n.b) r = z3::expr(*Z, Z3_mk_fpa_div(*Z, zrm(false), zfpInt(n), zfp(mkDbl(std::ldexp(1.0, (int)n.b)))));
  else if (n.kind == DN_INT) { z3::expr b = zbv(n.va), rm = zrm(false); r = z3::expr(*Z, n.s ? Z3_mk_fpa_to_fp_signed(*Z, rm, b, d64) : Z3_mk_fpa_to_fp_unsigned(*Z, rm, b, d64)); }
  else if (n.kind == DN_ITE) r = z3::ite(zB(n.a), zfp(n.va), zfp(n.vb));
  else if (n.kind == DN_OPQ && n.a != F_REM) {
    z3::expr x = zfp(n.va), y = zfp(n.vb), rm = zrm(false);
    r = z3::expr(*Z, n.a == F_ADD ? Z3_mk_fpa_add(*Z, rm, x, y) : n.a == F_SUB ? Z3_mk_fpa_sub(*Z, rm, x, y) : n.a == F_MUL ? Z3_mk_fpa_mul(*Z, rm, x, y) : Z3_mk_fpa_div(*Z, rm, x, y));
  } else throw Unsupported{"floating-point term " + showD(v)};
  memo[v.p] = new z3::expr(r);
  return r;
}
static z3::expr zFpAtom(const FpAtom &f) {
  z3::expr a = zfp(f.a), b = zfp(f.b);
  auto E = [&](Z3_ast x) { return z3::expr(*Z, x); };
  if (f.kind >= 64) {
    z3::expr rm = zrm(true), c = E(f.sgn ? Z3_mk_fpa_to_sbv(*Z, rm, a, f.w) : Z3_mk_fpa_to_ubv(*Z, rm, a, f.w));
    return z3::expr(*Z, Z3_mk_extract(*Z, f.kind - 64, f.kind - 64, c)) == Z->bv_val(1, 1);
  }
  if (f.kind == 16) {
    double lo = f.sgn ? -std::ldexp(1.0, f.w - 1) : 0, hi = std::ldexp(1.0, f.sgn ? f.w - 1 : f.w);
    z3::expr zl = zfp(mkDbl(lo - 1)), zh = zfp(mkDbl(hi));
    return !(E(Z3_mk_fpa_gt(*Z, a, zl)) && E(Z3_mk_fpa_lt(*Z, a, zh)));
  }
  z3::expr un = E(Z3_mk_fpa_is_nan(*Z, a)) || E(Z3_mk_fpa_is_nan(*Z, b));
  int k = f.kind & 7;
  z3::expr r = k == 1 ? E(Z3_mk_fpa_eq(*Z, a, b)) : k == 2 ? E(Z3_mk_fpa_gt(*Z, a, b)) : k == 3 ? E(Z3_mk_fpa_geq(*Z, a, b)) : k == 4 ? E(Z3_mk_fpa_lt(*Z, a, b)) : k == 5 ? E(Z3_mk_fpa_leq(*Z, a, b)) : !E(Z3_mk_fpa_eq(*Z, a, b)) && !un;
  return f.kind >= 8 ? un || r : r;
}
// one query with floating-point atoms, or a hard Boolean one: a solver of its own
static z3::check_result fpCheck(const z3::expr_vector &ex, Model *m) {
  z3::solver s(*Z, fpSeen ? "QF_BVFP" : "QF_FD"); z3::params p(*Z); p.set("timeout", g_timeout_ms * 4); s.set(p);
  for (BId c : pc) s.add(zB(c));
  for (unsigned i = 0; i < ex.size(); i++) s.add(ex[i]);
  zDefs(); for (size_t i = 0; i < pendingAx.size(); i++) s.add(pendingAx[i]);
  if (getenv("ECSYM_DUMP")) { static int k = 0; char fn[200]; snprintf(fn, sizeof fn, "%s/q%d_%d.smt2", getenv("ECSYM_DUMP"), (int)getpid(), k++); FILE *f = fopen(fn, "w"); if (f) { fprintf(f, "%s", s.to_smt2().c_str()); fclose(f); } }
  z3::check_result r = s.check();
  if (getenv("ECSYM_DBG")) fprintf(stderr, "fp query %d %s\n", (int)r, r == z3::unknown ? s.reason_unknown().c_str() : "");
  if (r == z3::sat && m) {
    z3::model zm = s.get_model();
    m->bits.assign(nInputs, 0); m->reals.assign(nReals, 0);
    for (uint32_t a = 0; a < atoms.size(); a++) if (isIn(atoms[a].kind) && a < zAtom.size() && zAtom[a]) { z3::expr v = zm.eval(*zAtom[a], true); m->bits[atoms[a].a] = v.is_true(); }
    m->ok = true;
  }
  return r;
}
static z3::expr zRef(RRef r);
static z3::expr zAtomE(uint32_t a) {
  if (zAtom.size() <= a) zAtom.resize(atoms.size() + 64, nullptr);
  if (zAtom[a]) return *zAtom[a];
  Atom at = atoms[a];
  z3::expr *e;
  if (isIn(at.kind)) e = new z3::expr(Z->bool_const(("i" + std::to_string(at.a)).c_str()));
  else if (at.kind == AT_AND) {
    // iterative deepening is unnecessary: depth equals circuit depth, the stack is large
    z3::expr x = zB(at.a), y = zB(at.b);
    e = new z3::expr(x && y);
  } else if (at.kind == AT_GATE) {
    const Gate g = gates[at.a];
    z3::expr x = zB(g.a);
    if (g.kind == 4) e = new z3::expr(x);
    else { z3::expr y = zB(g.b), w = zB(g.c); e = new z3::expr(g.kind == 2 ? z3::ite(x, y, w) : (x && y) || (w && (x || y))); }
  } else if (at.kind == AT_RR) { const RRAtom x = rratoms[at.a]; z3::expr l = zRef(x.a), r = zRef(x.b); e = new z3::expr(x.k == 1 ? l > r : l > zdbl(x.k) * r);
  } else if (at.kind == AT_FP) { e = new z3::expr(zFpAtom(fpAtoms[at.a])); fpSeen = true; }
  else { e = new z3::expr(zRLin(at.a) > 0); rposSeen.push_back(a); }
  if (zAtom.size() <= a) zAtom.resize(atoms.size() + 64, nullptr);
  zAtom[a] = e;
  return *e;
}
static z3::expr zB(BId b) {
  size_t n; const uint32_t *p0 = linAtoms(b, n);
  std::vector<uint32_t> p(p0, p0 + n);
  if (n == 0) return Z->bool_val(b & 1);
  z3::expr e = zAtomE(p[0]);
  for (size_t i = 1; i < n; i++) { z3::expr y = zAtomE(p[i]); e = z3::expr(*Z, Z3_mk_xor(*Z, e, y)); }
  return (b & 1) ? !e : e;
}
static void zInit() { if (!Z) { Z = new z3::context(); S = new z3::solver(*Z); z3::params p(*Z); p.set("timeout", g_timeout_ms); S->set(p); } }
static size_t defDone;
static void zDefs() { while (defDone < defAx.size()) pendingAx.push_back(zB(defAx[defDone++])); }
static void zAxioms() { zDefs(); for (size_t i = 0; i < pendingAx.size(); i++) S->add(pendingAx[i]); }
static void zSync() {
  zInit();
  while (synced < pc.size()) { z3::expr e = zB(pc[synced]); S->push(); S->add(e); synced++; }
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool quickFail(BId &b) { if (pcFalse) return true; b = bred(b); return b == BFALSE; }

// pure Boolean queries: a short try of the incremental core, then bit-level search from scratch
static unsigned sTimeout = 0; // setting parameters is costly
static void setTimeout(unsigned t) { if (t == sTimeout) return; z3::params p(*Z); p.set("timeout", t); S->set(p); sTimeout = t; }
static z3::check_result sCheck(const z3::expr_vector &ev, Model *m) {
  if (nReals) { setTimeout(g_timeout_ms); return S->check(); }
  setTimeout(std::min(g_timeout_ms, 2000u));
  z3::check_result r = S->check();
  return r == z3::unknown ? fpCheck(ev, m) : r;
}
static double evalRAtom(const Model &m, uint32_t a);
#include "rnd_solver.inc"
// small cache of recent models: feasibility shortcuts
static std::vector<Model> mcache;
static bool modelSat(const Model &m, BId b);
int satWith(BId b0) {
  BId b = b0;
  if (quickFail(b)) return 0;
  // purely linear path: a reduced non-constant linear form over free input atoms is satisfiable both ways
  for (size_t i = mcache.size(); i-- > 0;) if (modelSat(mcache[i], b)) return 1;
  if (g_rnd) { zInit(); z3::expr_vector ev(*Z); ev.push_back(zB(b)); z3::check_result r = rrCheck({b}, ev, nullptr); return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1; }
  double t0 = now();
  zSync();
  z3::expr e = zB(b);
  S->push(); S->add(e); zAxioms();
  z3::expr_vector ev(*Z); ev.push_back(e);
  Model fm;
  z3::check_result r = fpSeen ? fpCheck(ev, &fm) : sCheck(ev, &fm);
  if (r == z3::sat && fm.ok) { if (mcache.size() >= 6) mcache.erase(mcache.begin()); mcache.push_back(fm); }
  else if (r == z3::sat && nReals == 0) {
    z3::model zm = S->get_model();
    Model m; m.bits.assign(nInputs, 0);
    for (uint32_t a = 0; a < atoms.size(); a++) if (isIn(atoms[a].kind) && a < zAtom.size() && zAtom[a]) { z3::expr v = zm.eval(*zAtom[a], true); m.bits[atoms[a].a] = v.is_true(); }
    m.ok = true;
    if (mcache.size() >= 6) mcache.erase(mcache.begin());
    mcache.push_back(m);
  }
  S->pop();
  __sync_add_and_fetch((uint64_t *)&ST->queries, 1); __sync_add_and_fetch((uint64_t *)&ST->solver_us, (uint64_t)((now() - t0) * 1e6));
  if (r == z3::sat) { __sync_add_and_fetch((uint64_t *)&ST->qsat, 1); return 1; }
  if (r == z3::unsat) { __sync_add_and_fetch((uint64_t *)&ST->qunsat, 1); return 0; }
  __sync_add_and_fetch((uint64_t *)&ST->qunknown, 1); return -1;
}
static bool modelSat(const Model &m0, BId b) {
  if (nReals) return false;
  Model &m = const_cast<Model &>(m0);
  if ((int)m.bits.size() < nInputs) m.bits.resize(nInputs, 0);
  for (BId c : pc) if (!evalB(m, c)) return false;
  for (BId c : defAx) if (!evalB(m, c)) return false;
  return evalB(m, b);
}
int satAnyDiffer(const std::vector<std::pair<BId, BId>> &ps) {
  if (pcFalse) return 0;
  if (g_rnd) {
    zInit(); z3::expr_vector d(*Z), ev(*Z); std::vector<BId> q; BId any = BFALSE;
    for (auto &p : ps) any = bor(any, bxor(p.first, p.second));
    ev.push_back(zB(any)); z3::check_result r = rrCheck({any}, ev, nullptr); return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
  }
  double t0 = now();
  zSync();
  z3::expr_vector d(*Z);
  for (auto &p : ps) { z3::expr x = zB(p.first), y = zB(p.second); d.push_back((x != y).simplify()); }
  S->push(); S->add(z3::mk_or(d)); zAxioms();
  z3::expr_vector ev(*Z); ev.push_back(z3::mk_or(d));
  z3::check_result r = fpSeen ? fpCheck(ev, nullptr) : sCheck(ev, nullptr);
  S->pop();
  __sync_add_and_fetch((uint64_t *)&ST->queries, 1); __sync_add_and_fetch((uint64_t *)&ST->solver_us, (uint64_t)((now() - t0) * 1e6));
  if (r == z3::sat) { __sync_add_and_fetch((uint64_t *)&ST->qsat, 1); return 1; }
  if (r == z3::unsat) { __sync_add_and_fetch((uint64_t *)&ST->qunsat, 1); return 0; }
  __sync_add_and_fetch((uint64_t *)&ST->qunknown, 1); return -1;
}
static double zToD(const z3::expr &v) {
  std::string s = v.get_decimal_string(18);
  return atof(s.c_str());
}
// true box-plus / -log cosh values at the solver's model refine the abstraction of the real-valued operations; every lemma is valid globally
static double bplus(double a, double b) { // a, b >= 0
  return std::min(a, b) + std::log1p(std::exp(-(a + b))) - std::log1p(std::exp(-std::fabs(a - b)));
}
static double elog(double u) { u = std::fabs(u) / 2; return -(u + std::log1p(std::exp(-2 * u)) - 0.6931471805599453); }
static size_t nLemmas = 0;
static int refine(z3::model &zm) {
  int added = 0;
  auto val = [&](const z3::expr &e, double &d) { z3::expr v = zm.eval(e, true); if (!v.is_numeral()) return false; d = zToD(v); return true; };
  size_t n = ratoms.size();
  for (uint32_t a = 0; a < n && a < zReal.size(); a++) {
    if (!zReal[a] || ratoms[a].kind == R_IN) continue;
    const Core c = cores[ratoms[a].a];
    double v; if (!val(*zReal[a], v)) continue;
    if (ratoms[a].kind == R_LAM) {
      z3::expr u1 = zRLin(cores[c.pa].u), u2 = zRLin(cores[c.pb].u);
      double x, y; if (!val(u1, x) || !val(u2, y)) continue;
      x = std::fabs(x); y = std::fabs(y); v = std::fabs(v);
      double t = bplus(x, y);
      if (v < t - 1e-7) { // too small: lower corner strictly inside
        double g = (t - v) * 0.45, p = std::max(0.0, x - g), q = std::max(0.0, y - g), w = bplus(p, q) - 1e-11;
        if (w > 0) { pendingAx.push_back(z3::implies(zabs(u1) >= zdbl(p) && zabs(u2) >= zdbl(q), zabs(*zReal[a]) >= zdbl(w))); added++; }
      } else if (v > t + 1e-7) {
        double g = (v - t) * 0.45, p = x + g, q = y + g, w = bplus(p, q) + 1e-11;
        pendingAx.push_back(z3::implies(zabs(u1) <= zdbl(p) && zabs(u2) <= zdbl(q), zabs(*zReal[a]) <= zdbl(w))); added++;
      }
    } else {
      z3::expr u = zRLin(c.u); double x; if (!val(u, x)) continue;
      double t = elog(x);
      if (v > t + 1e-8) { // concave: tangent from above
        double sl = -0.5 * std::tanh(x / 2);
        pendingAx.push_back(*zReal[a] <= zdbl(t) + zdbl(sl) * (u - zdbl(x)) + zdbl(1e-11)); pendingAx.push_back(*zReal[a] <= zdbl(t) - zdbl(sl) * (u + zdbl(x)) + zdbl(1e-11)); added++;
      } else if (v < t - 1e-8) { // decreasing in |u|
        double p = std::fabs(x) + (t - v) * 0.9;
        pendingAx.push_back(z3::implies(zabs(u) <= zdbl(p), *zReal[a] >= zdbl(elog(p) - 1e-11))); added++;
      }
    }
  }
  nLemmas += added;
  return added;
}
int getModel(BId extra, Model &m, bool exact) { // 1 found, 0 there is none, -1 unknown
  BId b = extra;
  if (quickFail(b)) return 0;
  if (g_rnd) { zInit(); z3::expr_vector ev(*Z); ev.push_back(zB(b)); z3::check_result r = rrCheck({b}, ev, &m); return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1; }
  double t0 = now();
  zSync();
  z3::expr e = zB(b);
  int got = -1;
  bool any = false; Model last;
  if (fpSeen || !nReals) {
    z3::expr_vector ev(*Z); ev.push_back(e);
    z3::check_result r = fpCheck(ev, &m);
    __sync_add_and_fetch((uint64_t *)&ST->queries, 1); __sync_add_and_fetch((uint64_t *)&ST->solver_us, (uint64_t)((now() - t0) * 1e6));
    __sync_add_and_fetch((uint64_t *)(r == z3::sat ? &ST->qsat : r == z3::unsat ? &ST->qunsat : &ST->qunknown), 1);
    return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
  }
  for (int att = nReals && exact ? 0 : 2; att < 3 && got != 1; att++) {
    for (int round = 0; round < 60; round++) {
      if (round && now() - t0 > 25) break;
      S->push(); S->add(e); zAxioms();
      if (att < 2) {
        z3::expr d = zdbl(att == 0 ? 0.05 : 1e-3);
        for (uint32_t a : rposSeen) { z3::expr l = zRLin(atoms[a].a); S->add(l >= d || l <= -d); }
        zAxioms();
      }
      setTimeout(g_timeout_ms); z3::check_result r = S->check();
      __sync_add_and_fetch((uint64_t *)&ST->queries, 1);
      if (r != z3::sat) { S->pop(); if (r == z3::unsat) { __sync_add_and_fetch((uint64_t *)&ST->qunsat, 1); if (att == 2) got = 0; } else __sync_add_and_fetch((uint64_t *)&ST->qunknown, 1); break; }
      __sync_add_and_fetch((uint64_t *)&ST->qsat, 1);
      z3::model zm = S->get_model();
      last.bits.assign(nInputs, 0); last.reals.assign(nReals, 0);
      for (uint32_t a = 0; a < atoms.size(); a++) if (isIn(atoms[a].kind) && a < zAtom.size() && zAtom[a]) { z3::expr v = zm.eval(*zAtom[a], true); last.bits[atoms[a].a] = v.is_true(); }
      for (uint32_t a = 0; a < ratoms.size(); a++) if (ratoms[a].kind == R_IN) {
        double d = (ratoms[a].lo + ratoms[a].hi) / 2;
        if (a < zReal.size() && zReal[a]) { z3::expr v = zm.eval(*zReal[a], true); if (v.is_numeral()) d = zToD(v); }
        last.reals[ratoms[a].a] = d;
      }
      last.ok = any = true;
      bool good = true;
      if (nReals && exact) { good = evalB(last, extra); for (BId c : pc) if (good && !evalB(last, c)) good = false; }
      int added = good ? 0 : refine(zm);
      S->pop();
      if (good) { got = 1; m = last; break; }
      if (!added) break;
    }
  }
  if (got == -1 && any) { m = last; got = 1; } // unconfirmed model: the replay decides
  __sync_add_and_fetch((uint64_t *)&ST->solver_us, (uint64_t)((now() - t0) * 1e6));
  return got;
}
// ---------------------------------------------------------------- evaluation under a model
static double evalR(const Model &m, uint32_t l);
static double evalRAtom(const Model &m, uint32_t a) {
  RAtom &r = ratoms[a];
  if (r.kind == R_IN) return r.a < m.reals.size() ? m.reals[r.a] : 0;
  const Core &c = cores[r.a];
  if (r.kind == R_LAM) { double t = std::tanh(evalR(m, cores[c.pa].u) / 2) * std::tanh(evalR(m, cores[c.pb].u) / 2); return 2 * std::atanh(t); }
  return -std::log(std::cosh(evalR(m, c.u) / 2));
}
static double evalR(const Model &m, uint32_t l) { double s = rlins[l].c; for (auto &t : rlins[l].t) s += t.second * evalRAtom(m, t.first); return s; }
static bool evalAtom(const Model &m, uint32_t a, std::unordered_map<uint32_t, bool> &memo) {
  Atom &at = atoms[a];
  if (isIn(at.kind)) return at.a < m.bits.size() && m.bits[at.a];
  auto it = memo.find(a); if (it != memo.end()) return it->second;
  bool r;
  if (at.kind == AT_RPOS) r = evalR(m, at.a) > 0;
  else if (at.kind == AT_RR) { const RRAtom x = rratoms[at.a]; r = evalRef(m, x.a) > x.k * evalRef(m, x.b); }
  else if (at.kind == AT_FP) {
    const FpAtom f = fpAtoms[at.a]; double x = evalD(m, f.a), y = evalD(m, f.b);
    if (f.kind < 16) r = cmpConc(f.kind, x, y);
    else {
      double lo = f.sgn ? -std::ldexp(1.0, f.w - 1) : 0, hi = std::ldexp(1.0, f.sgn ? f.w - 1 : f.w);
      bool in = x > lo - 1 && x < hi;
      r = f.kind == 16 ? !in : in && (((f.sgn ? (uint64_t)(int64_t)x : (uint64_t)x) >> (f.kind - 64)) & 1);
    }
  }
  else {
    auto ev = [&](BId b) { size_t n; linAtoms(b, n); bool v = b & 1; for (size_t i = 0; i < n; i++) { const uint32_t *p = linAtoms(b, n); v ^= evalAtom(m, p[i], memo); } return v; };
    if (at.kind == AT_GATE) { const Gate g = gates[at.a]; bool x = ev(g.a); r = g.kind == 4 ? x : g.kind == 2 ? ev(x ? g.b : g.c) : (int)x + ev(g.b) + ev(g.c) >= 2; }
    else r = ev(at.a) && ev(at.b);
  }
  memo[a] = r; return r;
}
bool evalB(const Model &m, BId b) {
  std::unordered_map<uint32_t, bool> memo;
  size_t n; linAtoms(b, n); bool v = b & 1;
  for (size_t i = 0; i < n; i++) { const uint32_t *p = linAtoms(b, n); v ^= evalAtom(m, p[i], memo); }
  return v;
}
uint64_t evalI(const Model &m, const Val &v) {
  if (v.k == V_INT) return v.p;
  uint64_t r = 0; const BV b = bitsOf(v); for (size_t i = 0; i < b.size(); i++) if (evalB(m, b[i])) r |= 1ull << i; return r;
}
double evalD(const Model &m, const Val &v) {
  if (v.k == V_DBL) return dblOf(v);
  const DNode n = dn(v);
  auto T = [&](uint32_t c) { return std::tanh(evalR(m, cores[c].u) / 2); };
  switch (n.kind) {
    case DN_SG: return evalB(m, n.a) ? -n.d0 : n.d0;
    case DN_ITE: return evalB(m, n.a) ? evalD(m, n.va) : evalD(m, n.vb);
    case DN_LIN: return evalR(m, n.a);
    case DN_RND: { double v = evalRn(m, n.a); return n.s ? -v : v; }
    case DN_AFEXP: return n.d0 + n.d1 * std::exp(evalR(m, n.a));
    case DN_CORE: return (n.s ? -1 : 1) * T(n.a);
    case DN_SUM2: return ((n.s & 1) ? -1 : 1) * T(n.a) + ((n.s & 2) ? -1 : 1) * T(n.b);
    case DN_AFCORE: return n.d0 + n.d1 * T(n.a);
    case DN_RATIO: { double t = (n.s ? -1 : 1) * T(n.a); return (1 + t) / (1 - t); }
    case DN_OPQ: { double x = evalD(m, n.va), y = evalD(m, n.vb); switch (n.a) { case F_ADD: return x + y; case F_SUB: return x - y; case F_MUL: return x * y; case F_DIV: return x / y; default: return std::fmod(x, y); } }
    case DN_INT: { uint64_t x = evalI(m, n.va); return std::ldexp(n.s ? (double)sval(mkInt(n.va.w, x)) : (double)x, -(int)n.b); }
  }
  return 0;
}
std::string showB(BId b) {
  std::string s = (b & 1) ? "1" : ""; size_t n; const uint32_t *p = linAtoms(b, n);
  for (size_t i = 0; i < n && i < 12; i++) { Atom &a = atoms[p[i]]; s += (s.empty() ? "" : "^"); s += a.kind == AT_INPUT ? "i" + std::to_string(a.a) : (a.kind == AT_AND ? "A" : "R") + std::to_string(p[i]); }
  return s.empty() ? "0" : s;
}
std::string showD(const Val &v) {
  char buf[200];
  if (v.k == V_DBL) { snprintf(buf, sizeof buf, "%g", dblOf(v)); return buf; }
  if (v.k != V_SDBL) return "?";
  const DNode n = dn(v);
  if (n.kind == DN_SG) { snprintf(buf, sizeof buf, "SG(%s,%.17g)", showB(n.a).c_str(), n.d0); return buf; }
  if (n.kind == DN_ITE) return "ITE(" + showB(n.a) + "," + showD(n.va) + "," + showD(n.vb) + ")";
  snprintf(buf, sizeof buf, "D%d(%u,%u,%d,%g,%g)", n.kind, n.a, n.b, n.s, n.d0, n.d1); return buf;
}
// does v, a quotient computed from ints, show the value a / b (b > 0)? exact for symbolic quotients,
// within the rounding of three decimals for numbers
static bool ratOf(const Val &v, Val &n, Val &d) {
  if (v.k == V_DBL) { double x = dblOf(v); if (x != std::floor(x) || std::fabs(x) > 1e15) return false; n = mkInt(64, (uint64_t)(int64_t)x); d = mkInt(64, 1); return true; }
  const DNode q = dn(v);
  if (q.kind == DN_INT) { int sc; fixOf(v, n, sc); d = mkInt(64, 1ull << sc); return true; }
  if (q.kind != DN_OPQ || (q.a != F_MUL && q.a != F_DIV)) return false;
  Val n1, d1, n2, d2; if (!ratOf(q.va, n1, d1) || !ratOf(q.vb, n2, d2)) return false;
  if (q.a == F_DIV) std::swap(n2, d2);
  n = iBin(I_MUL, n1, n2); d = iBin(I_MUL, d1, d2); return true;
}
static BId ratR(const Val &v, const Val &a, const Val &b, int &budget) {
  BId c;
  if (v.k != V_DBL && condOf(v, c)) {
    if (--budget < 0) { bool t = decideHook(c); return ratR(restrictD(v, c, t), a, b, budget); }
    BId t = ratR(restrictD(v, c, true), a, b, budget), f = ratR(restrictD(v, c, false), a, b, budget);
    return bite(c, t, f);
  }
  Val b0 = b, a0 = a;
  if (v.k == V_DBL) {
    double d = dblOf(v);
    if (std::isnan(d) || std::isinf(d)) return BFALSE;
    if (b.k == V_INT) {
      double x = d * (double)sval(b), t = 6e-4 * std::fabs(x) + 1e-9;
      return band(iCmp(P_SGE, a, mkInt(64, (uint64_t)(int64_t)std::ceil(x - t))), iCmp(P_SLE, a, mkInt(64, (uint64_t)(int64_t)std::floor(x + t))));
    }
    if (d == 0) return iCmp(P_EQ, a, mkInt(64, 0));
    throw Unsupported{"constant shown for a symbolic quotient"};
  }
  Val n, d; if (!ratOf(v, n, d)) throw Unsupported{"shown quotient " + showD(v)};
  if (iCmp(P_EQ, d, b) == BTRUE) return iCmp(P_EQ, n, a);
  if (iCmp(P_EQ, n, a) == BTRUE) return bor(iCmp(P_EQ, n, mkInt(64, 0)), iCmp(P_EQ, d, b));
  return iCmp(P_EQ, iBin(I_MUL, n, b), iBin(I_MUL, a, d));
}
BId fRatioIs(const Val &v, const Val &a, const Val &b) { int budget = g_leafcap; return ratR(v.k == V_DBL ? v : normD(v), a, b, budget); }
