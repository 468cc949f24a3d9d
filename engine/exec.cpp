// Symbolic executor: memory, branch merging / path splitting, libc models, harness API.
#include "ir.h"
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <set>
#include <algorithm>
#include <unordered_map>
#include <ctype.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <sys/prctl.h>

static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ------------------------------------------------------------------ configuration
static std::string outDir = ".", entry = "harness";
static std::map<std::string, std::string> params;
static double deadline = 1e18;
static uint64_t maxInstr = 400000000ull, maxPaths = 0;
static int maxSamples = 3, maxViol = 8;
static uint8_t *fnSeen;          // shared
static uint8_t *coverMap;        // shared: NUL-separated names
static char *unsupText;          // shared
static uint64_t forkInstrBase = 0;
static bool verbose = false;
static bool concreteMode = false;      // inputs come from a file
struct CexLine { std::string kind, name, val; };
static std::vector<CexLine> concIn; static size_t concPos = 0;

// ------------------------------------------------------------------ memory
struct Obj { Val *cells = nullptr; uint64_t size = 0; bool alive = false; uint8_t kind = 0; bool ro = false; const char *what = ""; int line = 0; };
static std::vector<Obj> objs(1);
struct JEnt { uint32_t obj; uint32_t off; Val old; };
static std::vector<JEnt> journal;
static int mergeDepth = 0;
static int policy = 0;
static uint64_t pathInstr = 0;
static int callDepth = 0;
static const Fn *curFn = nullptr; static int curLine = 0;
static uint64_t heapLive = 0;

struct MaybeRec { BId def; Val v; };
static std::vector<MaybeRec> maybes;
enum { V_MAYBE = 20 };
static Val mkMaybe(BId def, const Val &v) {
  if (def == BTRUE) return v;
  if (def == BFALSE) { Val u; return u; }
  maybes.push_back({def, v}); Val r; r.k = (uint8_t)V_MAYBE; r.w = v.w; r.p = maybes.size() - 1; return r;
}

static void violation(const char *kind, const std::string &msg, BId cond);
[[noreturn]] static void fatalPath(const char *kind, const std::string &msg) { violation(kind, msg, BTRUE); throw PathEnd{2}; }

static uint32_t newObj(uint64_t size, int kind, const char *what) {
  if (size > (1ull << 31)) throw Unsupported{"huge allocation"};
  Obj o; o.size = size; o.alive = true; o.kind = (uint8_t)kind; o.what = what; o.line = curLine;
  o.cells = (Val *)calloc(size ? size : 1, sizeof(Val));
  if (!o.cells) throw Unsupported{"engine out of memory"};
  objs.push_back(o);
  if (objs.size() >= FNOBJ) throw Unsupported{"too many objects"};
  return (uint32_t)objs.size() - 1;
}
static inline uint64_t addrOf(uint32_t o, uint64_t off = 0) { return ((uint64_t)o << 32) + off; }
static void killObj(uint32_t o) { Obj &O = objs[o]; O.alive = false; if (mergeDepth == 0) { free(O.cells); O.cells = nullptr; } else { /* journal may reference it */ } }
static inline void setCell(uint32_t o, uint64_t off, const Val &v) {
  Obj &O = objs[o];
  if (mergeDepth) journal.push_back({o, (uint32_t)off, O.cells[off]});
  O.cells[off] = v;
}
static std::string where() { char b[300]; snprintf(b, sizeof b, "%s:%d (%s)", curFn ? curFn->file.c_str() : "?", curLine, curFn ? curFn->name.c_str() : "?"); return b; }
static Obj &checkAccess(uint64_t p, uint64_t n, uint32_t &o, uint64_t &off, bool write) {
  o = (uint32_t)(p >> 32); off = p & 0xffffffffu;
  if (o == 0) fatalPath("memory", std::string("null or invalid pointer ") + (write ? "write" : "read") + " at " + where());
  if (o >= objs.size()) fatalPath("memory", "wild pointer access at " + where());
  Obj &O = objs[o];
  if (!O.alive) fatalPath("memory", "access to released memory at " + where());
  if (off + n > O.size) {
    char b[200]; snprintf(b, sizeof b, "out-of-bounds %s of %llu byte(s) at offset %lld of object '%s' (size %llu) at ", write ? "write" : "read", (unsigned long long)n, (long long)(int32_t)off, O.what, (unsigned long long)O.size);
    fatalPath("memory", b + where());
  }
  if (write && O.ro) fatalPath("memory", "write to read-only object at " + where());
  return O;
}
static Val byteOf(const Val &start, unsigned idx) {
  switch (start.k) {
    case V_UNDEF: return Val();
    case V_INT: case V_DBL:
      if (start.k == V_DBL && start.w == 32) { float f = (float)dblOf(start); uint32_t u; memcpy(&u, &f, 4); return mkInt(8, (u >> (8 * idx)) & 255); }
      return mkInt(8, (start.p >> (8 * idx)) & 255);
    case V_SINT: { std::vector<BId> b = bitsOf(start), r(8, BFALSE); for (unsigned i = 0; i < 8; i++) if (idx * 8 + i < b.size()) r[i] = b[idx * 8 + i]; return mkSInt(r); }
    case V_SDBL: throw (mergeDepth ? (throw MergeFail{}, 0) : (throw Unsupported{"byte access to a symbolic double"}, 0));
    default:
      if (start.k == V_MAYBE) { Val v = byteOf(maybes[start.p].v, idx); return mkMaybe(maybes[start.p].def, v); }
      throw Unsupported{"byte access"};
  }
}
template <class CellF> static Val byteAt(CellF cell, uint64_t off) {
  Val c = cell(off);
  if (c.k == V_CONT) { Val s = cell(off - c.p); return byteOf(s, (unsigned)c.p); }
  if (c.k == V_UNDEF) return Val();
  return byteOf(c, 0);
}
static unsigned bytesOfVal(const Val &v) { return v.k == V_UNDEF ? 1 : v.w <= 8 ? 1 : v.w <= 16 ? 2 : v.w <= 32 ? 4 : 8; }
template <class CellF> static Val loadView(CellF cell, uint64_t off, unsigned n, bool fp) {
  Val c = cell(off);
  if (c.k != V_CONT && c.k != V_UNDEF && bytesOfVal(c) == n) {
    bool cfp = c.k == V_DBL || c.k == V_SDBL;
    if (c.k == V_MAYBE) { const Val &v = maybes[c.p].v; cfp = v.k == V_DBL || v.k == V_SDBL; }
    if (cfp == fp) return c;
    if (c.k == V_INT && fp) { Val r = c; r.k = V_DBL; if (n == 4) { float f; uint32_t u = (uint32_t)c.p; memcpy(&f, &u, 4); r = mkDbl(f); r.w = 32; } return r; }
    if (c.k == V_DBL && !fp) { if (n == 4) { float f = (float)dblOf(c); uint32_t u; memcpy(&u, &f, 4); return mkInt(32, u); } return mkInt(64, c.p); }
    if (c.k == V_SDBL) return c; // copied as an opaque 64-bit pattern
  }
  std::vector<Val> bs(n); bool und = false, allc = true; BId def = BTRUE;
  for (unsigned i = 0; i < n; i++) {
    bs[i] = byteAt(cell, off + i);
    if (bs[i].k == V_MAYBE) { def = band(def, maybes[bs[i].p].def); bs[i] = maybes[bs[i].p].v; }
    if (bs[i].k == V_UNDEF) und = true; else if (bs[i].k != V_INT) allc = false;
  }
  if (und) { Val u; u.w = (uint8_t)(n * 8); return u; }
  if (allc) {
    uint64_t v = 0; for (unsigned i = 0; i < n; i++) v |= bs[i].p << (8 * i);
    Val r = mkInt(n * 8, v);
    if (fp) { if (n == 4) { float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); r = mkDbl(f); r.w = 32; } else r.k = V_DBL; }
    return mkMaybe(def, r);
  }
  if (fp) throw Unsupported{"symbolic bytes read as floating point"};
  std::vector<BId> bits; for (auto &b : bs) { auto x = bitsOf(b); bits.insert(bits.end(), x.begin(), x.end()); }
  return mkMaybe(def, mkSInt(bits));
}
static Val loadMem(uint64_t p, unsigned n, bool fp) {
  uint32_t o; uint64_t off; Obj &O = checkAccess(p, n, o, off, false);
  Val *c = O.cells;
  return loadView([c](uint64_t i) { return c[i]; }, off, n, fp);
}
// make sure no value straddles byte boundary `off`
static void cutAt(uint32_t o, uint64_t off) {
  Obj &O = objs[o];
  if (off >= O.size || O.cells[off].k != V_CONT) return;
  uint64_t st = off - O.cells[off].p; Val s = O.cells[st]; unsigned n = bytesOfVal(s);
  const Val &inner = s.k == V_MAYBE ? maybes[s.p].v : s;
  // a partly overwritten symbolic double: the remaining bytes are never meaningful (reading one is reported and then refuted or confirmed by the replay)
  std::vector<Val> bs(n); if (inner.k != V_SDBL) for (unsigned i = 0; i < n; i++) bs[i] = byteOf(s, i);
  for (unsigned i = 0; i < n; i++) setCell(o, st + i, bs[i]);
}
static void putVal(uint32_t o, uint64_t off, const Val &v, unsigned n) {
  cutAt(o, off); cutAt(o, off + n);
  if (v.k == V_UNDEF) { Val u; for (unsigned i = 0; i < n; i++) setCell(o, off + i, u); return; }
  Val x = v;
  if (x.k == V_INT && x.w < n * 8) x.w = (uint8_t)(n * 8);
  else if (x.k == V_SINT && x.w < n * 8) x = iExt(x, n * 8, false);
  setCell(o, off, x);
  for (unsigned i = 1; i < n; i++) { Val c; c.k = V_CONT; c.p = i; setCell(o, off + i, c); }
}
static void storeMem(uint64_t p, const Val &v, unsigned n) { uint32_t o; uint64_t off; checkAccess(p, n, o, off, true); putVal(o, off, v, n); }
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  uint32_t so, dO; uint64_t sf, df; checkAccess(s, n, so, sf, false); checkAccess(d, n, dO, df, true);
  std::vector<Val> tmp; tmp.reserve(n);
  // values wholly inside are copied as such; straddling ones bytewise
  Val *c = objs[so].cells;
  for (uint64_t i = 0; i < n;) {
    Val v = c[sf + i];
    unsigned k = v.k == V_CONT ? 1 : bytesOfVal(v);
    if (v.k == V_CONT || i + k > n) { tmp.push_back(byteAt([c](uint64_t j) { return c[j]; }, sf + i)); i++; continue; }
    tmp.push_back(v); for (unsigned j = 1; j < k; j++) { Val t; t.k = V_CONT; t.p = j; tmp.push_back(t); }
    i += k;
  }
  cutAt(dO, df); cutAt(dO, df + n);
  for (uint64_t i = 0; i < n; i++) setCell(dO, df + i, tmp[i]);
}

// ------------------------------------------------------------------ harness inputs / observations
struct SymIn { char kind; std::string name; Val v; int ridx; };
static std::vector<SymIn> inputs;
struct Obs { std::string name; Val v; };
static std::vector<Obs> observed;

static std::string valText(const SymIn &s, const Model &m) {
  char b[64];
  if (s.kind == 'r') { snprintf(b, sizeof b, "%.17g", evalD(m, s.v)); return b; }
  uint64_t x = evalI(m, s.v); snprintf(b, sizeof b, "%lld", (long long)sval(mkInt(s.v.w, x))); return b;
}
static void writeInputs(FILE *f, const Model &m) { for (auto &s : inputs) fprintf(f, "%c %s %s\n", s.kind, s.name.c_str(), valText(s, m).c_str()); }
static uint64_t hashStr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; } return h; }
static void dumpCex(const char *kind, const std::string &msg, const Model &m) {
  std::string key = std::string(kind) + msg;
  char fn[600]; int fd = -1;
  for (int k = 0; k < 3 && fd < 0; k++) { // up to three examples of each message
    snprintf(fn, sizeof fn, "%s/cex_%016llx_%d.txt", outDir.c_str(), (unsigned long long)hashStr(key), k);
    fd = open(fn, O_CREAT | O_EXCL | O_WRONLY, 0644);
  }
  if (fd < 0) return;
  int n = __sync_add_and_fetch(&ST->violation, 1);
  FILE *f = fdopen(fd, "w");
  fprintf(f, "# kind %s\n# msg %s\n", kind, msg.c_str());
  writeInputs(f, m); fclose(f);
  if (n >= maxViol) ST->stop = 1;
}
static void violation(const char *kind, const std::string &msg, BId cond) {
  Model m;
  int g = getModel(cond, m);
  if (g < 0) __sync_add_and_fetch(&ST->inconclusive, 1);
  if (g <= 0) return;
  dumpCex(kind, msg, m);
}
static void ubReport(const std::string &what, BId cond) { violation("ub", what + " at " + where(), cond); if (cond == BTRUE) throw PathEnd{2}; else pcAdd(bnot(cond)); }

// ------------------------------------------------------------------ splitting
static bool holdsToken = false;
static std::vector<pid_t> kids;
static void reap() { for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) __sync_add_and_fetch(&ST->inconclusive, 1); } kids.clear(); }
static void reapNB() { for (size_t i = 0; i < kids.size();) { int st; pid_t r = waitpid(kids[i], &st, WNOHANG); if (r == kids[i]) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) __sync_add_and_fetch(&ST->inconclusive, 1); kids.erase(kids.begin() + i); } else i++; } }
static bool timeUp() { return nowS() > deadline || ST->stop; }
#define ATOM_INC(f) __sync_add_and_fetch((uint64_t *)&ST->f, 1)
static bool decide(BId c0) {
  BId c = bred(c0);
  if (bconst(c)) return c == BTRUE;
  if (mergeDepth) throw MergeFail{};
  int t = satWith(c), f = t == 0 ? 1 : satWith(bnot(c));
  if (t == 0) { pcAdd(bnot(c)); if (!pcConsistent()) throw PathEnd{1}; return false; }
  if (f == 0) { pcAdd(c); return true; }
  if (t < 0 || f < 0) __sync_add_and_fetch(&ST->inconclusive, 1);
  if (timeUp()) { if (!ST->stop) __sync_add_and_fetch(&ST->inconclusive, 1); throw PathEnd{4}; }
  if (concreteMode) throw Unsupported{"symbolic branch in concrete mode"};
  ATOM_INC(splits);
  reapNB();
  bool par = false;
  int tk = ST->tokens;
  while (tk > 0) { if (__sync_bool_compare_and_swap(&ST->tokens, tk, tk - 1)) { par = true; break; } tk = ST->tokens; }
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { if (par) __sync_add_and_fetch(&ST->tokens, 1); throw Unsupported{"fork failed"}; }
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); kids.clear(); { double left = deadline - nowS() + 4; alarm(left < 1 ? 1 : (unsigned)left); } holdsToken = par; forkInstrBase = pathInstr; pcAdd(bnot(c)); return false; }
  if (par) kids.push_back(p);
  else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (getenv("ECSYM_DBG")) fprintf(stderr, "child status %x\n", st); __sync_add_and_fetch(&ST->inconclusive, 1); } }
  pcAdd(c);
  return true;
}
static uint64_t concretize(const Val &v) {
  if (v.k == V_INT) return v.p;
  if (v.k != V_SINT) throw Unsupported{"concretize"};
  std::vector<BId> b = sbits(v);
  bool allc = true; uint64_t r = 0;
  for (size_t i = 0; i < b.size(); i++) { b[i] = bred(b[i]); if (!bconst(b[i])) allc = false; else if (b[i] & 1) r |= 1ull << i; }
  if (allc) return r;
  if (mergeDepth) throw MergeFail{};
  r = 0;
  for (size_t i = b.size(); i-- > 0;) if (decide(b[i])) r |= 1ull << i; // bit by bit: as many paths as feasible values
  ATOM_INC(concretized);
  return r;
}

// ------------------------------------------------------------------ interpreter
struct Frame {
  const Fn *f; std::vector<Val> r; std::vector<uint32_t> allocas; const Fn *savedFn; int savedLine;
  Frame(const Fn *f_) : f(f_), r(f_->nregs), savedFn(curFn), savedLine(curLine) { callDepth++; curFn = f; }
  ~Frame() { for (uint32_t a : allocas) killObj(a); callDepth--; curFn = savedFn; curLine = savedLine; }
};
static inline const Val &get(Frame &F, int32_t o) { return o >= 0 ? F.r[o] : M.consts[~o]; }
static Val callFn(int fn, std::vector<Val> &args, const Ins &I);
typedef Val (*Handler)(std::vector<Val> &, const Ins &);
static std::unordered_map<std::string, Handler> handlers;
static std::vector<Handler> extCache;
static Handler resolveExt(const std::string &n);

static uint64_t ptrVal(const Val &v0) {
  Val v = v0;
  if (v.k == V_MAYBE) { BId d = maybes[v.p].def; if (satWith(bnot(d)) != 0) { violation("uninit", "use of uninitialised pointer at " + where(), bnot(d)); pcAdd(d); } v = maybes[v.p].v; }
  if (v.k == V_INT) return v.p;
  if (v.k == V_UNDEF) fatalPath("uninit", "use of uninitialised pointer at " + where());
  if (v.k == V_SINT) return concretize(v);
  throw Unsupported{"pointer value"};
}
// value needed concretely defined (branches, asserts, lengths)
static Val defined(const Val &v, const char *what) {
  if (v.k == V_UNDEF) fatalPath("uninit", std::string("uninitialised value used in ") + what + " at " + where());
  if (v.k == V_MAYBE) { BId d = maybes[v.p].def; if (satWith(bnot(d)) != 0) { violation("uninit", std::string("uninitialised value used in ") + what + " at " + where(), bnot(d)); pcAdd(d); if (!pcConsistent()) throw PathEnd{2}; } return maybes[v.p].v; }
  return v;
}
struct RunRes { bool ret; Val v; int prev; };
static RunRes runBlocks(Frame &F, int blk, int prev, int stop);
static void evalPhis(Frame &F, const Block &B, int prev, std::vector<std::pair<int, Val>> &out) {
  for (auto &p : B.phis) { bool ok = false; for (auto &in : p.in) if (in.first == prev) { out.push_back({p.dst, get(F, in.second)}); ok = true; break; } if (!ok) throw Unsupported{"phi without incoming edge"}; }
}
struct Side { bool dead = false; bool ret = false; Val rv; int prev = -1; std::vector<std::pair<int, Val>> phis; std::vector<Val> live; std::map<std::pair<uint32_t, uint32_t>, Val> cells; };
static void rollback(size_t mark) { while (journal.size() > mark) { JEnt &e = journal.back(); if (objs[e.obj].cells) objs[e.obj].cells[e.off] = e.old; journal.pop_back(); } }
static void runSide(Frame &F, BId c, int succ, int cur, int stop, Side &S) {
  size_t mark = journal.size();
  std::vector<Val> saved = F.r;
  mergeDepth++; pcPush();
  size_t nIn = inputs.size(), nObs = observed.size();
  struct G { size_t mark; Frame &F; std::vector<Val> &sv; bool done = false; ~G() { if (!done) { rollback(mark); F.r = sv; pcPop(); mergeDepth--; } } } g{mark, F, saved};
  pcAdd(c);
  if (!pcConsistent()) S.dead = true;
  else {
    try {
      if (succ == stop) { S.prev = cur; }
      else { RunRes r = runBlocks(F, succ, cur, stop); S.ret = r.ret; S.rv = r.v; S.prev = r.prev; }
      if (!S.ret && stop >= 0) {
        if (S.prev == -2) { for (auto &p : F.f->blocks[stop].phis) S.phis.push_back({p.dst, F.r[p.dst]}); } // a nested merge ended here
        else evalPhis(F, F.f->blocks[stop], S.prev, S.phis);
        for (int q : F.f->blocks[stop].liveIn) S.live.push_back(F.r[q]); // a loop in between may have redefined them
      }
    } catch (PathEnd &e) { if (e.why == 0 || e.why == 3) throw MergeFail{}; if (e.why == 4) throw; S.dead = true; }
  }
  if (inputs.size() != nIn || observed.size() != nObs) throw MergeFail{};
  if (!S.dead)
    for (size_t i = mark; i < journal.size(); i++) { JEnt &e = journal[i]; if (objs[e.obj].alive) S.cells[{e.obj, e.off}] = objs[e.obj].cells[e.off]; }
  g.done = true;
  rollback(mark); F.r = saved; pcPop(); mergeDepth--;
}
static Val mergeVal(BId c, const Val &a, const Val &b) {
  if (a == b) return a;
  if (a.k == V_MAYBE || b.k == V_MAYBE || a.k == V_UNDEF || b.k == V_UNDEF) {
    BId da = a.k == V_UNDEF ? BFALSE : a.k == V_MAYBE ? maybes[a.p].def : BTRUE, db = b.k == V_UNDEF ? BFALSE : b.k == V_MAYBE ? maybes[b.p].def : BTRUE;
    BId def = bite(c, da, db);
    if (def == BFALSE) return Val();
    Val x = a.k == V_MAYBE ? maybes[a.p].v : a, y = b.k == V_MAYBE ? maybes[b.p].v : b;
    if (a.k == V_UNDEF) return mkMaybe(def, y);
    if (b.k == V_UNDEF) return mkMaybe(def, x);
    return mkMaybe(def, iteVal(c, x, y, policy));
  }
  return iteVal(c, a, b, policy);
}
static bool pureLinear(BId c) { size_t n; const uint32_t *p = linAtoms(c, n); for (size_t i = 0; i < n; i++) if (atomOf(p[i]).kind != AT_INPUT) return false; return true; }

static bool tryMerge(Frame &F, Ins &I, BId c, int cur, RunRes &res, int &nextBlk, int &nextPrev, bool &finished) {
  const Block &B = F.f->blocks[cur];
  int stop = B.ipdom;
  Side T, E;
  auto setLive = [&](const std::vector<Val> &v) { for (size_t i = 0; i < v.size(); i++) F.r[F.f->blocks[stop].liveIn[i]] = v[i]; };
  size_t mark = journal.size();
  struct G { size_t mark; bool done = false; ~G() { if (!done) rollback(mark); } } g{mark};
  runSide(F, c, I.b, cur, stop, T);
  runSide(F, bnot(c), I.c, cur, stop, E);
  if (T.dead && E.dead) throw PathEnd{1};
  if (T.dead || E.dead) {
    Side &S = T.dead ? E : T;
    pcAdd(T.dead ? bnot(c) : c);
    for (auto &k : S.cells) if (objs[k.first.first].alive) setCell(k.first.first, k.first.second, k.second);
    if (S.ret) { res.ret = true; res.v = S.rv; finished = true; }
    else { setLive(S.live); for (auto &p : S.phis) F.r[p.first] = p.second; nextBlk = stop; nextPrev = -2; finished = false; }
    g.done = true; return true;
  }
  if (T.ret != E.ret) throw MergeFail{};
  // merge phis / return values
  if (T.ret) { res.ret = true; res.v = mergeVal(c, T.rv, E.rv); finished = true; }
  else {
    for (size_t i = 0; i < T.phis.size(); i++) T.phis[i].second = mergeVal(c, T.phis[i].second, E.phis[i].second);
    for (size_t i = 0; i < T.live.size(); i++) if (!(T.live[i] == E.live[i])) T.live[i] = mergeVal(c, T.live[i], E.live[i]);
    finished = false;
  }
  // merge memory
  std::map<std::pair<uint32_t, uint32_t>, Val> out;
  std::set<std::pair<uint32_t, uint32_t>> keys;
  for (auto &k : T.cells) keys.insert(k.first);
  for (auto &k : E.cells) keys.insert(k.first);
  for (auto it = keys.begin(); it != keys.end();) {
    uint32_t o = it->first, off = it->second;
    if (!objs[o].alive) { ++it; continue; }
    auto viewT = [&](uint64_t i) { auto f = T.cells.find({o, (uint32_t)i}); return f != T.cells.end() ? f->second : objs[o].cells[i]; };
    auto viewE = [&](uint64_t i) { auto f = E.cells.find({o, (uint32_t)i}); return f != E.cells.end() ? f->second : objs[o].cells[i]; };
    Val a = viewT(off), b = viewE(off);
    if (a.k != V_CONT && b.k != V_CONT) {
      unsigned na = a.k == V_UNDEF ? 0 : bytesOfVal(a), nb = b.k == V_UNDEF ? 0 : bytesOfVal(b);
      unsigned n = std::max(na, nb); if (n == 0) n = 1;
      bool ok = true; // other side must not have a value straddling off+n
      if (off + n < objs[o].size) { if (viewT(off + n).k == V_CONT || viewE(off + n).k == V_CONT) ok = false; }
      if (ok) {
        auto isfp = [](const Val &v) { const Val &x = v.k == V_MAYBE ? maybes[v.p].v : v; return x.k == V_DBL || x.k == V_SDBL; };
        bool fp = (na == n && isfp(a)) || (nb == n && isfp(b));
        Val x = loadView(viewT, off, n, fp), y = loadView(viewE, off, n, fp);
        Val r = mergeVal(c, x, y);
        out[{o, off}] = r;
        if (r.k == V_UNDEF) for (unsigned i = 1; i < n; i++) out[{o, off + i}] = Val();
        else for (unsigned i = 1; i < n; i++) { Val t; t.k = V_CONT; t.p = i; out[{o, off + i}] = t; }
        it = keys.lower_bound({o, off + n});
        continue;
      }
    }
    throw MergeFail{};
  }
  for (auto &k : out) setCell(k.first.first, k.first.second, k.second);
  if (!finished) { setLive(T.live); for (auto &p : T.phis) F.r[p.first] = p.second; nextBlk = stop; nextPrev = -2; }
  g.done = true;
  return true;
}
static uint64_t lastCheck = 0;
static RunRes runBlocks(Frame &F, int blk, int prev, int stop) {
  const Fn &f = *F.f;
  uint64_t startInstr = pathInstr;
  for (;;) {
    if (blk == stop) { RunRes r; r.ret = false; r.prev = prev; return r; }
    Block &B = const_cast<Block &>(f.blocks[blk]);
    if (prev == -2) { /* phis already set by a merge */ }
    else if (!B.phis.empty()) {
      if (B.phis.size() == 1) { auto &p = B.phis[0]; bool ok = false; for (auto &in : p.in) if (in.first == prev) { F.r[p.dst] = get(F, in.second); ok = true; break; } if (!ok) throw Unsupported{"phi"}; }
      else { std::vector<std::pair<int, Val>> t; evalPhis(F, B, prev, t); for (auto &x : t) F.r[x.first] = x.second; }
    }
    int next = -1; int nextPrev = blk;
    for (size_t ii = 0; ii < B.ins.size(); ii++) {
      Ins &I = B.ins[ii];
      pathInstr++;
      curLine = I.line ? I.line : curLine;
      if ((pathInstr & 0xffff) == 0) {
        if (mergeDepth && pathInstr - startInstr > 8000000) throw MergeFail{};
        if (pathInstr > maxInstr) { if (mergeDepth) throw MergeFail{}; violation("hang", "instruction budget exhausted (possible non-termination) in " + f.name, BTRUE); throw PathEnd{2}; }
        if ((pathInstr & 0xfffff) == 0 && timeUp()) { if (!ST->stop) __sync_add_and_fetch(&ST->inconclusive, 1); throw PathEnd{4}; }
      }
      // operands possibly uninitialised on some paths are handled out of line
      switch (I.op) {
        case O_BIN: case O_ICMP: case O_FBIN: case O_FCMP: {
          const Val *a = &get(F, I.a), *b = &get(F, I.b);
          Val ta, tb; BId def = BTRUE;
          if (a->k == V_MAYBE) { def = band(def, maybes[a->p].def); ta = maybes[a->p].v; a = &ta; }
          if (b->k == V_MAYBE) { def = band(def, maybes[b->p].def); tb = maybes[b->p].v; b = &tb; }
          Val r;
          if (a->k == V_UNDEF || b->k == V_UNDEF) { r.w = I.w; }
          else if (I.op == O_BIN) {
            r = iBin(I.sub, *a, *b);
            if (I.nsw && I.sub <= I_MUL && r.k == V_INT && a->k == V_INT && b->k == V_INT) {
              __int128 x = sval(*a), y = sval(*b), z = I.sub == I_ADD ? x + y : I.sub == I_SUB ? x - y : x * y;
              if (z != (__int128)sval(r)) ubReport("signed integer overflow", BTRUE);
            } else if (I.nsw && I.sub <= I_SUB && r.k == V_SINT && I.w == 32 && params.count("symovf")) {
              Val ea = iExt(*a, I.w + 1, true), eb = iExt(*b, I.w + 1, true);
              Val s = iBin(I.sub, ea, eb);
              std::vector<BId> sb = bitsOf(s);
              BId ov = bred(bxor(sb[I.w], sb[I.w - 1]));
              if (ov != BFALSE && satWith(ov) == 1) { if (mergeDepth) throw MergeFail{}; ubReport("signed integer overflow", ov); }
            } else if (I.nsw && I.sub == I_MUL && r.k == V_SINT && I.w == 32 && params.count("symovf")) {
              Val ea = iExt(*a, 64, true), eb = iExt(*b, 64, true);
              std::vector<BId> sb = bitsOf(iBin(I_MUL, ea, eb));
              BId ok = BTRUE; for (int k = 32; k < 64; k++) ok = band(ok, bnot(bxor(sb[k], sb[31])));
              BId ov = bnot(ok);
              if (ov != BFALSE && satWith(ov) == 1) { if (mergeDepth) throw MergeFail{}; ubReport("signed integer overflow", ov); }
            }
          }
          else if (I.op == O_ICMP) {
            if (a->k == V_SDBL || b->k == V_SDBL) throw Unsupported{"integer comparison of double bits"};
            r = mkBool(iCmp(I.sub, *a, *b));
          }
          else if (I.op == O_FBIN) r = fBin(I.sub, *a, *b);
          else r = mkBool(fCmp(I.sub, *a, *b));
          F.r[I.dst] = def == BTRUE ? r : mkMaybe(def, r);
          break;
        }
        case O_FNEG: { Val a = get(F, I.a); if (a.k == V_MAYBE) F.r[I.dst] = mkMaybe(maybes[a.p].def, fUn(U_NEG, maybes[a.p].v)); else F.r[I.dst] = fUn(U_NEG, a); break; }
        case O_ZEXT: case O_SEXT: case O_ITRUNC: case O_FPTOSI: case O_FPTOUI: case O_SITOFP: case O_UITOFP: case O_FPTRUNC: case O_FPEXT: case O_BITCAST: {
          Val a = get(F, I.a); BId def = BTRUE;
          if (a.k == V_MAYBE) { def = maybes[a.p].def; a = maybes[a.p].v; }
          Val r;
          if (a.k != V_UNDEF) switch (I.op) {
            case O_ZEXT: r = iExt(a, I.w2, false); break; case O_SEXT: r = iExt(a, I.w2, true); break;
            case O_ITRUNC: if (a.k == V_SDBL) throw Unsupported{"double bits"}; r = iTrunc(a, I.w2); break;
            case O_FPTOSI: r = fToInt(a, I.w2, true); break; case O_FPTOUI: r = fToInt(a, I.w2, false); break;
            case O_SITOFP: r = fFromInt(a, true); if (I.w2 == 32) { if (r.k != V_DBL) throw Unsupported{"float"}; r = mkDbl((float)dblOf(r)); r.w = 32; } break;
            case O_UITOFP: r = fFromInt(a, false); if (I.w2 == 32) { if (r.k != V_DBL) throw Unsupported{"float"}; r = mkDbl((float)dblOf(r)); r.w = 32; } break;
            case O_FPTRUNC: if (a.k != V_DBL) throw Unsupported{"symbolic float"}; r = mkDbl((float)dblOf(a)); r.w = 32; break;
            case O_FPEXT: if (a.k != V_DBL) throw Unsupported{"symbolic float"}; r = a; r.w = 64; break;
            default:
              if (a.k == V_DBL && !I.fp) r = mkInt(64, a.p); else if (a.k == V_INT && I.fp && a.w == 64) { r = a; r.k = V_DBL; } else throw Unsupported{"bitcast of symbolic value"};
          }
          F.r[I.dst] = def == BTRUE ? r : mkMaybe(def, r);
          break;
        }
        case O_MOV: F.r[I.dst] = get(F, I.a); break;
        case O_ALLOCA: {
          Val n = defined(get(F, I.a), "allocation size");
          uint64_t cnt = concretize(n);
          uint32_t o = newObj((uint64_t)I.imm * cnt, 1, strdup((I.name.empty() ? "stack variable in " + f.name : I.name).c_str()));
          F.allocas.push_back(o); F.r[I.dst] = mkInt(64, addrOf(o)); break;
        }
        case O_LOAD: {
          uint64_t p = ptrVal(get(F, I.a));
          if (I.agg.empty()) {
            Val v = loadMem(p, (unsigned)I.imm, I.fp);
            if (I.w < 8 && (v.k == V_INT || v.k == V_SINT)) v = iTrunc(v, I.w);
            if (v.k == V_SDBL && !I.fp) { F.r[I.dst] = v; break; }
            F.r[I.dst] = v;
          } else throw Unsupported{"aggregate load"};
          break;
        }
        case O_STORE: {
          uint64_t p = ptrVal(get(F, I.a));
          if (!I.agg.empty()) throw Unsupported{"aggregate store"};
          storeMem(p, get(F, I.b), (unsigned)I.imm); break;
        }
        case O_GEP: {
          Val base = get(F, I.a); BId def = BTRUE;
          if (base.k == V_MAYBE) { def = maybes[base.p].def; base = maybes[base.p].v; }
          if (base.k == V_UNDEF) { F.r[I.dst] = base; break; }
          Val acc = base; bool und = false;
          if (acc.k == V_INT) acc = mkInt(64, acc.p + (uint64_t)I.imm); else acc = iBin(I_ADD, acc, mkInt(64, (uint64_t)I.imm));
          for (auto &e : I.ext) {
            Val ix = get(F, e.first);
            if (ix.k == V_MAYBE) { def = band(def, maybes[ix.p].def); ix = maybes[ix.p].v; }
            if (ix.k == V_UNDEF) { und = true; break; }
            if (ix.k == V_INT && acc.k == V_INT) acc = mkInt(64, acc.p + (uint64_t)(sval(ix) * e.second));
            else { if (ix.w < 64) ix = iExt(ix, 64, true); acc = iBin(I_ADD, acc, iBin(I_MUL, ix, mkInt(64, (uint64_t)e.second))); }
          }
          if (und) acc = Val();
          F.r[I.dst] = und || def == BTRUE ? acc : mkMaybe(def, acc); break;
        }
        case O_SELECT: {
          Val cv = get(F, I.a); BId def = BTRUE;
          if (cv.k == V_UNDEF) { F.r[I.dst] = Val(); break; }
          if (cv.k == V_MAYBE) { def = maybes[cv.p].def; cv = maybes[cv.p].v; if (cv.k == V_UNDEF) { F.r[I.dst] = Val(); break; } }
          BId c = bred(vbool(cv));
          const Val &a = get(F, I.b), &b = get(F, I.c);
          Val r;
          if (c == BTRUE) r = a; else if (c == BFALSE) r = b;
          else {
            bool ok = true;
            try { int sp = policy; r = mergeVal(c, a, b); policy = sp; } catch (MergeFail &) { ok = false; }
            if (!ok) r = decide(c) ? a : b;
          }
          if (def != BTRUE && r.k != V_UNDEF && r.k != V_MAYBE) r = mkMaybe(def, r);
          F.r[I.dst] = r; break;
        }
        case O_BR: next = (int)I.imm; break;
        case O_CBR: {
          Val cv = defined(get(F, I.a), "a branch condition");
          BId c = bred(vbool(cv));
          if (bconst(c)) { next = c == BTRUE ? I.b : I.c; break; }
          ATOM_INC(branches);
          if (!pureLinear(c) || pcSize() > 0) {
            int t = satWith(c);
            if (t == 0) { pcAdd(bnot(c)); if (!pcConsistent()) throw PathEnd{1}; next = I.c; break; }
            if (satWith(bnot(c)) == 0) { pcAdd(c); next = I.b; break; }
          }
          if (!I.noMerge) {
            bool merged = false, fin = false; RunRes rr; int nb = -1, np = -1;
            try { merged = tryMerge(F, I, c, blk, rr, nb, np, fin); }
            catch (MergeFail &) { merged = false; I.mergeFail++; ATOM_INC(mergefails); if (I.mergeFail >= 2 && I.mergeFail > I.mergeOk) I.noMerge = true; }
            if (merged) { I.mergeOk++; ATOM_INC(merges); if (fin) return rr; next = nb; nextPrev = np; break; }
          }
          next = decide(c) ? I.b : I.c;
          break;
        }
        case O_SWITCH: {
          Val v = defined(get(F, I.a), "a switch");
          if (v.k == V_INT) { next = (int)I.imm; for (auto &e : I.ext) if (mkInt(v.w, (uint64_t)e.second).p == v.p) { next = e.first; break; } }
          else { next = (int)I.imm; for (auto &e : I.ext) if (decide(iCmp(P_EQ, v, mkInt(v.w, (uint64_t)e.second)))) { next = e.first; break; } }
          break;
        }
        case O_RET: { RunRes r; r.ret = true; r.prev = blk; if (I.w) r.v = get(F, I.a); return r; }
        case O_UNREACH: throw PathEnd{3};
        case O_CALL: case O_ICALL: {
          int fn;
          if (I.op == O_CALL) fn = (int)I.imm;
          else { uint64_t p = ptrVal(get(F, I.a)); uint32_t o = (uint32_t)(p >> 32); if (o < FNOBJ || o - FNOBJ >= M.fns.size()) fatalPath("memory", "call through invalid pointer at " + where()); fn = (int)(o - FNOBJ); }
          std::vector<Val> args; args.reserve(I.ext.size());
          for (auto &e : I.ext) args.push_back(get(F, e.first));
          Val r = callFn(fn, args, I);
          if (I.dst >= 0) F.r[I.dst] = r;
          break;
        }
        case O_EXTRACT: case O_INSERT: throw Unsupported{"aggregate value"};
        default: throw Unsupported{"instruction op " + std::to_string(I.op) + ": " + I.name};
      }
      if (next >= 0) break;
    }
    if (next < 0) throw Unsupported{"fell off block"};
    prev = nextPrev; blk = next;
  }
}
static Val callFn(int fn, std::vector<Val> &args, const Ins &I) {
  Fn &f = M.fns[fn];
  if (f.ext) {
    if (extCache.size() <= (size_t)fn) extCache.resize(M.fns.size(), nullptr);
    if (!extCache[fn]) extCache[fn] = resolveExt(f.name);
    if (!extCache[fn]) throw Unsupported{"external function " + f.name};
    return extCache[fn](args, I);
  }
  if (callDepth > 4000) { if (mergeDepth) throw MergeFail{}; violation("recursion", "call depth exceeds 4000 (runaway recursion) in " + f.name, BTRUE); throw PathEnd{2}; }
  fnSeen[fn] = 1;
  Frame F(&f);
  for (int i = 0; i < f.nargs && i < (int)args.size(); i++) F.r[i] = args[i];
  RunRes r = runBlocks(F, 0, -1, -1);
  return r.v;
}
struct EqPair { std::vector<BId> a, b; };
static std::vector<EqPair> eqPairs;
#include "models.inc"

// ------------------------------------------------------------------ main
static void endPath(bool complete) {
  if (complete) {
    if (!eqPairs.empty()) {
      ATOM_INC(final_q);
      std::vector<std::pair<BId, BId>> ps; for (auto &e : eqPairs) for (size_t i = 0; i < e.a.size() && i < e.b.size(); i++) ps.push_back({e.a[i], e.b[i]});
      { int sd = satAnyDiffer(ps); if (sd != 0) { __sync_add_and_fetch(&ST->inconclusive, 1); if (getenv("ECSYM_DBG")) { fprintf(stderr, "final query %d\n", sd); for (auto &p : ps) if (satAnyDiffer({p}) != 0) { fprintf(stderr, " %s %s\n", showB(p.first).c_str(), showB(p.second).c_str()); } } } }
    }
    uint64_t n = ATOM_INC(paths);
    if (maxPaths && n >= maxPaths) { ST->stop = 1; }
    if ((int)ST->samples < maxSamples) {
      uint64_t k = ATOM_INC(samples);
      if ((int)k <= maxSamples) {
        Model m;
        if (getModel(BTRUE, m) > 0) {
          char fnm[600]; snprintf(fnm, sizeof fnm, "%s/sample_%llu.txt", outDir.c_str(), (unsigned long long)k);
          FILE *f = fopen(fnm, "w");
          if (f) {
            writeInputs(f, m);
            for (auto &o : observed) {
              Val v = o.v; if (v.k == V_MAYBE) v = maybes[v.p].v;
              if (v.k == V_UNDEF) { fprintf(f, "o %s undef\n", o.name.c_str()); continue; }
              if (v.k == V_DBL || v.k == V_SDBL) fprintf(f, "o %s %.17g\n", o.name.c_str(), evalD(m, v));
              else fprintf(f, "o %s %lld\n", o.name.c_str(), (long long)sval(mkInt(v.w, evalI(m, v))));
            }
            fclose(f);
          }
        }
      }
    }
  } else ATOM_INC(deadpaths);
}
static double startS;
static void report() {
  // report
  std::string path = outDir + "/stats.json";
  FILE *f = fopen(path.c_str(), "w");
  if (!f) _exit(3);
  fprintf(f, "{\"paths\":%llu,\"deadpaths\":%llu,\"instrs\":%llu,\"splits\":%llu,\"merges\":%llu,\"mergefails\":%llu,\"branches\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,"
    "\"asserts_nf\":%llu,\"asserts_smt\":%llu,\"asserts_eq\":%llu,\"final_queries\":%llu,\"asserts_conc\":%llu,\"concretized\":%llu,\"snaps\":%llu,\"solver_s\":%.6f,\"violations\":%d,\"inconclusive\":%d,\"unsupported\":%llu,\"wall_s\":%.3f,\"inputs\":%d,\"atoms\":%u,",
    (unsigned long long)ST->paths, (unsigned long long)ST->deadpaths, (unsigned long long)ST->instrs, (unsigned long long)ST->splits, (unsigned long long)ST->merges, (unsigned long long)ST->mergefails, (unsigned long long)ST->branches, (unsigned long long)ST->queries,
    (unsigned long long)ST->qsat, (unsigned long long)ST->qunsat, (unsigned long long)ST->qunknown, (unsigned long long)ST->asserts_nf, (unsigned long long)ST->asserts_smt, (unsigned long long)ST->asserts_eq, (unsigned long long)ST->final_q, (unsigned long long)ST->asserts_conc, (unsigned long long)ST->concretized, (unsigned long long)ST->snaps,
    ST->solver_us / 1e6, ST->violation, ST->inconclusive, (unsigned long long)ST->unsupported, nowS() - startS, (int)inputs.size(), natoms());
  std::string us = unsupText; for (auto &c : us) if (c == '"' || c == '\\' || c < 32) c = '\'';
  fprintf(f, "\"unsupported_what\":\"%s\",\"functions\":[", us.c_str());
  bool first = true;
  for (auto &fn : M.fns) if (!fn.ext && fnSeen[fn.id]) { fprintf(f, "%s[\"%s\",\"%s\"]", first ? "" : ",", fn.name.c_str(), fn.file.c_str()); first = false; }
  fprintf(f, "],\"covers\":[");
  first = true;
  for (char *p = (char *)coverMap; *p; p += strlen(p) + 1) { fprintf(f, "%s\"%s\"", first ? "" : ",", p); first = false; }
  fprintf(f, "]}\n"); fclose(f);
}
static pid_t rootPid;
static void onAlarm(int) { __sync_add_and_fetch(&ST->inconclusive, 1); ST->stop = 1; if (getpid() == rootPid) report(); _exit(0); }
int main(int argc, char **argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  rlim_t want = 1ull << 30; if (rl.rlim_max != RLIM_INFINITY && rl.rlim_max < want) want = rl.rlim_max;
  if (!getenv("ECSYM_STACK") && (rl.rlim_cur == RLIM_INFINITY ? false : rl.rlim_cur < want)) { rl.rlim_cur = want; setrlimit(RLIMIT_STACK, &rl); setenv("ECSYM_STACK", "1", 1); execv("/proc/self/exe", argv); }
  if (argc < 2) { fprintf(stderr, "usage: ecsym module.bc [options]\n"); return 2; }
  int jobs = 8; double tlim = 600;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nxt(); else if (a == "--out") outDir = nxt(); else if (a == "--jobs") jobs = atoi(nxt().c_str());
    else if (a == "--time") tlim = atof(nxt().c_str()); else if (a == "--max-instr") maxInstr = (uint64_t)atof(nxt().c_str()); else if (a == "--max-paths") maxPaths = (uint64_t)atof(nxt().c_str());
    else if (a == "--samples") maxSamples = atoi(nxt().c_str()); else if (a == "--policy") policy = atoi(nxt().c_str()); else if (a == "--qtimeout") g_timeout_ms = (unsigned)atoi(nxt().c_str()); else if (a == "-v") verbose = true;
    else if (a == "--leafcap") g_leafcap = atoi(nxt().c_str());
    else if (a == "--concrete") { concreteMode = true; FILE *f = fopen(nxt().c_str(), "r"); char ln[4096]; while (f && fgets(ln, sizeof ln, f)) { char k[8], n[1024], v[1024]; if (ln[0] == '#' || ln[0] == 'o') continue; if (sscanf(ln, "%7s %1023s %1023s", k, n, v) == 3) concIn.push_back({k, n, v}); } if (f) fclose(f); }
    else if (a == "-D") { std::string s = nxt(); size_t e = s.find('='); params[s.substr(0, e)] = e == std::string::npos ? "1" : s.substr(e + 1); }
  }
  startS = nowS(); deadline = startS + tlim; rootPid = getpid(); signal(SIGALRM, onAlarm); alarm((unsigned)tlim + 6);
  ST = (Stats *)mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)ST, 0, sizeof(Stats)); ST->tokens = jobs - 1;
  whereHook = where; decideHook = decide; reportUB = ubReport;
  std::string err;
  if (!loadModule(argv[1], err)) { fprintf(stderr, "cannot load %s: %s\n", argv[1], err.c_str()); return 3; }
  fnSeen = (uint8_t *)mmap(nullptr, M.fns.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  coverMap = (uint8_t *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  unsupText = (char *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  installHandlers();
  // globals
  for (auto &g : M.globals) {
    uint32_t o = newObj(g.size, 0, strdup(g.name.c_str()));
    if (g.zero) for (uint64_t i = 0; i < g.size; i++) objs[o].cells[i] = mkInt(8, 0);
    for (auto &c : g.cells) putVal(o, c.first, c.second, c.second.k == V_UNDEF ? (c.second.w + 7) / 8 : bytesOfVal(c.second));
    if (g.undefd) { if (g.name == "stdout" || g.name == "stderr" || g.name == "stdin") putVal(o, 0, mkInt(64, addrOf(o)), 8); }
    objs[o].ro = g.isConst;
  }
  auto it = M.fnByName.find(entry);
  if (it == M.fnByName.end() || M.fns[it->second].ext) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  bool done = false;
  pid_t root = getpid();
  try {
    std::vector<Val> args; Ins dummy;
    callFn(it->second, args, dummy);
    done = true;
  } catch (PathEnd &e) { done = e.why == 0 || e.why == 3; if (e.why == 2) {} }
  catch (Unsupported &u) {
    ATOM_INC(unsupported); __sync_add_and_fetch(&ST->inconclusive, 1);
    std::string s = u.what;
    if (!unsupText[0]) { strncpy(unsupText, s.c_str(), 4000); }
    if (verbose) fprintf(stderr, "unsupported: %s\n", s.c_str());
  } catch (MergeFail &) { ATOM_INC(unsupported); __sync_add_and_fetch(&ST->inconclusive, 1); }
  try { endPath(done); } catch (...) {}
  __sync_add_and_fetch((uint64_t *)&ST->instrs, pathInstr - forkInstrBase);
  if (holdsToken) { __sync_add_and_fetch(&ST->tokens, 1); holdsToken = false; }
  reap();
  if (getpid() != root) _exit(0);
  report();
  return 0;
}
