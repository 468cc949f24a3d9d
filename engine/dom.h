// Symbolic value domain: GF(2)-linear Booleans over input/AND/real-comparison atoms,
// bit-vector integers, doubles (concrete, sign*magnitude, ITE, linear reals).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>

typedef uint32_t BId; // (lin id << 1) | constant term
static const BId BFALSE = 0, BTRUE = 1;
inline bool bconst(BId b) { return b < 2; }
inline BId bnot(BId b) { return b ^ 1u; }

enum VK : uint8_t { V_UNDEF = 0, V_CONT, V_INT, V_SINT, V_DBL, V_SDBL, V_AGG };
struct Val {
  uint8_t k = V_UNDEF;
  uint8_t w = 0;      // width in bits (ints), 64/32 for fp
  uint16_t x = 0;
  uint32_t y = 0;
  uint64_t p = 0;
};
inline bool operator==(const Val &a, const Val &b) { return a.k == b.k && a.w == b.w && a.p == b.p; }
inline bool operator!=(const Val &a, const Val &b) { return !(a == b); }
inline Val mkInt(unsigned w, uint64_t v) { Val r; r.k = V_INT; r.w = (uint8_t)w; r.p = w >= 64 ? v : (v & ((1ull << w) - 1)); return r; }
inline Val mkDbl(double d) { Val r; r.k = V_DBL; r.w = 64; __builtin_memcpy(&r.p, &d, 8); return r; }
inline double dblOf(const Val &v) { double d; __builtin_memcpy(&d, &v.p, 8); return d; }
inline int64_t sval(const Val &v) { return v.w >= 64 ? (int64_t)v.p : ((int64_t)(v.p << (64 - v.w))) >> (64 - v.w); }

extern std::string (*whereHook)();
struct Unsupported { std::string what; Unsupported(const std::string &w) : what(w + (whereHook ? " at " + whereHook() : "")) {} };   // construct outside the encoding: inconclusive
struct MergeFail {};                        // abandon merging of a branch
struct PathEnd { int why; };                // path finished (0 normal, 1 assume, 2 violation, 3 exit)

enum { AT_INPUT = 0, AT_AND = 1, AT_RPOS = 2, AT_FP = 3, AT_GATE = 4, AT_AUX = 5, AT_RR = 6 };
struct Atom { uint8_t kind; uint32_t a, b; };

// ----- Boolean layer
BId bxor(BId a, BId b);
BId band(BId a, BId b);
inline BId bor(BId a, BId b) { return bnot(band(bnot(a), bnot(b))); }
BId bite(BId c, BId a, BId b);
BId bnewInput();                       // fresh input bit
BId batom(uint32_t atom);
uint32_t natoms();
const Atom &atomOf(uint32_t a);
const uint32_t *linAtoms(BId b, size_t &n);
int binputs();

// ----- path condition / solver
BId bred(BId b);                       // reduce under the current linear path constraints
void pcPush();
void pcPop();
void pcAdd(BId b);                     // add b == 1
bool pcConsistent();
int satWith(BId b);                    // is pc && b satisfiable: 1 yes, 0 no, -1 unknown
size_t pcSize();
int satAnyDiffer(const std::vector<std::pair<BId, BId>> &ps); // pc && some pair differs, on the unreduced formulas
std::vector<BId> pcList();

struct Model { std::vector<uint8_t> bits; std::vector<double> reals; bool ok = false; };
int getModel(BId extra, Model &m, bool exact = true);     // model of pc && extra: 1 found, 0 none exists, -1 unknown
bool evalB(const Model &m, BId b);

// ----- ints
Val mkSInt(const std::vector<BId> &bits);
const std::vector<BId> &sbits(const Val &v);
std::vector<BId> bitsOf(const Val &v);
Val iBin(int op, const Val &a, const Val &b);
BId iCmp(int pred, const Val &a, const Val &b);
Val iteVal(BId c, const Val &a, const Val &b, int policy); // throws MergeFail when not representable under policy
uint64_t evalI(const Model &m, const Val &v);
inline BId vbool(const Val &v) { return v.k == V_INT ? (BId)(v.p & 1) : bitsOf(v)[0]; }
Val mkBool(BId b);
Val iExt(const Val &v, unsigned w, bool sgn);
Val iTrunc(const Val &v, unsigned w);

// int op codes
enum { I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR };
enum { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

// ----- doubles
enum { F_ADD, F_SUB, F_MUL, F_DIV, F_REM };
enum { U_NEG, U_LOG, U_EXP, U_SQRT, U_FABS, U_TANH, U_LOG1P, U_FLOOR, U_CEIL, U_ATANH, U_EXPM1, U_COSH };
Val fBin(int op, const Val &a, const Val &b);
Val fUn(int op, const Val &a);
BId fRatioIs(const Val &v, const Val &a, const Val &b);
BId fCmp(int pred, const Val &a, const Val &b); // LLVM FCmp predicate numbers
Val fFromInt(const Val &a, bool sgn);
Val fToInt(const Val &a, unsigned w, bool sgn);
Val iteD(BId c, const Val &a, const Val &b);
Val rInput(double lo, double hi, int &idx);
Val rnInput(double lo, double hi, int &idx); // a double with its rounding
double evalD(const Model &m, const Val &v);
int rinputs();
std::string showD(const Val &v);
std::string showB(BId b);

// callback from the executor: decide a Boolean by splitting the path
extern bool (*decideHook)(BId c);
extern void (*reportUB)(const std::string &what, BId cond);

struct Stats {
  volatile uint64_t instrs, paths, deadpaths, splits, merges, mergefails, branches, queries, qsat, qunsat, qunknown,
      asserts_nf, asserts_smt, asserts_conc, asserts_eq, final_q, assumes, snaps, unsupported, covers, ties, concretized, samples, engines, unconfirmed;
  volatile uint64_t solver_us;
  volatile int violation, stop, tokens, inconclusive;
};
extern Stats *ST;
extern int g_leafcap;
extern unsigned g_timeout_ms;
