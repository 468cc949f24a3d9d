// Models of the C library and of the harness interface.
typedef std::vector<Val> Args;
#define H(name) static Val name(Args &a, const Ins &I)
static Val i32(int64_t v) { return mkInt(32, (uint64_t)v); }
static Val i64(int64_t v) { return mkInt(64, (uint64_t)v); }
static Val D(Args &a, size_t i, const char *w = "a call argument") { if (i >= a.size()) throw Unsupported{"missing argument"}; return defined(a[i], w); }
static int64_t cI(Args &a, size_t i) { Val v = D(a, i); uint64_t x = concretize(v); return sval(mkInt(v.w, x)); }
static uint64_t cP(Args &a, size_t i) { return ptrVal(D(a, i)); }
static void noMerge() { if (mergeDepth) throw MergeFail{}; }
static Val byteLd(uint64_t p) { return defined(loadMem(p, 1, false), "a string"); }
static std::string cstr(uint64_t p) { std::string s; for (;;) { uint64_t c = concretize(byteLd(p)); if (!c) return s; s += (char)c; p++; if (s.size() > 4000000) throw Unsupported{"string too long"}; } }
static bool isNul(const Val &c) { if (c.k == V_INT) return c.p == 0; return decide(iCmp(P_EQ, c, mkInt(8, 0))); }
static std::vector<Val> cvals(uint64_t p) { std::vector<Val> s; for (;;) { Val c = byteLd(p); if (isNul(c)) return s; s.push_back(c); p++; } }
static void putBytes(uint64_t p, const std::vector<Val> &s, bool nul) {
  uint32_t o; uint64_t off; checkAccess(p, s.size() + (nul ? 1 : 0), o, off, true);
  for (size_t i = 0; i < s.size(); i++) putVal(o, off + i, s[i], 1);
  if (nul) putVal(o, off + s.size(), mkInt(8, 0), 1);
}
static std::vector<Val> bytesStr(const std::string &s) { std::vector<Val> r; for (char c : s) r.push_back(mkInt(8, (uint8_t)c)); return r; }

// ---- symbolic numbers in text: "@H<idx>@"
static std::vector<Val> handles;
static std::string newHandle(const Val &v) { handles.push_back(v); return "@H" + std::to_string(handles.size() - 1) + "@"; }
static bool parseHandle(const std::string &s, size_t &used, Val &v) {
  if (s.compare(0, 2, "@H")) return false;
  size_t i = 2; unsigned long k = 0; if (i >= s.size() || !isdigit(s[i])) return false;
  while (i < s.size() && isdigit(s[i])) k = k * 10 + (s[i++] - '0');
  if (i >= s.size() || s[i] != '@' || k >= handles.size()) return false;
  used = i + 1; v = handles[k]; return true;
}

// ---- heap
// fault injection: the failIn-th allocation from the call of sym_fail_alloc returns NULL
static int64_t failIn = 0; static bool failFired = false;
static bool allocFails() { if (failIn > 0 && --failIn == 0) { failFired = true; return true; } return false; }
static Val s_fail_alloc(Args &a, const Ins &I) { noMerge(); bool f = failFired; failFired = false; failIn = cI(a, 0); return i32(f); }
H(h_malloc) { noMerge(); if (allocFails()) return mkInt(64, 0); uint64_t n = (uint64_t)cI(a, 0); uint32_t o = newObj(n, 2, "heap block"); heapLive++; return mkInt(64, addrOf(o)); }
static Val h_model_malloc(Args &a, const Ins &I) { int64_t f = failIn; failIn = 0; Val v = h_malloc(a, I); failIn = f; return v; } // work space of libc models
H(h_calloc) { noMerge(); if (allocFails()) return mkInt(64, 0); uint64_t n = (uint64_t)cI(a, 0) * (uint64_t)cI(a, 1); uint32_t o = newObj(n, 2, "heap block"); heapLive++; for (uint64_t i = 0; i < n; i++) objs[o].cells[i] = mkInt(8, 0); return mkInt(64, addrOf(o)); }
static void doFree(uint64_t p) {
  if (!p) return;
  noMerge();
  uint32_t o = (uint32_t)(p >> 32);
  if (o == 0 || o >= objs.size() || (p & 0xffffffffu) || objs[o].kind != 2) fatalPath("memory", "free of an invalid pointer at " + where());
  if (!objs[o].alive) fatalPath("memory", "double free at " + where());
  heapLive--; killObj(o);
}
H(h_free) { doFree(cP(a, 0)); return Val(); }
H(h_realloc) {
  noMerge(); if (allocFails()) return mkInt(64, 0); uint64_t p = cP(a, 0), n = (uint64_t)cI(a, 1); uint32_t o = newObj(n, 2, "heap block"); heapLive++;
  if (p) { uint32_t q = (uint32_t)(p >> 32); if (q >= objs.size() || !objs[q].alive) fatalPath("memory", "realloc of an invalid pointer at " + where()); copyMem(addrOf(o), p, std::min(n, objs[q].size)); doFree(p); }
  return mkInt(64, addrOf(o));
}
H(h_memcpy) {
  uint64_t n = (uint64_t)cI(a, 2);
  if (n) { uint64_t d = cP(a, 0), s = cP(a, 1); if ((d >> 32) == (s >> 32) && d != s && d < s + n && s < d + n) fatalPath("memory", "overlapping memcpy at " + where()); copyMem(d, s, n); }
  return a[0];
}
H(h_memmove) { uint64_t n = (uint64_t)cI(a, 2); if (n) copyMem(cP(a, 0), cP(a, 1), n); return a[0]; }
H(h_memset) {
  uint64_t n = (uint64_t)cI(a, 2); if (!n) return a[0];
  Val c = a[1]; if (c.k == V_MAYBE) c = maybes[c.p].v; c = iTrunc(c, 8);
  uint32_t o; uint64_t off; checkAccess(cP(a, 0), n, o, off, true);
  cutAt(o, off); cutAt(o, off + n);
  for (uint64_t i = 0; i < n; i++) setCell(o, off + i, c);
  return a[0];
}
// ---- maths
static Val mathUn(int op, Args &a) { Val v = a[0]; if (v.k == V_MAYBE) return mkMaybe(maybes[v.p].def, fUn(op, maybes[v.p].v)); return fUn(op, v); }
H(h_log) { return mathUn(U_LOG, a); }
H(h_exp) { return mathUn(U_EXP, a); }
H(h_sqrt) { return mathUn(U_SQRT, a); }
H(h_fabs) { return mathUn(U_FABS, a); }
H(h_tanh) { return mathUn(U_TANH, a); }
H(h_log1p) { return mathUn(U_LOG1P, a); }
H(h_expm1) { return mathUn(U_EXPM1, a); }
H(h_floor) { return mathUn(U_FLOOR, a); }
H(h_ceil) { return mathUn(U_CEIL, a); }
H(h_atanh) { return mathUn(U_ATANH, a); }
H(h_cosh) { return mathUn(U_COSH, a); }
static double cD(Args &a, size_t i) { Val v = D(a, i); if (v.k != V_DBL) throw Unsupported{"symbolic argument of a mathematical function"}; return dblOf(v); }
H(h_pow) { return mkDbl(pow(cD(a, 0), cD(a, 1))); }
H(h_log2) { return mkDbl(log2(cD(a, 0))); }
H(h_log10) { return mkDbl(log10(cD(a, 0))); }
H(h_round) { return mkDbl(round(cD(a, 0))); }
H(h_cos) { return mkDbl(cos(cD(a, 0))); }
H(h_sin) { return mkDbl(sin(cD(a, 0))); }
H(h_fmax) { Val x = D(a, 0), y = D(a, 1); return iteD(fCmp(3, x, y), x, y); }
H(h_fmin) { Val x = D(a, 0), y = D(a, 1); return iteD(fCmp(3, x, y), y, x); }
H(h_copysign) { Val x = fUn(U_FABS, D(a, 0)); BId neg = fCmp(4, D(a, 1), mkDbl(0)); return iteD(neg, fUn(U_NEG, x), x); }
H(h_isnan) { return i32(0); }
H(h_abs) { Val v = D(a, 0); BId n = iCmp(P_SLT, v, mkInt(v.w, 0)); return iteVal(n, iBin(I_SUB, mkInt(v.w, 0), v), v, 2); }
static Val mm(Args &a, int pred) { Val x = D(a, 0), y = D(a, 1); return iteVal(iCmp(pred, x, y), x, y, 2); }
H(h_smax) { return mm(a, P_SGE); }
H(h_smin) { return mm(a, P_SLE); }
H(h_umax) { return mm(a, P_UGE); }
H(h_umin) { return mm(a, P_ULE); }
H(h_nop) { return i32(0); }
H(h_first) { return a[0]; }
H(h_stacksave) { return mkInt(64, 0); }

// ---- formatted output
static std::vector<Val> format(const std::string &f, Args &a, size_t ai) {
  std::vector<Val> out;
  auto app = [&](const std::string &s) { for (char c : s) out.push_back(mkInt(8, (uint8_t)c)); };
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { out.push_back(mkInt(8, (uint8_t)f[i])); continue; }
    size_t j = i + 1; std::string spec = "%";
    while (j < f.size() && strchr("-+ #0123456789.*", f[j])) { if (f[j] == '*') spec += std::to_string(cI(a, ai++)); else spec += f[j]; j++; }
    int l = 0; while (j < f.size() && strchr("hlLzjt", f[j])) { if (f[j] == 'l' || f[j] == 'z' || f[j] == 'j' || f[j] == 't') l++; j++; }
    if (j >= f.size()) throw Unsupported{"format"};
    char c = f[j]; i = j; char b[512];
    switch (c) {
      case '%': app("%"); break;
      case 'c': { Val v = D(a, ai++); out.push_back(iTrunc(v, 8)); break; }
      case 's': {
        uint64_t p = cP(a, ai++); std::vector<Val> s = cvals(p);
        size_t dot = spec.find('.'); if (dot != std::string::npos) { size_t n = atoi(spec.c_str() + dot + 1); if (s.size() > n) s.resize(n); }
        out.insert(out.end(), s.begin(), s.end()); break;
      }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
        Val v = D(a, ai++); v = v.k == V_SINT ? mkSInt([&] { auto z = bitsOf(v); for (auto &q : z) q = bred(q); return z; }()) : v;
        if (v.k == V_INT) {
          spec += "ll"; spec += c; long long x = c == 'd' || c == 'i' ? (long long)sval(v) : (long long)v.p;
          snprintf(b, sizeof b, spec.c_str(), x); app(b);
        } else app(newHandle(v));
        break;
      }
      case 'g': case 'f': case 'e': case 'G': case 'E': case 'F': {
        Val v = D(a, ai++); spec += c;
        if (v.k == V_DBL) { snprintf(b, sizeof b, spec.c_str(), dblOf(v)); app(b); } else app(newHandle(v));
        break;
      }
      case 'p': app("0x1234"); ai++; break;
      default: throw Unsupported{std::string("format %") + c};
    }
  }
  return out;
}
H(h_printf) { return i32(0); }
H(h_sprintf) { std::vector<Val> s = format(cstr(cP(a, 1)), a, 2); putBytes(cP(a, 0), s, true); return i32(s.size()); }
H(h_snprintf) { std::vector<Val> s = format(cstr(cP(a, 2)), a, 3); uint64_t n = (uint64_t)cI(a, 1); size_t full = s.size(); if (n) { if (s.size() > n - 1) s.resize(n - 1); putBytes(cP(a, 0), s, true); } return i32(full); }
// ---- text to number
static std::string numText(uint64_t p) {
  std::string s;
  for (;;) { uint64_t c = concretize(byteLd(p + s.size())); if (!c || s.size() > 400) break; s += (char)c; if (s.size() > 1 && (isspace(c) || c == 1 || c == '}' ) && !isspace(s[0])) break; }
  return s;
}
static void setEnd(Args &a, uint64_t p, size_t n) { if (a.size() > 1) { uint64_t e = cP(a, 1); if (e) storeMem(e, mkInt(64, p + n), 8); } }
static Val toI(const Val &v, unsigned w) { if (v.k == V_DBL || v.k == V_SDBL) return fToInt(v, w, true); return v.w == w ? v : v.w > w ? iTrunc(v, w) : iExt(v, w, true); }
static Val strToInt(Args &a, unsigned w, int base, bool hasEnd) {
  uint64_t p = cP(a, 0);
  if (!p) fatalPath("memory", "null pointer passed to a number conversion at " + where());
  std::string s = numText(p); size_t k = 0; while (k < s.size() && isspace(s[k])) k++;
  size_t u; Val v;
  if (parseHandle(s.substr(k), u, v)) { if (hasEnd) setEnd(a, p, k + u); return toI(v, w); }
  char *e; errno = 0; long long x = strtoll(s.c_str(), &e, base);
  if (hasEnd) setEnd(a, p, e - s.c_str());
  return mkInt(w, (uint64_t)x);
}
H(h_atoi) { return strToInt(a, 32, 10, false); }
H(h_atol) { return strToInt(a, 64, 10, false); }
H(h_strtol) { return strToInt(a, 64, (int)cI(a, 2), true); }
static Val strToD(Args &a, bool hasEnd) {
  uint64_t p = cP(a, 0);
  if (!p) fatalPath("memory", "null pointer passed to a number conversion at " + where());
  std::string s = numText(p); size_t k = 0; while (k < s.size() && isspace(s[k])) k++;
  size_t u; Val v;
  if (parseHandle(s.substr(k), u, v)) { if (hasEnd) setEnd(a, p, k + u); return v.k == V_DBL || v.k == V_SDBL ? v : fFromInt(v, true); }
  char *e; double x = strtod(s.c_str(), &e);
  if (hasEnd) setEnd(a, p, e - s.c_str());
  return mkDbl(x);
}
H(h_atof) { return strToD(a, false); }
H(h_strtod) { return strToD(a, true); }

// ---- files (in memory)
struct VFile { std::vector<Val> data; };
static std::map<std::string, VFile> fsys;
static std::set<std::string> fsDeny;
struct VStream { std::string name; size_t pos = 0; bool rd = false, wr = false, app = false, open = false, eof = false; };
static std::map<uint32_t, VStream> streams;
static int filesOpen = 0;
static VStream &stm(uint64_t p, bool *std_ = nullptr) {
  uint32_t o = (uint32_t)(p >> 32);
  auto it = streams.find(o);
  if (it == streams.end()) {
    if (std_ && o && o <= M.globals.size()) { *std_ = true; static VStream d; return d; }
    fatalPath("memory", "invalid FILE pointer at " + where());
  }
  if (!it->second.open) fatalPath("memory", "use of a closed FILE at " + where());
  return it->second;
}
static std::string fname(uint64_t p) { std::string s = cstr(p); while (s.compare(0, 2, "./") == 0) s.erase(0, 2); return s; }
H(h_fopen) {
  noMerge();
  uint64_t np = cP(a, 0); if (!np) fatalPath("memory", "null file name passed to fopen at " + where());
  std::string n = fname(np), m = cstr(cP(a, 1));
  bool rd = m[0] == 'r' || m.find('+') != std::string::npos, wr = m[0] != 'r' || m.find('+') != std::string::npos;
  if (n.empty() || n == "." || n.back() == '/') return mkInt(64, 0);
  if (fsDeny.count(n)) return mkInt(64, 0);
  if (n.find('/') != std::string::npos) return mkInt(64, 0);   // no directories in the model
  auto it = fsys.find(n);
  if (m[0] == 'r' && it == fsys.end()) return mkInt(64, 0);
  if (m[0] == 'w') fsys[n].data.clear();
  if (m[0] == 'a') fsys[n];
  uint32_t o = newObj(16, 3, "FILE"); VStream s; s.name = n; s.rd = rd; s.wr = wr; s.app = m[0] == 'a'; s.open = true;
  streams[o] = s; filesOpen++; heapLive++;
  return mkInt(64, addrOf(o));
}
H(h_fclose) { noMerge(); VStream &s = stm(cP(a, 0)); s.open = false; filesOpen--; heapLive--; return i32(0); }
static void swrite(VStream &s, const std::vector<Val> &d) {
  if (!s.wr) return;
  VFile &f = fsys[s.name];
  if (s.app) s.pos = f.data.size();
  if (f.data.size() < s.pos + d.size()) f.data.resize(s.pos + d.size(), mkInt(8, 0));
  for (auto &c : d) f.data[s.pos++] = c;
}
H(h_fprintf) { noMerge(); bool sd = false; VStream &s = stm(cP(a, 0), &sd); if (sd) return i32(0); auto d = format(cstr(cP(a, 1)), a, 2); swrite(s, d); return i32(d.size()); }
H(h_fputs) { noMerge(); bool sd = false; VStream &s = stm(cP(a, 1), &sd); if (sd) return i32(0); swrite(s, cvals(cP(a, 0))); return i32(1); }
H(h_fputc) { noMerge(); bool sd = false; VStream &s = stm(cP(a, 1), &sd); if (sd) return a[0]; swrite(s, {iTrunc(D(a, 0), 8)}); return a[0]; }
H(h_fwrite) {
  noMerge(); uint64_t sz = (uint64_t)cI(a, 1), n = (uint64_t)cI(a, 2), p = cP(a, 0); bool sd = false; VStream &s = stm(cP(a, 3), &sd); if (sd) return i64(n);
  std::vector<Val> d; for (uint64_t i = 0; i < sz * n; i++) d.push_back(defined(loadMem(p + i, 1, false), "file output")); swrite(s, d); return i64(n);
}
H(h_fgetc) { noMerge(); VStream &s = stm(cP(a, 0)); VFile &f = fsys[s.name]; if (!s.rd || s.pos >= f.data.size()) { s.eof = true; return i32(-1); } return iExt(f.data[s.pos++], 32, false); }
H(h_ungetc) { noMerge(); VStream &s = stm(cP(a, 1)); if (s.pos) s.pos--; s.eof = false; return a[0]; }
H(h_fgets) {
  noMerge(); uint64_t p = cP(a, 0); int64_t n = cI(a, 1); VStream &s = stm(cP(a, 2)); VFile &f = fsys[s.name];
  std::vector<Val> out;
  while ((int64_t)out.size() < n - 1 && s.pos < f.data.size()) { Val c = f.data[s.pos++]; out.push_back(c); if (c.k == V_INT ? c.p == '\n' : decide(iCmp(P_EQ, c, mkInt(8, '\n')))) break; }
  if (s.pos >= f.data.size() && (out.empty() || (int64_t)out.size() < n - 1)) { if (out.empty() || !(out.back().k == V_INT && out.back().p == '\n')) s.eof = true; }
  if (out.empty()) return mkInt(64, 0);
  putBytes(p, out, true); return a[0];
}
H(h_fread) {
  noMerge(); uint64_t p = cP(a, 0), sz = (uint64_t)cI(a, 1), n = (uint64_t)cI(a, 2); VStream &s = stm(cP(a, 3)); VFile &f = fsys[s.name];
  if (!sz || !n) return i64(0);
  size_t av = s.rd && s.pos < f.data.size() ? f.data.size() - s.pos : 0; size_t tot = sz * n; if (tot > av) { s.eof = true; tot = av; }
  std::vector<Val> d(f.data.begin() + s.pos, f.data.begin() + s.pos + tot); if (tot) putBytes(p, d, false); s.pos += tot;
  return i64(tot / sz);
}
H(h_feof) { return i32(stm(cP(a, 0)).eof); }
H(h_ferror) { stm(cP(a, 0)); return i32(0); }
H(h_rewind) { noMerge(); stm(cP(a, 0)).pos = 0; return Val(); }
H(h_ftell) { return i64(stm(cP(a, 0)).pos); }
H(h_fseek) { noMerge(); VStream &s = stm(cP(a, 0)); int64_t o = cI(a, 1), w = cI(a, 2); int64_t b = w == 0 ? 0 : w == 1 ? (int64_t)s.pos : (int64_t)fsys[s.name].data.size(); s.pos = (size_t)(b + o); s.eof = false; return i32(0); }
H(h_fflush) { return i32(0); }
H(h_remove) { noMerge(); std::string n = fname(cP(a, 0)); if (fsDeny.count(n)) return i32(-1); return i32(fsys.erase(n) ? 0 : -1); }
H(h_rename) { noMerge(); std::string n = fname(cP(a, 0)), m = fname(cP(a, 1)); auto it = fsys.find(n); if (it == fsys.end()) return i32(-1); fsys[m] = it->second; fsys.erase(n); return i32(0); }
H(h_access) { std::string n = fname(cP(a, 0)); return i32(fsys.count(n) ? 0 : -1); }
// ---- environment
H(h_time) { noMerge(); if (!a.empty()) { uint64_t p = cP(a, 0); if (p) storeMem(p, i64(1700000000), 8); } return i64(1700000000); }
H(h_clock) { return i64(1000); }
static uint64_t rndState = 12345;
H(h_rand) { noMerge(); rndState = rndState * 6364136223846793005ull + 1442695040888963407ull; return i32((rndState >> 33) & 0x7fffffff); }
H(h_srand) { noMerge(); rndState = (uint64_t)cI(a, 0) + 12345; return Val(); }
H(h_exit) { noMerge(); throw PathEnd{3}; }
H(h_abort) { fatalPath("abort", "abort called at " + where()); }
H(h_assertfail) { fatalPath("abort", "assertion failed at " + where()); }
H(h_getenv) { return mkInt(64, 0); }
static Val ctype1(Args &a, int (*f)(int)) {
  Val v = D(a, 0);
  if (v.k == V_INT) return i32(f((int)sval(v)) ? 1 : 0);
  BId r = BFALSE; // disjunction over the class
  for (int c = 0; c < 256; c++) if (f(c)) r = bor(r, iCmp(P_EQ, v, mkInt(v.w, (uint64_t)c)));
  return iExt(mkBool(r), 32, false);
}
H(h_isspace) { return ctype1(a, isspace); }
H(h_isdigit) { return ctype1(a, isdigit); }
H(h_isalpha) { return ctype1(a, isalpha); }
H(h_isalnum) { return ctype1(a, isalnum); }
static uint32_t ctypeObj = 0;
H(h_ctype_b_loc) {
  noMerge();
  if (!ctypeObj) {
    const unsigned short *t = *__ctype_b_loc(); uint32_t o = newObj(384 * 2, 0, "ctype table"); for (int i = 0; i < 384; i++) putVal(o, i * 2, mkInt(16, t[i - 128]), 2);
    ctypeObj = newObj(8, 0, "ctype pointer"); putVal(ctypeObj, 0, mkInt(64, addrOf(o, 256)), 8);
  }
  return mkInt(64, addrOf(ctypeObj));
}
// ---- harness interface
static std::string nm(Args &a) { return cstr(cP(a, 0)); }
static bool concVal(const std::string &n, std::string &v) {
  if (!concreteMode) return false;
  if (concPos < concIn.size()) { if (concIn[concPos].name != n) throw Unsupported{"concrete input mismatch " + n}; v = concIn[concPos++].val; return true; }
  v = "0"; return true;
}
static Val rangeInt(const std::string &n, int64_t lo, int64_t hi, unsigned w) {
  noMerge();
  std::string cv; if (concVal(n, cv)) { Val v = mkInt(w, (uint64_t)atoll(cv.c_str())); inputs.push_back({'i', n, v, 0}); return v; }
  if (hi < lo) throw PathEnd{1};
  Val v;
  if (hi == lo) v = mkInt(w, (uint64_t)lo);
  else {
    uint64_t span = (uint64_t)hi - (uint64_t)lo; unsigned nb = 64 - __builtin_clzll(span);
    std::vector<BId> b(w, BFALSE); for (unsigned i = 0; i < nb; i++) b[i] = bnewInput();
    Val u = mkSInt(b);
    if (span != (nb >= 64 ? ~0ull : ((1ull << nb) - 1))) { pcAdd(iCmp(P_ULE, u, mkInt(w, span))); }
    v = lo ? iBin(I_ADD, u, mkInt(w, (uint64_t)lo)) : u;
  }
  inputs.push_back({'i', n, v, 0});
  return v;
}
H(s_bit) { return rangeInt(nm(a), 0, 1, 32); }
H(s_bit_i) { return rangeInt(nm(a) + "[" + std::to_string(cI(a, 1)) + "]", 0, 1, 32); }
H(s_int) { return rangeInt(nm(a), cI(a, 1), cI(a, 2), 32); }
H(s_i64) { return rangeInt(nm(a), cI(a, 1), cI(a, 2), 64); }
H(s_char) { return iTrunc(rangeInt(nm(a), 0, 255, 32), 8); }
H(s_choice) { Val v = rangeInt(nm(a), 0, cI(a, 1) - 1, 32); uint64_t x = concretize(v); if (!concreteMode) inputs.back().v = i32((int64_t)x); return i32((int64_t)x); }
H(s_real) {
  noMerge(); std::string n = nm(a); double lo = cD(a, 1), hi = cD(a, 2);
  std::string cv; if (concVal(n, cv)) { Val v = mkDbl(atof(cv.c_str())); inputs.push_back({'r', n, v, 0}); return v; }
  int idx; Val v = rInput(lo, hi, idx); inputs.push_back({'r', n, v, idx}); return v;
}
H(s_fp) {
  noMerge(); std::string n = nm(a); double lo = cD(a, 1), hi = cD(a, 2);
  std::string cv; if (concVal(n, cv)) { Val v = mkDbl(atof(cv.c_str())); inputs.push_back({'r', n, v, 0}); return v; }
  int idx; Val v = rnInput(lo, hi, idx); inputs.push_back({'r', n, v, idx}); return v;
}
H(s_real_i) {
  noMerge(); std::string n = nm(a) + "[" + std::to_string(cI(a, 1)) + "]"; double lo = cD(a, 2), hi = cD(a, 3);
  std::string cv; if (concVal(n, cv)) { Val v = mkDbl(atof(cv.c_str())); inputs.push_back({'r', n, v, 0}); return v; }
  int idx; Val v = rInput(lo, hi, idx); inputs.push_back({'r', n, v, idx}); return v;
}
H(s_assume) {
  Val v = D(a, 0); BId c = bred(bnot(iCmp(P_EQ, v, mkInt(v.w, 0))));
  ATOM_INC(assumes);
  if (c == BFALSE) throw PathEnd{1};
  if (c == BTRUE) return Val();
  pcAdd(c); if (!pcConsistent() || satWith(BTRUE) == 0) throw PathEnd{1};
  return Val();
}
H(s_assert) {
  Val v = D(a, 0, "a property");
  std::string msg = cstr(cP(a, 1));
  if (v.k == V_INT) { ATOM_INC(asserts_conc); if (v.p == 0) { violation("assert", msg, BTRUE); throw PathEnd{2}; } return Val(); }
  BId c = bred(bnot(iCmp(P_EQ, v, mkInt(v.w, 0))));
  if (c == BTRUE) { ATOM_INC(asserts_nf); return Val(); }
  ATOM_INC(asserts_smt); double tA = nowS(); struct TT { double t; const std::string &m; ~TT() { if (getenv("ECSYM_DBG") && nowS() - t > 1) fprintf(stderr, "assert %s: %.1f s\n", m.c_str(), nowS() - t); } } tt{tA, msg};
  int r = c == BFALSE ? 1 : satWith(bnot(c));
  if (r < 0) { __sync_add_and_fetch(&ST->inconclusive, 1); pcAdd(c); return Val(); }
  if (r == 1) { violation("assert", msg, bnot(c)); }
  pcAdd(c);
  if (!pcConsistent() || (r == 1 && satWith(BTRUE) == 0)) throw PathEnd{2};
  return Val();
}
H(s_assert_eq) { // equality of two integers; decided at once on the canonical forms and again by the solver at the end of the path
  Val x = D(a, 0, "a property"), y = D(a, 1, "a property"); std::string msg = cstr(cP(a, 2));
  if (x.k == V_INT && y.k == V_INT) { ATOM_INC(asserts_conc); if (x.p != y.p) { violation("assert", msg, BTRUE); throw PathEnd{2}; } return Val(); }
  BId c = bred(iCmp(P_EQ, x, y));
  if (c != BTRUE) {
    ATOM_INC(asserts_smt); double tA = nowS(); struct TT { double t; const std::string &m; ~TT() { if (getenv("ECSYM_DBG") && nowS() - t > 1) fprintf(stderr, "assert %s: %.1f s\n", m.c_str(), nowS() - t); } } tt{tA, msg};
    int r = c == BFALSE ? 1 : satWith(bnot(c));
    if (r < 0) { __sync_add_and_fetch(&ST->inconclusive, 1); pcAdd(c); return Val(); }
    if (r == 1) violation("assert", msg, bnot(c));
    pcAdd(c);
    if (!pcConsistent() || (r == 1 && satWith(BTRUE) == 0)) throw PathEnd{2};
    return Val();
  }
  ATOM_INC(asserts_eq);
  if (!mergeDepth && eqPairs.size() < 100000) eqPairs.push_back({bitsOf(x), bitsOf(y)});
  return Val();
}
H(s_cover) {
  std::string n = nm(a); if (mergeDepth) { /* reachable under the branch condition */ if (satWith(BTRUE) != 1) return Val(); }
  char *p = (char *)coverMap; char *end = p + 65000;
  for (; *p; p += strlen(p) + 1) if (n == p) return Val();
  // small race between processes: duplicates are harmless, they are removed when read
  static volatile int *lk = (volatile int *)(coverMap + 65528);
  while (__sync_lock_test_and_set(lk, 1)) usleep(50);
  for (p = (char *)coverMap; *p; p += strlen(p) + 1) if (n == p) { __sync_lock_release(lk); return Val(); }
  if (p + n.size() + 2 < end) { memcpy(p, n.c_str(), n.size() + 1); ATOM_INC(covers); }
  __sync_lock_release(lk);
  return Val();
}
H(s_obs_int) { noMerge(); observed.push_back({nm(a), a[1]}); return Val(); }
H(s_obs_dbl) { noMerge(); observed.push_back({nm(a), a[1]}); return Val(); }
H(s_param) { std::string n = nm(a); auto it = params.find(n); return i32(it == params.end() ? cI(a, 1) : atoll(it->second.c_str())); }
H(s_param_str) { // copies the text into the buffer
  std::string n = nm(a); auto it = params.find(n); std::string s = it == params.end() ? cstr(cP(a, 1)) : it->second; putBytes(cP(a, 2), bytesStr(s), true); return i32(s.size());
}
H(s_policy) { int o = policy; policy = (int)cI(a, 0); return i32(o); }
H(s_heap_live) { return i32((int64_t)heapLive); }
H(s_concrete) { Val v = D(a, 0); return mkInt(v.w, concretize(v)); }
H(s_file_exists) { return i32(fsys.count(nm(a)) ? 1 : 0); }
H(s_is_sym) { return i32(1); }
H(s_or) { Val x = D(a, 0), y = D(a, 1); BId p = bnot(iCmp(P_EQ, x, mkInt(x.w, 0))), q = bnot(iCmp(P_EQ, y, mkInt(y.w, 0))); return iExt(mkBool(bor(p, q)), 32, false); }
H(s_ratio) { Val v = D(a, 0), x = D(a, 1), y = D(a, 2); BId z = iCmp(P_EQ, y, mkInt(64, 0)); if (z == BTRUE) return i32(1); BId r = fRatioIs(v, x, y); return iExt(mkBool(bor(z, r)), 32, false); }
H(s_and) { Val x = D(a, 0), y = D(a, 1); BId p = bnot(iCmp(P_EQ, x, mkInt(x.w, 0))), q = bnot(iCmp(P_EQ, y, mkInt(y.w, 0))); return iExt(mkBool(band(p, q)), 32, false); }
H(s_defined) { // is the byte at p initialised on every execution of this path
  uint64_t p = cP(a, 0); uint32_t o; uint64_t off; checkAccess(p, 1, o, off, false);
  Val c = objs[o].cells[off]; if (c.k == V_CONT) c = objs[o].cells[off - c.p];
  if (c.k == V_UNDEF) return i32(0); if (c.k == V_MAYBE) return iExt(mkBool(maybes[c.p].def), 32, false); return i32(1);
}
H(s_debug) { Val v = a[1]; fprintf(stderr, "DEBUG %s k=%d %s\n", nm(a).c_str(), v.k, v.k == V_DBL || v.k == V_SDBL ? showD(v).substr(0, 200).c_str() : std::to_string(v.p).c_str());
  if (binputs() <= 4 && v.k == V_SDBL) { fprintf(stderr, "   "); for (int x = 0; x < (1 << binputs()); x++) { Model m; for (int i = 0; i < binputs(); i++) m.bits.push_back((x >> i) & 1); bool ok = true; for (BId c : pcList()) ok &= evalB(m, c); fprintf(stderr, ok ? " %.17g" : " (%.17g)", evalD(m, v)); } fprintf(stderr, "\n"); }
  return Val(); }

static Handler resolveExt(const std::string &n) {
  auto it = handlers.find(n); if (it != handlers.end()) return it->second;
  static const struct { const char *p; Handler h; } pre[] = {
    {"llvm.memcpy", h_memcpy}, {"llvm.memmove", h_memmove}, {"llvm.memset", h_memset}, {"llvm.fabs", h_fabs}, {"llvm.sqrt", h_sqrt}, {"llvm.exp.", h_exp}, {"llvm.log.", h_log}, {"llvm.floor", h_floor}, {"llvm.ceil", h_ceil},
    {"llvm.maxnum", h_fmax}, {"llvm.minnum", h_fmin}, {"llvm.copysign", h_copysign}, {"llvm.smax", h_smax}, {"llvm.smin", h_smin}, {"llvm.umax", h_umax}, {"llvm.umin", h_umin}, {"llvm.abs", h_abs}, {"llvm.expect", h_first},
    {"llvm.lifetime", h_nop}, {"llvm.dbg", h_nop}, {"llvm.assume", h_nop}, {"llvm.stacksave", h_stacksave}, {"llvm.stackrestore", h_nop}, {"llvm.experimental.noalias", h_nop}, {"llvm.va_start", h_nop}, {"llvm.va_end", h_nop}, {"llvm.pow.", h_pow}};
  for (auto &e : pre) if (!n.compare(0, strlen(e.p), e.p)) return e.h;
  return nullptr;
}
static void installHandlers() {
  static const struct { const char *n; Handler h; } t[] = {
    {"malloc", h_malloc}, {"__model_malloc", h_model_malloc}, {"calloc", h_calloc}, {"realloc", h_realloc}, {"free", h_free}, {"memcpy", h_memcpy}, {"memmove", h_memmove}, {"memset", h_memset},
    {"log", h_log}, {"exp", h_exp}, {"sqrt", h_sqrt}, {"fabs", h_fabs}, {"tanh", h_tanh}, {"log1p", h_log1p}, {"expm1", h_expm1}, {"floor", h_floor}, {"ceil", h_ceil}, {"atanh", h_atanh}, {"cosh", h_cosh}, {"pow", h_pow}, {"log2", h_log2}, {"log10", h_log10}, {"round", h_round}, {"cos", h_cos}, {"sin", h_sin}, {"fmax", h_fmax}, {"fmin", h_fmin}, {"abs", h_abs}, {"labs", h_abs}, {"copysign", h_copysign}, {"__isnan", h_isnan}, {"__isinf", h_isnan},
    {"printf", h_printf}, {"puts", h_printf}, {"putchar", h_printf}, {"sprintf", h_sprintf}, {"snprintf", h_snprintf}, {"vprintf", h_printf},
    {"atoi", h_atoi}, {"atol", h_atol}, {"atoll", h_atol}, {"strtol", h_strtol}, {"strtoll", h_strtol}, {"__isoc23_strtol", h_strtol}, {"strtoul", h_strtol}, {"atof", h_atof}, {"strtod", h_strtod},
    {"fopen", h_fopen}, {"fclose", h_fclose}, {"fprintf", h_fprintf}, {"fputs", h_fputs}, {"fputc", h_fputc}, {"putc", h_fputc}, {"fwrite", h_fwrite}, {"fgetc", h_fgetc}, {"getc", h_fgetc}, {"ungetc", h_ungetc}, {"fgets", h_fgets}, {"fread", h_fread}, {"feof", h_feof}, {"ferror", h_ferror}, {"rewind", h_rewind}, {"ftell", h_ftell}, {"fseek", h_fseek}, {"fflush", h_fflush}, {"remove", h_remove}, {"unlink", h_remove}, {"rename", h_rename}, {"access", h_access},
    {"time", h_time}, {"clock", h_clock}, {"rand", h_rand}, {"srand", h_srand}, {"exit", h_exit}, {"abort", h_abort}, {"__assert_fail", h_assertfail}, {"getenv", h_getenv},
    {"isspace", h_isspace}, {"isdigit", h_isdigit}, {"isalpha", h_isalpha}, {"isalnum", h_isalnum}, {"__ctype_b_loc", h_ctype_b_loc},
    {"sym_bit", s_bit}, {"sym_bit_i", s_bit_i}, {"sym_int", s_int}, {"sym_i64", s_i64}, {"sym_char", s_char}, {"sym_choice", s_choice}, {"sym_real", s_real}, {"sym_fp", s_fp}, {"sym_real_i", s_real_i}, {"sym_assume", s_assume}, {"sym_assert", s_assert}, {"sym_cover", s_cover}, {"sym_assert_eq", s_assert_eq},
    {"sym_observe_int", s_obs_int}, {"sym_observe_dbl", s_obs_dbl}, {"sym_param", s_param}, {"sym_param_str", s_param_str}, {"sym_policy", s_policy}, {"sym_heap_live", s_heap_live}, {"sym_fail_alloc", s_fail_alloc}, {"sym_concrete", s_concrete}, {"sym_file_exists", s_file_exists}, {"sym_is_symbolic", s_is_sym}, {"sym_or", s_or}, {"sym_ratio", s_ratio}, {"sym_and", s_and}, {"sym_defined", s_defined}, {"sym_debug", s_debug}};
  for (auto &e : t) handlers[e.n] = e.h;
}
