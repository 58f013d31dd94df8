// Models of external functions and of the harness API (sym_*).
static u64 popcnt(u64 v) { return __builtin_popcountll(v); }
static V intrinsic(State& s, const KInst& k, IntrinsicInst* ii, std::vector<V>& a, bool& handled) {
  unsigned w = bits(ii->getType());
  auto pair2 = [&](E x, E o) { V v; v.agg = std::make_shared<std::vector<V>>(); v.agg->push_back(x); v.agg->push_back(o); return v; };
  switch (ii->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: copyMem(s, a[0].e, a[1].e, mkZExt(a[2].e, 64), "memcpy"); return V();
    case Intrinsic::memmove: copyMem(s, a[0].e, a[1].e, mkZExt(a[2].e, 64), "memmove"); return V();
    case Intrinsic::memset: case Intrinsic::memset_inline: setMem(s, a[0].e, a[1].e, mkZExt(a[2].e, 64)); return V();
    case Intrinsic::umax: return mkIte(mkBin(K_Ult, a[0].e, a[1].e), a[1].e, a[0].e);
    case Intrinsic::umin: return mkIte(mkBin(K_Ult, a[0].e, a[1].e), a[0].e, a[1].e);
    case Intrinsic::smax: return mkIte(mkBin(K_Slt, a[0].e, a[1].e), a[1].e, a[0].e);
    case Intrinsic::smin: return mkIte(mkBin(K_Slt, a[0].e, a[1].e), a[0].e, a[1].e);
    case Intrinsic::abs: return mkIte(mkBin(K_Slt, a[0].e, mkConst(0, w)), mkBin(K_Sub, mkConst(0, w), a[0].e), a[0].e);
    case Intrinsic::usub_sat: return mkIte(mkBin(K_Ult, a[0].e, a[1].e), mkConst(0, w), mkBin(K_Sub, a[0].e, a[1].e));
    case Intrinsic::uadd_sat: { E r = mkBin(K_Add, a[0].e, a[1].e); return mkIte(mkBin(K_Ult, r, a[0].e), mkConst(~0ull, w), r); }
    case Intrinsic::bswap: { E x = a[0].e; E r = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); return r; }
    case Intrinsic::fshl: { if (isC(a[2].e)) { unsigned n = a[2].e->v % w; if (!n) return a[0]; return mkBin(K_Or, mkBin(K_Shl, a[0].e, mkConst(n, w)), mkBin(K_LShr, a[1].e, mkConst(w - n, w))); } handled = false; return V(); }
    case Intrinsic::fshr: { if (isC(a[2].e)) { unsigned n = a[2].e->v % w; if (!n) return a[1]; return mkBin(K_Or, mkBin(K_Shl, a[0].e, mkConst(w - n, w)), mkBin(K_LShr, a[1].e, mkConst(n, w))); } handled = false; return V(); }
    case Intrinsic::expect: return a[0];
    case Intrinsic::is_constant: return mkConst(0, 1);
    case Intrinsic::objectsize: return mkConst(~0ull, w);
    case Intrinsic::ctpop: if (isC(a[0].e)) return mkConst(popcnt(a[0].e->v), w); { E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_Add, r, mkZExt(mkExtract(a[0].e, i, 1), w)); return r; }
    case Intrinsic::cttz: { E r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(i, w), r); return r; }
    case Intrinsic::ctlz: { E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(w - 1 - i, w), r); return r; }
    case Intrinsic::uadd_with_overflow: { E r = mkBin(K_Add, a[0].e, a[1].e); return pair2(r, mkBin(K_Ult, r, a[0].e)); }
    case Intrinsic::usub_with_overflow: return pair2(mkBin(K_Sub, a[0].e, a[1].e), mkBin(K_Ult, a[0].e, a[1].e));
    case Intrinsic::umul_with_overflow: { E r = mkBin(K_Mul, a[0].e, a[1].e); u64 h; if (!__builtin_mul_overflow(a[0].e->hi, a[1].e->hi, &h) && h <= maskw(a[0].e->w)) return pair2(r, mkFalse());
        E z = mkEq(a[1].e, mkConst(0, a[1].e->w)); E ov = mkAnd(mkNot(z), mkNot(mkEq(mkBin(K_UDiv, r, a[1].e), a[0].e))); return pair2(r, ov); }
    case Intrinsic::sadd_with_overflow: { E r = mkBin(K_Add, a[0].e, a[1].e); unsigned n = r->w; auto sg = [&](E x) { return mkExtract(x, n - 1, 1); }; return pair2(r, mkAnd(mkNot(mkBin(K_Xor, sg(a[0].e), sg(a[1].e))), mkBin(K_Xor, sg(a[0].e), sg(r)))); }
    case Intrinsic::ssub_with_overflow: { E r = mkBin(K_Sub, a[0].e, a[1].e); unsigned n = r->w; auto sg = [&](E x) { return mkExtract(x, n - 1, 1); }; return pair2(r, mkAnd(mkBin(K_Xor, sg(a[0].e), sg(a[1].e)), mkBin(K_Xor, sg(a[0].e), sg(r)))); }
    case Intrinsic::stacksave: return mkConst(0, 64);
    case Intrinsic::stackrestore: return V();
    case Intrinsic::trap: report(s, s.model, "memory", "trap"); nErrPaths++; throw PathEnd();
    case Intrinsic::eh_typeid_for: return mkConst(a[0].e->v & 0x7fffffff, 32);
    case Intrinsic::vastart: {
      Frame& f = s.fr(); u64 n = f.varargs.size(); u64 area = allocObj(s, n * 8 + 8, O_Stack, 0); s.fr().allocas.push_back(area);
      for (u64 i = 0; i < n; i++) { V& v = s.fr().varargs[i]; if (v.e) storeMem(s, mkConst(area + 8 * i, 64), v.e->w < 64 ? mkZExt(v.e, 64) : v.e, 8); }
      E p = a[0].e; storeMem(s, p, mkConst(48, 32), 4); storeMem(s, mkBin(K_Add, p, mkConst(4, 64)), mkConst(304, 32), 4); storeMem(s, mkBin(K_Add, p, mkConst(8, 64)), mkConst(area, 64), 8); storeMem(s, mkBin(K_Add, p, mkConst(16, 64)), mkConst(0, 64), 8); return V(); }
    case Intrinsic::vaend: return V();
    case Intrinsic::vacopy: copyMem(s, a[0].e, a[1].e, mkConst(24, 64), "va_copy"); return V();
    case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return mkConst(0, 64);
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
    default: handled = false; return V();
  }
}

// ---- heap
static V doMalloc(State& s, E n, u8 fill, bool zero = false) {
  u64 sz = concretizeFork(s, mkZExt(n, 64), "malloc size");
  if (sz > (1ull << 30)) { report(s, s.model, "memory", "huge-allocation"); nErrPaths++; throw PathEnd(); }
  return mkConst(allocObj(s, sz, O_Heap, zero ? 0 : fill), 64);
}
static void doFree(State& s, E p, const char* what) {
  if (isC(p, 0)) return;
  u64 a = concretizeFork(s, p, "free"); if (!a) return;
  auto it = s.mem.find(a);
  if (it == s.mem.end() || it->second.kind != O_Heap) memError(s, s.model, "bad-free", what);
  if (it->second.dead) memError(s, s.model, "double-free", what);
  it->second.dead = true; it->second.d = nullptr; s.heapLive -= it->second.size;
}
// ---- formatted output
static void fmtOut(State& s, const std::string& f, std::function<E(unsigned)> arg, std::vector<E>& out) {
  auto putc = [&](char c) { out.push_back(mkConst((u8)c, 8)); };
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { putc(f[i]); continue; }
    std::string spec = "%"; i++; bool longm = false;
    int prec = -1; size_t st = i; (void)st;
    while (i < f.size() && strchr("-+ #0123456789.*lhzjt", f[i])) {
      if (f[i] == '*') { E w = arg(4); int v = (int)concretizeFork(s, mkExtract(w, 0, 32), "fmt"); spec += std::to_string(v); }
      else if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') { longm = true; spec += f[i]; } else spec += f[i]; i++; }
    if (i >= f.size()) break; char c = f[i]; spec += c;
    size_t d = spec.find('.'); if (d != std::string::npos) prec = atoi(spec.c_str() + d + 1);
    if (c == '%') { putc('%'); continue; }
    if (c == 's') { E p = arg(8); u64 a = concretizeFork(s, p, "fmt str"); std::vector<E> t; 
      for (int n = 0; prec < 0 || n < prec; n++) { E b = loadMem(s, mkConst(a + n, 64), 1, "printf %s"); if (isC(b)) { if (!b->v) break; } else { E z = mkEq(b, mkConst(0, 8)); if (concretizeFork(s, z, "fmt nul")) break; } t.push_back(b); }
      size_t wp = 1; bool left = false; while (wp < spec.size() && strchr("-+ #0", spec[wp])) { if (spec[wp] == '-') left = true; wp++; } size_t width = atoi(spec.c_str() + wp);
      if (!left) for (size_t n = t.size(); n < width; n++) putc(' '); for (E b : t) out.push_back(b); if (left) for (size_t n = t.size(); n < width; n++) putc(' '); continue; }
    if (c == 'c') { out.push_back(mkExtract(arg(4), 0, 8)); continue; }
    E v = arg(longm ? 8 : 4); if (!longm) v = mkExtract(v, 0, std::min<unsigned>(v->w, 32));
    if (!isC(v) && (c == 'X' || c == 'x') && spec.size() == 4 && spec[1] == '0' && spec[2] >= '1' && spec[2] <= '8' && v->hi < (1ull << (4 * (spec[2] - '0')))) {
      int nd = spec[2] - '0'; if (v->w < (unsigned)(4 * nd)) v = mkZExt(v, 4 * nd);
      for (int h = nd - 1; h >= 0; h--) { E n = mkZExt(mkExtract(v, 4 * h, 4), 8); out.push_back(mkIte(mkBin(K_Ult, n, mkConst(10, 8)), mkBin(K_Add, n, mkConst('0', 8)), mkBin(K_Add, n, mkConst((c == 'X' ? 'A' : 'a') - 10, 8)))); }
      continue; }
    u64 x = concretizeFork(s, v, "fmt value"); char b[128];
    if (longm) snprintf(b, sizeof b, spec.c_str(), (unsigned long)x); else snprintf(b, sizeof b, spec.c_str(), (unsigned)x);
    for (char* q = b; *q; q++) putc(*q);
  }
}
static V storeStr(State& s, E dst, std::vector<E>& out, u64 limit) {
  for (size_t i = 0; i <= out.size() && i < limit; i++) storeMem(s, mkBin(K_Add, dst, mkConst(i, 64)), i == out.size() || i + 1 == limit ? mkConst(0, 8) : out[i], 1, "sprintf");
  return mkConst(out.size(), 32);
}
static E cmpBytes(State& s, E p, E q, E n, bool strz, const char* what) {
  // lexicographic comparison, result 0 / <0 / >0 as a 32 bit difference
  u64 nn = isC(n) ? n->v : concretizeFork(s, n, what);
  std::vector<std::pair<E, E>> b; E alive = mkTrue();
  for (u64 i = 0; i < nn; i++) {
    E x, y;
    E ax = mkBin(K_Add, p, mkConst(i, 64)), ay = mkBin(K_Add, q, mkConst(i, 64));
    if (strz) { // stop when the comparison is surely decided before i
      if (isC(alive, 0)) break;
      auto inb = [&](E a) { if (!isC(a)) return true; Ref r = findObj(s, a->v); return r.o && !r.o->dead && a->v - r.base < r.o->size; };
      if (!inb(ax) || !inb(ay)) { Assign m; if (maySat(s, alive, m, true)) { report(s, m, "memory", std::string("out-of-bounds:") + what); nErrPaths++; Assign m2; if (!maySat(s, mkNot(alive), m2)) throw PathEnd(); addC(s, mkNot(alive), m2); } break; }
    }
    x = loadMem(s, ax, 1, what); y = loadMem(s, ay, 1, what); b.push_back({x, y});
    if (strz) { alive = mkAnd(alive, mkAnd(mkEq(x, y), mkNot(mkEq(x, mkConst(0, 8))))); }
    else if (isC(x) && isC(y) && x->v != y->v && false) break;
  }
  E r = mkConst(0, 32);
  for (int i = (int)b.size() - 1; i >= 0; i--) {
    E x = b[i].first, y = b[i].second; E d = mkBin(K_Sub, mkZExt(x, 32), mkZExt(y, 32));
    E rest = strz ? mkIte(mkEq(x, mkConst(0, 8)), mkConst(0, 32), r) : r;
    r = mkIte(mkEq(x, y), rest, d);
  }
  return r;
}
static E lowerC(E x) { return mkIte(mkAnd(mkBin(K_Ule, mkConst('A', 8), x), mkBin(K_Ule, x, mkConst('Z', 8))), mkBin(K_Add, x, mkConst(32, 8)), x); }

static void newInput(State& s, E p, u64 n, const std::string& name) {
  Input in; in.name = name; E base = p;
  for (u64 i = 0; i < n; i++) { E v = mkVar(s.nvars++, 8); in.bytes.push_back(v); }
  if (n) access(s, base, n, true, "sym_bytes");
  for (u64 i = 0; i < n; i++) storeMem(s, mkBin(K_Add, base, mkConst(i, 64)), in.bytes[i], 1);
  s.in.push_back(std::move(in));
}
static std::set<std::string> g_known;

static void registerBuiltins() {
  auto& B = builtins;
  { std::string kn = params.count("known") ? params["known"] : ""; size_t p = 0; while (p < kn.size()) { size_t q = kn.find(',', p); if (q == std::string::npos) q = kn.size(); g_known.insert(kn.substr(p, q - p)); p = q + 1; } }
  auto ret0 = [](State&, const KInst& k, std::vector<V>&) -> V { unsigned b = k.dest >= 0 ? bits(k.I->getType()) : 0; return b ? V(mkConst(0, b)) : V(); };
  // heap
  for (auto n : {"malloc", "_Znwm", "_Znam"}) B[n] = [](State& s, const KInst&, std::vector<V>& a) { return doMalloc(s, a[0].e, 0xbe); };
  for (auto n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) B[n] = B["malloc"];
  B["calloc"] = [](State& s, const KInst&, std::vector<V>& a) { return doMalloc(s, mkBin(K_Mul, a[0].e, a[1].e), 0, true); };
  for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "cfree"}) B[n] = [](State& s, const KInst&, std::vector<V>& a) { doFree(s, a[0].e, "free"); return V(); };
  B["realloc"] = [](State& s, const KInst&, std::vector<V>& a) -> V {
    u64 p = concretizeFork(s, a[0].e, "realloc"); u64 n = concretizeFork(s, a[1].e, "realloc size");
    if (!p) return doMalloc(s, mkConst(n, 64), 0xbe);
    auto it = s.mem.find(p); if (it == s.mem.end() || it->second.kind != O_Heap) memError(s, s.model, "bad-free", "realloc"); if (it->second.dead) memError(s, s.model, "double-free", "realloc");
    u64 old = it->second.size; V r = doMalloc(s, mkConst(n, 64), 0xbe); copyMem(s, r.e, mkConst(p, 64), mkConst(std::min(old, n), 64), "realloc"); doFree(s, mkConst(p, 64), "realloc"); return r; };
  // memory/string comparison: no forks
  B["memcpy"] = [](State& s, const KInst&, std::vector<V>& a) { copyMem(s, a[0].e, a[1].e, a[2].e, "memcpy"); return a[0]; };
  B["memmove"] = [](State& s, const KInst&, std::vector<V>& a) { copyMem(s, a[0].e, a[1].e, a[2].e, "memmove"); return a[0]; };
  B["memset"] = [](State& s, const KInst&, std::vector<V>& a) { setMem(s, a[0].e, mkExtract(a[1].e, 0, 8), a[2].e); return a[0]; };
  B["memcmp"] = [](State& s, const KInst&, std::vector<V>& a) { return V(cmpBytes(s, a[0].e, a[1].e, a[2].e, false, "memcmp")); };
  B["bcmp"] = B["memcmp"];
  B["strcmp"] = [](State& s, const KInst&, std::vector<V>& a) { return V(cmpBytes(s, a[0].e, a[1].e, mkConst(1 << 20, 64), true, "strcmp")); };
  B["strncmp"] = [](State& s, const KInst&, std::vector<V>& a) { return V(cmpBytes(s, a[0].e, a[1].e, a[2].e, true, "strncmp")); };
  // formatted output
  auto argsFrom = [](std::vector<V>& a, size_t start) { auto idx = std::make_shared<size_t>(start); return [&a, idx](unsigned) -> E { size_t i = (*idx)++; return i < a.size() && a[i].e ? a[i].e : mkConst(0, 64); }; };
  B["sprintf"] = [=](State& s, const KInst&, std::vector<V>& a) { std::vector<E> o; std::string f = cstr(s, a[1].e); fmtOut(s, f, argsFrom(a, 2), o); return storeStr(s, a[0].e, o, ~0ull); };
  B["snprintf"] = [=](State& s, const KInst&, std::vector<V>& a) { std::vector<E> o; std::string f = cstr(s, a[2].e); u64 n = concretizeFork(s, a[1].e, "snprintf"); fmtOut(s, f, argsFrom(a, 3), o); return storeStr(s, a[0].e, o, n); };
  auto va = [](State& s, E ap) { return [&s, ap](unsigned) -> E { E oa = loadMem(s, mkBin(K_Add, ap, mkConst(8, 64)), 8); E v = loadMem(s, oa, 8); storeMem(s, mkBin(K_Add, ap, mkConst(8, 64)), mkBin(K_Add, oa, mkConst(8, 64)), 8); return v; }; };
  B["vsprintf"] = [=](State& s, const KInst&, std::vector<V>& a) { std::vector<E> o; std::string f = cstr(s, a[1].e); fmtOut(s, f, va(s, a[2].e), o); return storeStr(s, a[0].e, o, ~0ull); };
  B["vsnprintf"] = [=](State& s, const KInst&, std::vector<V>& a) { std::vector<E> o; std::string f = cstr(s, a[2].e); u64 n = concretizeFork(s, a[1].e, "n"); fmtOut(s, f, va(s, a[3].e), o); return storeStr(s, a[0].e, o, n); };
  for (auto n : {"printf", "puts", "putchar", "fflush", "vprintf", "fprintf", "fputs", "fwrite", "perror", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_destroy", "pthread_mutexattr_setpshared",
      "__cxa_atexit", "__cxa_end_catch", "__cxa_free_exception", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "sem_destroy", "signal", "__cxa_guard_release", "__cxa_guard_abort", "sleep", "usleep", "sched_yield", "srand", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD0Ev"}) B[n] = ret0;
  B["__cxa_guard_acquire"] = [](State& s, const KInst&, std::vector<V>& a) { E g = loadMem(s, a[0].e, 1); if (isC(g, 0)) { storeMem(s, a[0].e, mkConst(1, 8), 1); return V(mkConst(1, 32)); } return V(mkConst(0, 32)); };
  // abnormal ends
  for (auto n : {"abort", "__assert_fail", "_ZSt9terminatev", "__cxa_pure_virtual", "__stack_chk_fail", "_exit"}) { std::string nm = n; B[n] = [nm](State& s, const KInst&, std::vector<V>&) -> V { report(s, s.model, "memory", "abort:" + nm); nErrPaths++; throw PathEnd(); }; }
  B["exit"] = [](State& s, const KInst&, std::vector<V>&) -> V { report(s, s.model, "memory", "abort:exit"); nErrPaths++; throw PathEnd(); };
  // libstdc++ throw helpers
  for (auto n : {"_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt28__throw_bad_array_new_lengthv", "__cxa_throw_bad_array_new_length", "_ZSt21__throw_runtime_errorPKc", "_ZSt24__throw_invalid_argumentPKc", "_ZSt25__throw_bad_function_callv"}) {
    B[n] = [](State& s, const KInst& k, std::vector<V>&) -> V { u64 o = allocObj(s, 64, O_Heap, 0); s.heapLive -= 64; u64 ti = allocObj(s, 16, O_Heap, 0); s.heapLive -= 16; doThrow(s, o, ti, &k); }; }
  B["__cxa_allocate_exception"] = [](State& s, const KInst&, std::vector<V>& a) { u64 o = allocObj(s, a[0].e->v, O_Heap, 0); s.heapLive -= a[0].e->v; return V(mkConst(o, 64)); };
  B["__cxa_throw"] = [](State& s, const KInst& k, std::vector<V>& a) -> V { doThrow(s, a[0].e->v, a[1].e->v, &k); };
  B["__cxa_begin_catch"] = [](State&, const KInst&, std::vector<V>& a) { return a[0]; };
  B["__cxa_get_exception_ptr"] = B["__cxa_begin_catch"];
  B["__cxa_rethrow"] = [](State& s, const KInst& k, std::vector<V>&) -> V { doThrow(s, s.T().excObj.e->v, s.T().excType.e->v, &k); };
  B["__clang_call_terminate"] = B["_ZSt9terminatev"];
  B["__dynamic_cast"] = [](State& s, const KInst&, std::vector<V>& a) -> V {
    // single, non-virtual inheritance at offset 0 only
    u64 p = concretizeFork(s, a[0].e, "dyncast"); if (!p) return mkConst(0, 64); E vt = loadMem(s, mkConst(p, 64), 8); E ti = loadMem(s, mkBin(K_Sub, vt, mkConst(8, 64)), 8);
    return mkConst(isC(ti) && tiDerives(ti->v, a[2].e->v) ? p : 0, 64); };
  // threads
  B["pthread_mutex_lock"] = [](State& s, const KInst&, std::vector<V>& a) -> V {
    u64 m = concretizeFork(s, a[0].e, "mutex"); access(s, mkConst(m, 64), 40, true, "mutex");
    schedPoint(s); s.T().waitKind = 0;
    i64& o = s.mtx[m]; if (o == 0) { o = s.cur + 1; vcAcquire(s, m); return mkConst(0, 32); }
    s.T().waitKind = 1; s.T().waitAddr = m; blockCur(s); };
  B["pthread_mutex_unlock"] = [](State& s, const KInst&, std::vector<V>& a) -> V { u64 m = concretizeFork(s, a[0].e, "mutex"); i64& o = s.mtx[m]; 
    if (o != s.cur + 1) { report(s, s.model, "lock", "unlock-of-mutex-not-held"); nErrPaths++; throw PathEnd(); } o = 0; vcRelease(s, m); return mkConst(0, 32); };
  B["sem_init"] = [](State& s, const KInst&, std::vector<V>& a) -> V { s.sem[concretizeFork(s, a[0].e, "sem")] = isC(a[2].e) ? a[2].e->v : 0; return mkConst(0, 32); };
  B["sem_post"] = [](State& s, const KInst&, std::vector<V>& a) -> V { u64 m = concretizeFork(s, a[0].e, "sem"); schedPoint(s); s.sem[m]++; vcRelease(s, m); return mkConst(0, 32); };
  B["sem_wait"] = [](State& s, const KInst&, std::vector<V>& a) -> V { u64 m = concretizeFork(s, a[0].e, "sem"); schedPoint(s); s.T().waitKind = 0; if (s.sem[m] > 0) { s.sem[m]--; vcAcquire(s, m); return mkConst(0, 32); } s.T().waitKind = 2; s.T().waitAddr = m; blockCur(s); };
  B["sem_timedwait"] = [](State& s, const KInst&, std::vector<V>& a) -> V { u64 m = concretizeFork(s, a[0].e, "sem"); schedPoint(s); if (s.sem[m] > 0) { s.sem[m]--; vcAcquire(s, m); return mkConst(0, 32); } return mkConst(~0u, 32); };
  B["sym_thread"] = [](State& s, const KInst&, std::vector<V>& a) -> V {
    u64 fn = a[0].e->v; auto it = fnAt.find(fn); if (it == fnAt.end()) { die("sym_thread"); throw PathEnd(); }
    int id = s.thr.size(); s.thr.emplace_back(); int cur = s.cur; s.cur = id; std::vector<V> ar{a[1]}; pushCall(s, it->second, ar, nullptr); s.cur = cur; if (checkRaces) { s.thr[id].vc = vcOf(s, cur); vcOf(s, id); s.thr[cur].vc[cur]++; } return mkConst(id, 32); };
  B["sym_join"] = [](State& s, const KInst&, std::vector<V>& a) -> V { u64 id = a[0].e->v; s.T().waitKind = 0; if (s.thr[id].done) { if (checkRaces) vcJoin(vcOf(s, s.cur), vcOf(s, id)); return V(); } s.T().waitKind = 3; s.T().joinId = id; blockCur(s); };
  B["sym_yield"] = [](State& s, const KInst&, std::vector<V>&) -> V { schedPoint(s); return V(); };
  // harness API
  B["sym_bytes"] = [](State& s, const KInst&, std::vector<V>& a) -> V { u64 n = concretizeFork(s, a[1].e, "sym_bytes"); std::string nm = cstr(s, a[2].e); for (auto& c : nm) if (c == ' ') c = '_'; newInput(s, a[0].e, n, nm); return V(); };
  B["sym_concretize"] = [](State& s, const KInst&, std::vector<V>& a) -> V { return mkConst(concretizeFork(s, a[0].e, "sym_concretize"), a[0].e->w); };
  B["sym_assume"] = [](State& s, const KInst&, std::vector<V>& a) -> V { E c = mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))); Assign m; if (!maySat(s, c, m)) { nInfeasible++; throw PathEnd(); } addC(s, c, m); return V(); };
  B["sym_assert_"] = [](State& s, const KInst&, std::vector<V>& a) -> V {
    E c = mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))); std::string l = cstr(s, a[1].e); assertEval[l]++; Assign m;
    if (maySat(s, mkNot(c), m, true)) { report(s, m, "assert", l); Assign m2; if (!maySat(s, c, m2)) { nErrPaths++; throw PathEnd(); } addC(s, c, m2); }
    return V(); };
  B["sym_observe"] = [](State& s, const KInst&, std::vector<V>& a) -> V { s.obs.push_back({cstr(s, a[0].e), a[1].e}); return V(); };
  B["sym_reach"] = [](State& s, const KInst&, std::vector<V>& a) -> V { reach[cstr(s, a[0].e)]++; return V(); };
  B["sym_exit"] = [](State& s, const KInst&, std::vector<V>&) -> V { finishPath(s); throw PathEnd(); };
  B["sym_param"] = [](State& s, const KInst&, std::vector<V>& a) -> V { std::string n = cstr(s, a[0].e); auto it = params.find(n); if (it == params.end()) return a[1]; return mkConst(strtoll(it->second.c_str(), 0, 0), 32); };
  B["sym_known"] = [](State& s, const KInst&, std::vector<V>& a) -> V {
    std::string id = cstr(s, a[0].e); E c = mkNot(mkEq(a[1].e, mkConst(0, a[1].e->w)));
    if (!g_known.count(id) || !s.known.empty()) return V();
    Assign m; u64 v = concretizeFork(s, c, "known"); if (v) s.known = id; return V(); };
  B["sym_live_heap"] = [](State& s, const KInst&, std::vector<V>&) -> V { return mkConst(s.heapLive, 64); };
  B["sym_is_symbolic"] = [](State&, const KInst&, std::vector<V>&) -> V { return mkConst(1, 32); };
  // gateway specific: logging is outside every property
  B["_ZN8MQTTSNGW7Process6putLogEPKcz"] = ret0;
}
