// symx - a small symbolic executor for LLVM 18 bitcode, deciding assertions with Z3.
// See /verif/DESIGN.md ("The engine") for what it models.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <functional>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;

ExprPool P; Evaluator EV;
static Solver* S;
static const DataLayout* DL;
static Module* M;

// ------------------------------------------------------------------ values, memory
struct V { E e = nullptr; std::shared_ptr<std::vector<V>> agg; V() {} V(E x) : e(x) {} };

struct Data { std::vector<u8> c; std::vector<E> s; };   // s[i] != null: symbolic byte
enum OKind : u8 { O_Global, O_Stack, O_Heap, O_Func };
struct Obj { u64 size; OKind kind; bool ro; bool dead; u32 site; std::shared_ptr<Data> d; };

struct KInst { Instruction* I; int dest; std::vector<int> ops; unsigned opc; int bbT = -1, bbF = -1; };
struct KFunc {
  Function* F; int nregs = 0; std::vector<std::vector<KInst>> bbs; std::map<BasicBlock*, int> bbid;
  std::vector<const Constant*> consts; std::vector<V> constVals; std::vector<char> constReady;
  std::vector<int> argreg; std::string name; u64 insts = 0; std::vector<char> cov;
};

struct Frame {
  KFunc* f; int bb = 0, ip = 0, prevbb = -1;
  std::vector<V> regs; std::vector<u64> allocas; std::vector<V> varargs;
  // where to put the result in the caller, and invoke targets
  const KInst* call = nullptr;
};
struct Shadow { int wt = -1; u32 wc = 0; std::string wl; std::map<int, std::pair<u32, std::string>> r; };   // last write and reads of a byte
struct Thr { std::vector<u32> vc; std::vector<Frame> st; bool done = false; int waitKind = 0; u64 waitAddr = 0; u64 joinId = 0; V excObj, excType; };
struct Input { std::string name; std::vector<E> bytes; };
struct Obs { std::string label; E v; };

struct State {
  std::vector<Thr> thr; int cur = 0; int switches = 0; u32 points = 0; E swAt;
  std::map<u64, Obj> mem;
  std::vector<E> pc;
  Assign model;
  std::vector<Input> in;
  std::vector<Obs> obs;
  std::vector<u64> excStack;
  std::map<u64, i64> mtx;           // mutex addr -> owner+1 (0 free)
  std::map<u64, i64> sem;
  std::map<u64, std::vector<u32>> syncvc; std::map<u64, Shadow> shadow;   // happens-before clocks of locks and semaphores; accesses to shared memory
  std::string known;                // active known-finding id
  u64 nextAddr; u32 nvars = 0; u64 steps = 0; u64 heapLive = 0;
  bool noSwitch = false;
  std::vector<std::string> sched;
  Thr& T() { return thr[cur]; }
  Frame& fr() { return thr[cur].st.back(); }
};

static std::map<u64, Obj> romem;            // constant globals and functions
static std::map<const GlobalValue*, u64> gaddr;
static std::map<u64, Function*> fnAt;
static std::map<Function*, KFunc*> kfuncs;
static std::vector<std::unique_ptr<State>> work;
static std::vector<std::string> siteNames;

// ------------------------------------------------------------------ options, results
static std::map<std::string, std::string> params;
static double timeLimit = 600; static u64 maxPaths = 2000000, maxSteps = 20000000; static unsigned nSamples = 8; static u64 maxViol = 6;
static int maxSwitches = 3; static bool memLeakCheck = false;
struct Viol { std::string kind, label, loc, stack, known; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> sched; };
static std::vector<Viol> viols; static std::map<std::string, u64> violCount;
static std::vector<Viol> knowns;
struct Sample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<std::string, u64>> obs; std::vector<std::string> sched; };
static std::vector<Sample> samples;
static std::map<std::string, u64> reach, assertEval, assertDischarged;
static u64 nPaths = 0, nInfeasible = 0, nErrPaths = 0, totalSteps = 0, memChecks = 0, nForks = 0, ptrForks = 0;
static std::string incomplete;
static std::set<std::string> unsupported;
static auto T0 = std::chrono::steady_clock::now();
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static u64 rngState = 88172645463325252ull;
static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }

struct PathEnd {};            // current state is finished
struct Requeued {};           // state forked/constraint added: re-execute the current instruction

static void die(const std::string& m) { if (incomplete.empty()) incomplete = m; fprintf(stderr, "symx: %s\n", m.c_str()); }

static std::string locOf(const Frame& f, int ipAdj = 0) {
  auto& bb = f.f->bbs[f.bb]; int ip = f.ip + ipAdj; if (ip < 0) ip = 0; if (ip >= (int)bb.size()) ip = bb.size() - 1;
  const DebugLoc& d = bb[ip].I->getDebugLoc();
  std::string r = demangle(f.f->name); size_t p = r.find('('); if (p != std::string::npos && p > 0) r = r.substr(0, p);
  if (d) { auto* sc = d->getScope(); std::string fn = sc->getFilename().str(); size_t q = fn.rfind('/'); if (q != std::string::npos) fn = fn.substr(q + 1);
    r += "@" + fn + ":" + std::to_string(d.getLine()); }
  return r;
}
static std::string stackOf(State& s) { std::string r; auto& st = s.T().st; for (int i = (int)st.size() - 1; i >= 0; i--) { if (r.size()) r += " < "; r += locOf(st[i], i == (int)st.size() - 1 ? 0 : -1); } return r; }

static std::vector<std::pair<std::string, std::string>> concretize(State& s, const Assign& m) {
  std::vector<std::pair<std::string, std::string>> r;
  for (auto& in : s.in) { std::string h; char b[4]; for (E x : in.bytes) { snprintf(b, 4, "%02x", (unsigned)EV.run(x, m)); h += b; } r.push_back({in.name, h}); }
  return r;
}
static void report(State& s, const Assign& m, const std::string& kind, const std::string& label) {
  Viol v; v.kind = kind; v.label = label; v.loc = locOf(s.fr()); v.stack = stackOf(s); v.inputs = concretize(s, m); v.known = s.known; v.sched = s.sched;
  std::string key = kind + "|" + label + "|" + (kind == "assert" ? "" : v.loc) + "|" + s.known;
  u64 n = violCount[key]++;
  if (n == 0) { if (s.known.empty()) viols.push_back(v); else knowns.push_back(v); }
}

// satisfiable(pc && c)?  keeps the model out-param
static bool maySat(State& s, E c, Assign& m, bool obl = false) {
  if (isC(c)) { m = s.model; return c->v; }
  if (EV.run(c, s.model)) { m = s.model; return true; }
  m = s.model;
  bool r = S->check(s.pc, c, m, obl);
  if (S->gaveup) die("solver gave up (timeout) on a query");
  return r;
}
static void addC(State& s, E c, const Assign& m) { if (!isC(c)) { 
    // split conjunctions to sharpen slicing
    std::vector<E> st{c}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->k == K_And && x->w == 1) { st.push_back(x->a); st.push_back(x->b); } else if (!isC(x)) s.pc.push_back(x); } }
  s.model = m; }

static void fork(State& s, E c, const Assign& m) {   // push a copy constrained by c, to re-execute the current instruction
  auto n = std::make_unique<State>(s); addC(*n, c, m); work.push_back(std::move(n)); nForks++;
}

// ------------------------------------------------------------------ memory
static u64 allocAddr(State& s, u64 size) { u64 a = s.nextAddr; s.nextAddr += ((size + 0x10000 + 0xffff) & ~0xffffull); return a; }
static std::shared_ptr<Data> mkData(u64 size, u8 fill) { auto d = std::make_shared<Data>(); d->c.assign(size, fill); return d; }
static u64 allocObj(State& s, u64 size, OKind k, u8 fill) {
  u64 a = allocAddr(s, size); Obj o{size, k, false, false, 0, mkData(size, fill)}; s.mem[a] = o; if (k == O_Heap) s.heapLive += size; return a;
}
struct Ref { Obj* o = nullptr; u64 base = 0; };
static Ref findObj(State& s, u64 addr) {
  Ref r;
  auto it = s.mem.upper_bound(addr);
  if (it != s.mem.begin()) { --it; if (addr - it->first <= it->second.size && addr >= it->first) { r.o = &it->second; r.base = it->first; return r; } }
  auto jt = romem.upper_bound(addr);
  if (jt != romem.begin()) { --jt; if (addr - jt->first <= jt->second.size) { r.o = &jt->second; r.base = jt->first; } }
  return r;
}
static Data& wdata(Obj* o) { if (o->d.use_count() > 1) o->d = std::make_shared<Data>(*o->d); return *o->d; }
static E byteAt(const Data& d, u64 i) { if (!d.s.empty() && d.s[i]) return d.s[i]; return mkConst(d.c[i], 8); }
static void setByte(Data& d, u64 i, E v) { if (isC(v)) { d.c[i] = v->v; if (!d.s.empty()) d.s[i] = nullptr; } else { if (d.s.empty()) d.s.assign(d.c.size(), nullptr); d.s[i] = v; } }
static E readBytes(const Data& d, u64 off, unsigned n) {
  bool conc = true; if (!d.s.empty()) for (unsigned i = 0; i < n; i++) if (d.s[off + i]) { conc = false; break; }
  if (conc) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= (u64)d.c[off + i] << (8 * i); return mkConst(v, 8 * n); }
  E r = byteAt(d, off + n - 1); for (int i = n - 2; i >= 0; i--) r = mkConcat(r, byteAt(d, off + i)); return r;
}
static void writeBytes(Data& d, u64 off, unsigned n, E v) {
  if (isC(v)) { for (unsigned i = 0; i < n; i++) { d.c[off + i] = v->v >> (8 * i); if (!d.s.empty()) d.s[off + i] = nullptr; } return; }
  for (unsigned i = 0; i < n; i++) setByte(d, off + i, mkExtract(v, 8 * i, 8));
}
static std::string objName(const Ref& r) { const char* k[] = {"global", "stack", "heap", "function"}; return r.o ? k[r.o->kind] : "unmapped"; }

[[noreturn]] static void memError(State& s, const Assign& m, const char* what, const std::string& detail) {
  report(s, m, "memory", std::string(what) + ":" + detail); nErrPaths++; throw PathEnd();
}
// find the object an access of n bytes at addr falls in; may report an error path and/or fork.
// on return, the access is within [ref.base, ref.base+size) under the path condition.
struct Acc { Obj* o; u64 base; E off; };
static E inBounds(E addr, u64 base, u64 size, u64 n) {
  return mkAnd(mkBin(K_Ule, mkConst(base, 64), addr), mkBin(K_Ule, addr, mkConst(base + size - n, 64)));
}
static E guessBase(E a) { // largest constant addend
  std::vector<E> st{a}; E best = nullptr;
  for (int n = 0; !st.empty() && n < 200; n++) { E x = st.back(); st.pop_back(); if (isC(x)) { if (!best || x->v > best->v) best = x; continue; }
    if (x->k == K_Add) { st.push_back(x->a); st.push_back(x->b); } else if (x->k == K_Ite) { st.push_back(x->b); st.push_back(x->c); } else if (x->k == K_Sub) st.push_back(x->a); }
  return best;
}
static bool checkRaces = false, atomicAccess = false;
static void vcJoin(std::vector<u32>& a, const std::vector<u32>& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static std::vector<u32>& vcOf(State& s, int t) { auto& v = s.thr[t].vc; if ((int)v.size() <= t) { v.resize(t + 1); } if (!v[t]) v[t] = 1; return v; }
static void vcRelease(State& s, u64 a) { if (!checkRaces) return; auto& v = vcOf(s, s.cur); vcJoin(s.syncvc[a], v); v[s.cur]++; }
static void vcAcquire(State& s, u64 a) { if (!checkRaces) return; auto it = s.syncvc.find(a); if (it != s.syncvc.end()) vcJoin(vcOf(s, s.cur), it->second); }
static void raceCheck(State& s, u64 a, u64 n, bool write) {
  auto& v = vcOf(s, s.cur); auto seen = [&](int t, u32 c) { return t == s.cur || (t < (int)v.size() && v[t] >= c); };
  for (u64 i = a; i < a + n; i++) { Shadow& h = s.shadow[i]; std::string other;
    if (h.wt >= 0 && !seen(h.wt, h.wc)) other = h.wl;
    if (write) for (auto& r : h.r) if (!seen(r.first, r.second.first)) other = r.second.second;
    if (!other.empty()) { report(s, s.model, "race", std::string("data race with ") + other); nErrPaths++; throw PathEnd(); }
    std::string l = locOf(s.fr());
    if (write) { h.wt = s.cur; h.wc = v[s.cur]; h.wl = l; h.r.clear(); } else h.r[s.cur] = {v[s.cur], l}; } }
static Acc access(State& s, E addr, u64 n, bool write, const char* what) {
  memChecks++;
  if (isC(addr)) {
    u64 a = addr->v;
    if (a < 4096) memError(s, s.model, "null-deref", what);
    Ref r = findObj(s, a);
    if (!r.o) memError(s, s.model, "invalid-pointer", what);
    if (r.o->dead) memError(s, s.model, "use-after-free", what);
    if (a - r.base + n > r.o->size) memError(s, s.model, "out-of-bounds", std::string(what) + ":" + objName(r));
    if (r.o->kind == O_Func || (write && r.o->ro)) memError(s, s.model, "bad-write", what);
    if (checkRaces && s.thr.size() > 1 && !atomicAccess && r.o->kind != O_Stack && !r.o->ro && strcmp(what, "mutex")) raceCheck(s, a, n, write);
    return Acc{r.o, r.base, mkConst(a - r.base, 64)};
  }
  u64 v = EV.run(addr, s.model);
  Ref r = findObj(s, v);
  bool ok = r.o && !r.o->dead && v - r.base + n <= r.o->size && r.o->kind != O_Func && !(write && r.o->ro);
  Assign m;
  if (!ok) {
    report(s, s.model, "memory", std::string(v < 4096 ? "null-deref" : "out-of-bounds") + ":" + what + ":symbolic"); nErrPaths++;
    E g = guessBase(addr); Ref q; if (g) q = findObj(s, g->v);
    if (q.o && !q.o->dead && q.o->size >= n) { E c = inBounds(addr, q.base, q.o->size, n); if (maySat(s, c, m)) { addC(s, c, m); throw Requeued(); } }
    throw PathEnd();
  }
  E ib = inBounds(addr, r.base, r.o->size, n);
  if (maySat(s, mkNot(ib), m, true)) {
    u64 v2 = EV.run(addr, m); Ref q = findObj(s, v2);
    bool ok2 = q.o && !q.o->dead && v2 - q.base + n <= q.o->size && q.o->kind != O_Func && !(write && q.o->ro);
    if (ok2) { ptrForks++; fork(s, mkNot(ib), m); addC(s, ib, s.model); }
    else { report(s, m, "memory", std::string(v2 < 4096 ? "null-deref" : "out-of-bounds") + ":" + what + ":" + objName(r)); nErrPaths++;
      // continue on the in-bounds part; other valid objects are explored too
      Assign m3; E rest = mkNot(ib); E g = q.o ? inBounds(addr, q.base, q.o->size, n) : nullptr; (void)rest; (void)g; (void)m3;
      addC(s, ib, s.model); }
  }
  return Acc{r.o, r.base, mkBin(K_Sub, addr, mkConst(r.base, 64))};
}
// feasible range of an offset expression under the path condition
static void offRange(State& s, E off, u64 maxv, u64& lo, u64& hi) {
  lo = std::min(off->lo, maxv); hi = std::min(off->hi, maxv);
  if (hi - lo <= 24) return;
  u64 cur = EV.run(off, s.model); Assign m;
  u64 l = lo, h = cur; // min
  while (l < h) { u64 mid = l + (h - l) / 2; if (maySat(s, mkBin(K_Ule, off, mkConst(mid, 64)), m)) { h = std::min(mid, EV.run(off, m)); } else l = mid + 1; }
  lo = l; l = cur; h = hi;
  while (l < h) { u64 mid = l + (h - l + 1) / 2; if (maySat(s, mkBin(K_Ule, mkConst(mid, 64), off), m)) { l = std::max(mid, EV.run(off, m)); } else h = mid - 1; }
  hi = l;
}
static E loadMem(State& s, E addr, unsigned n, const char* what = "load") {
  Acc a = access(s, addr, n, false, what);
  if (isC(a.off)) return readBytes(*a.o->d, a.off->v, n);
  u64 lo, hi; offRange(s, a.off, a.o->size - n, lo, hi);
  u64 step = 1ull << std::min<unsigned>(a.off->tz, 12); lo = (lo + step - 1) / step * step;
  E r = nullptr; auto d = a.o->d;
  for (u64 i = lo; i <= hi; i += step) { E v = readBytes(*d, i, n); r = r ? mkIte(mkEq(a.off, mkConst(i, 64)), v, r) : v; }
  return r ? r : readBytes(*d, 0, n);
}
static void storeMem(State& s, E addr, E val, unsigned n, const char* what = "store") {
  Acc a = access(s, addr, n, true, what);
  Data& d = wdata(a.o);
  if (isC(a.off)) { writeBytes(d, a.off->v, n, val); return; }
  u64 lo, hi; offRange(s, a.off, a.o->size - n, lo, hi);
  for (u64 i = lo; i <= hi; i++) { E c = mkEq(a.off, mkConst(i, 64)); if (isC(c, 0)) continue;
    for (unsigned k = 0; k < n; k++) setByte(d, i + k, mkIte(c, mkExtract(val, 8 * k, 8), byteAt(d, i + k))); }
}
// make an expression concrete by forking on its values
static u64 concretizeFork(State& s, E x, const char* why) {
  if (isC(x)) return x->v;
  (void)why;
  u64 v = EV.run(x, s.model); E eq = mkEq(x, mkConst(v, x->w)); Assign m;
  if (maySat(s, mkNot(eq), m)) fork(s, mkNot(eq), m);
  addC(s, eq, s.model);
  return v;
}
// copy n bytes (possibly symbolic n)
static void copyMem(State& s, E dst, E src, E n, const char* what) {
  if (isC(n)) {
    if (n->v == 0) return;
    if (n->v > (1u << 26)) memError(s, s.model, "out-of-bounds", std::string(what) + ":size");
    if (!isC(src)) { /* symbolic source */ Acc a = access(s, src, n->v, false, what); Acc b = access(s, dst, n->v, true, what);
      if (!isC(a.off) || !isC(b.off)) {
        std::vector<E> t; for (u64 i = 0; i < n->v; i++) t.push_back(loadMem(s, mkBin(K_Add, src, mkConst(i, 64)), 1, what));
        for (u64 i = 0; i < n->v; i++) storeMem(s, mkBin(K_Add, dst, mkConst(i, 64)), t[i], 1, what);
        return; } }
    Acc a = access(s, src, n->v, false, what);
    auto sd = a.o->d; Acc b = access(s, dst, n->v, true, what);
    if (!isC(b.off) || !isC(a.off)) { std::vector<E> t; for (u64 i = 0; i < n->v; i++) t.push_back(loadMem(s, mkBin(K_Add, src, mkConst(i, 64)), 1, what));
      for (u64 i = 0; i < n->v; i++) storeMem(s, mkBin(K_Add, dst, mkConst(i, 64)), t[i], 1, what); return; }
    std::vector<E> t(n->v); bool same = a.o == b.o;
    Data& d = wdata(b.o); const Data& q = same ? d : *sd;
    for (u64 i = 0; i < n->v; i++) t[i] = byteAt(q, a.off->v + i);
    for (u64 i = 0; i < n->v; i++) setByte(d, b.off->v + i, t[i]);
    return;
  }
  // symbolic length: first decide zero vs non-zero, then bounds for the maximum
  Assign m; E z = mkEq(n, mkConst(0, 64));
  if (maySat(s, z, m) ) { Assign m2; if (maySat(s, mkNot(z), m2)) { fork(s, z, m); addC(s, mkNot(z), m2); } else { addC(s, z, m); return; } }
  u64 dv = EV.run(dst, s.model), sv = EV.run(src, s.model);
  Ref rs = findObj(s, sv), rd = findObj(s, dv);
  if (!isC(dst) || !isC(src) || !rs.o || !rd.o || rs.o->dead || rd.o->dead) return copyMem(s, dst, src, mkConst(concretizeFork(s, n, "copy length"), 64), what);
  auto chk = [&](Ref& r, u64 a) {
    E bad = mkBin(K_Ult, mkConst(r.o->size - (a - r.base), 64), n); Assign mm; memChecks++;
    if (maySat(s, bad, mm, true)) { report(s, mm, "memory", std::string("out-of-bounds:") + what + ":" + objName(r)); nErrPaths++;
      Assign m4; if (!maySat(s, mkNot(bad), m4)) throw PathEnd(); addC(s, mkNot(bad), m4); } };
  chk(rs, sv); chk(rd, dv);
  if (rd.o->ro) memError(s, s.model, "bad-write", what);
  u64 mx = std::min(rs.o->size - (sv - rs.base), rd.o->size - (dv - rd.base));
  u64 lo, hi; offRange(s, n, mx, lo, hi);
  std::vector<E> t(hi); for (u64 i = 0; i < hi; i++) t[i] = byteAt(*rs.o->d, sv - rs.base + i);
  Data& d = wdata(rd.o);
  for (u64 i = 0; i < hi; i++) setByte(d, dv - rd.base + i, i < lo ? t[i] : mkIte(mkBin(K_Ult, mkConst(i, 64), n), t[i], byteAt(d, dv - rd.base + i)));
}
static void setMem(State& s, E dst, E val, E n) {
  if (!isC(n)) n = mkConst(concretizeFork(s, n, "memset length"), 64);
  if (n->v == 0) return;
  if (n->v > (1u << 26)) memError(s, s.model, "out-of-bounds", "memset:size");
  Acc a = access(s, dst, n->v, true, "memset"); 
  if (!isC(a.off)) { for (u64 i = 0; i < n->v; i++) storeMem(s, mkBin(K_Add, dst, mkConst(i, 64)), val, 1); return; }
  Data& d = wdata(a.o); for (u64 i = 0; i < n->v; i++) setByte(d, a.off->v + i, val);
}
static std::string cstr(State& s, E p) {
  std::string r; u64 a = concretizeFork(s, p, "string pointer");
  for (;;) { E b = loadMem(s, mkConst(a++, 64), 1, "string"); if (!isC(b)) { r += '?'; if (r.size() > 200) return r; continue; } if (!b->v) return r; r += (char)b->v; if (r.size() > 4096) return r; }
}

// ------------------------------------------------------------------ constants
static V constVal(const Constant* C);
static unsigned bits(Type* t) { if (t->isPointerTy()) return 64; if (auto* it = dyn_cast<IntegerType>(t)) return it->getBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
static V undefOf(Type* t) {
  if (unsigned b = bits(t)) { if (b > 64) { V v; v.agg = std::make_shared<std::vector<V>>(); v.agg->push_back(mkConst(0, 64)); v.agg->push_back(mkConst(0, 64)); return v; } return mkConst(0, b); }
  V v; v.agg = std::make_shared<std::vector<V>>();
  if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) v.agg->push_back(undefOf(e));
  else if (auto* at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); i++) v.agg->push_back(undefOf(at->getElementType()));
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); i++) v.agg->push_back(undefOf(vt->getElementType()));
  return v;
}
static V constVal(const Constant* C) {
  if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { V v; v.agg = std::make_shared<std::vector<V>>(); v.agg->push_back(mkConst(ci->getValue().extractBitsAsZExtValue(64, 0), 64)); v.agg->push_back(mkConst(ci->getValue().lshr(64).getLimitedValue(), 64)); return v; } return mkConst(ci->getZExtValue(), ci->getBitWidth()); }
  if (isa<ConstantPointerNull>(C)) return mkConst(0, 64);
  if (auto* f = dyn_cast<ConstantFP>(C)) { unsigned b = bits(C->getType()); return mkConst(f->getValueAPF().bitcastToAPInt().getZExtValue(), b ? b : 64); }
  if (auto* ga = dyn_cast<GlobalAlias>(C)) return constVal(ga->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(C)) { auto it = gaddr.find(g); if (it == gaddr.end()) { die("no address for global " + g->getName().str()); return mkConst(0, 64); } return mkConst(it->second, 64); }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return undefOf(C->getType());
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { V v; v.agg = std::make_shared<std::vector<V>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(constVal(cd->getElementAsConstant(i))); return v; }
  if (auto* ca = dyn_cast<ConstantAggregate>(C)) { V v; v.agg = std::make_shared<std::vector<V>>(); for (auto& o : ca->operands()) v.agg->push_back(constVal(cast<Constant>(o))); return v; }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); auto* g = cast<GEPOperator>(ce);
        if (!g->accumulateConstantOffset(*DL, off)) { die("const gep"); return mkConst(0, 64); }
        return mkBin(K_Add, constVal(ce->getOperand(0)).e, mkConst(off.getZExtValue(), 64)); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: { E e = constVal(ce->getOperand(0)).e; unsigned b = bits(ce->getType()); return b <= e->w ? mkExtract(e, 0, b) : mkZExt(e, b); }
      case Instruction::Add: return mkBin(K_Add, constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e);
      case Instruction::Sub: return mkBin(K_Sub, constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e);
      case Instruction::ICmp: return mkConst(0, 1);
      default: break;
    }
  }
  std::string t; raw_string_ostream os(t); C->print(os); die("unsupported constant " + t); return mkConst(0, 64);
}
static void storeConst(Data& d, u64 off, const Constant* C) {
  Type* t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) d.c[off + i] = r[i]; return; }
  if (auto* cs = dyn_cast<ConstantStruct>(C)) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < cs->getNumOperands(); i++) storeConst(d, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto* ca = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) storeConst(d, off + i * es, ca->getOperand(i)); return; }
  V v = constVal(C); unsigned n = DL->getTypeStoreSize(t);
  if (v.e) writeBytes(d, off, n, v.e->w == 8 * n ? v.e : mkZExt(v.e, 8 * n));
}

// ------------------------------------------------------------------ function preparation
static KFunc* kf(Function* F) {
  auto& k = kfuncs[F]; if (k) return k;
  k = new KFunc; k->F = F; k->name = F->getName().str();
  std::map<const Value*, int> reg;
  for (auto& a : F->args()) { reg[&a] = k->nregs; k->argreg.push_back(k->nregs++); }
  int n = 0; for (auto& bb : *F) { k->bbid[&bb] = n++; for (auto& i : bb) if (!i.getType()->isVoidTy()) reg[&i] = k->nregs++; }
  std::map<const Constant*, int> cid;
  auto op = [&](const Value* v) -> int {
    if (auto it = reg.find(v); it != reg.end()) return it->second;
    if (auto* c = dyn_cast<Constant>(v)) { auto it = cid.find(c); if (it != cid.end()) return it->second; int id = -2 - (int)k->consts.size(); cid[c] = id; k->consts.push_back(c); return id; }
    return -1; };
  k->bbs.resize(n); n = 0; k->cov.assign(k->bbs.size(), 0);
  for (auto& bb : *F) { for (auto& i : bb) {
      if (auto* ii = dyn_cast<IntrinsicInst>(&i)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) continue; }
      KInst ki; ki.I = &i; ki.opc = i.getOpcode(); ki.dest = i.getType()->isVoidTy() ? -1 : reg[&i];
      for (auto& o : i.operands()) ki.ops.push_back(op(o));
      if (auto* br = dyn_cast<BranchInst>(&i)) { ki.bbT = k->bbid[br->getSuccessor(0)]; if (br->isConditional()) ki.bbF = k->bbid[br->getSuccessor(1)]; }
      k->bbs[n].push_back(std::move(ki)); }
    n++; }
  k->constVals.resize(k->consts.size()); k->constReady.assign(k->consts.size(), 0);
  return k;
}
static inline const V& val(Frame& f, int op) {
  if (op >= 0) return f.regs[op];
  int i = -2 - op; KFunc* k = f.f;
  if (!k->constReady[i]) { k->constVals[i] = constVal(k->consts[i]); k->constReady[i] = 1; }
  return k->constVals[i];
}

// ------------------------------------------------------------------ typed load/store
static V loadTyped(State& s, E addr, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { V v; v.agg = std::make_shared<std::vector<V>>(); auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(loadTyped(s, mkBin(K_Add, addr, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i))); return v; }
  if (t->isArrayTy() || t->isVectorTy()) { V v; v.agg = std::make_shared<std::vector<V>>(); Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(), es = DL->getTypeAllocSize(et);
    for (u64 i = 0; i < n; i++) v.agg->push_back(loadTyped(s, mkBin(K_Add, addr, mkConst(i * es, 64)), et)); return v; }
  unsigned b = bits(t), n = DL->getTypeStoreSize(t);
  if (b > 64) { V v; v.agg = std::make_shared<std::vector<V>>(); v.agg->push_back(loadMem(s, addr, 8)); v.agg->push_back(loadMem(s, mkBin(K_Add, addr, mkConst(8, 64)), 8)); return v; }
  E e = loadMem(s, addr, n); return mkExtract(e, 0, b);
}
static void storeTyped(State& s, E addr, const V& v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTyped(s, mkBin(K_Add, addr, mkConst(sl->getElementOffset(i), 64)), (*v.agg)[i], st->getElementType(i)); return; }
  if (t->isArrayTy() || t->isVectorTy()) { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); u64 es = DL->getTypeAllocSize(et);
    for (u64 i = 0; i < v.agg->size(); i++) storeTyped(s, mkBin(K_Add, addr, mkConst(i * es, 64)), (*v.agg)[i], et); return; }
  unsigned b = bits(t), n = DL->getTypeStoreSize(t);
  if (b > 64) { storeMem(s, addr, (*v.agg)[0].e, 8); storeMem(s, mkBin(K_Add, addr, mkConst(8, 64)), (*v.agg)[1].e, 8); return; }
  if (!v.e) { die("a symbolic double is stored"); throw PathEnd(); }
  storeMem(s, addr, b == 8 * n ? v.e : mkZExt(v.e, 8 * n), n);
}

// ------------------------------------------------------------------ calls
typedef std::function<V(State&, const KInst&, std::vector<V>&)> Builtin;
static std::map<std::string, Builtin> builtins;
static std::map<std::string, Function*> overrides;
static std::string skipPrefixList;

static void jump(State& s, Frame& f, int bb) { f.prevbb = f.bb; f.bb = bb; f.ip = 0; f.f->cov[bb] = 1; 
  // phis
  auto& insts = f.f->bbs[bb]; std::vector<std::pair<int, V>> nv; int n = 0;
  while (n < (int)insts.size() && insts[n].opc == Instruction::PHI) { auto* ph = cast<PHINode>(insts[n].I); 
    for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) if (f.f->bbid[ph->getIncomingBlock(i)] == f.prevbb) { nv.push_back({insts[n].dest, val(f, insts[n].ops[i])}); break; }
    n++; }
  for (auto& p : nv) f.regs[p.first] = p.second;
  f.ip = n; (void)s; }

static void setResult(State& s, const KInst& k, const V& v) { if (k.dest >= 0) s.fr().regs[k.dest] = v; }

static void advanceAfterCall(State& s, const KInst& k) {
  Frame& f = s.fr();
  if (k.opc == Instruction::Invoke) jump(s, f, f.f->bbid[cast<InvokeInst>(k.I)->getNormalDest()]); else f.ip++;
}
static void pushCall(State& s, Function* F, std::vector<V> args, const KInst* call) {
  if (s.T().st.size() > 400) { report(s, s.model, "memory", "stack-overflow"); nErrPaths++; throw PathEnd(); }
  KFunc* k = kf(F); Frame nf; nf.f = k; nf.regs.resize(k->nregs); nf.call = call; k->cov[0] = 1;
  for (unsigned i = 0; i < F->arg_size(); i++) { 
    auto* A = F->getArg(i);
    if (A->hasByValAttr()) { Type* t = A->getParamByValType(); u64 sz = DL->getTypeAllocSize(t); u64 a = allocObj(s, sz, O_Stack, 0); nf.allocas.push_back(a); copyMem(s, mkConst(a, 64), args[i].e, mkConst(sz, 64), "byval"); nf.regs[k->argreg[i]] = mkConst(a, 64); }
    else nf.regs[k->argreg[i]] = i < args.size() ? args[i] : undefOf(A->getType()); }
  for (unsigned i = F->arg_size(); i < args.size(); i++) nf.varargs.push_back(args[i]);
  s.T().st.push_back(std::move(nf));
}
static void popFrame(State& s) { Frame& f = s.fr(); for (u64 a : f.allocas) s.mem.erase(a); s.T().st.pop_back(); }

static bool tiDerives(u64 ti, u64 base, int depth = 0) {
  if (ti == base) return true; if (depth > 6) return false;
  for (auto& kv : gaddr) if (kv.second == ti) { auto* gv = dyn_cast<GlobalVariable>(kv.first); if (!gv || !gv->hasInitializer()) return false; auto* cs = dyn_cast<ConstantStruct>(gv->getInitializer()); if (!cs) return false;
    for (unsigned i = 2; i < cs->getNumOperands(); i++) if (cs->getOperand(i)->getType()->isPointerTy()) { V v = constVal(cs->getOperand(i)); if (v.e && isC(v.e) && tiDerives(v.e->v, base, depth + 1)) return true; } return false; }
  return false;
}
// unwind the current thread with (obj, type) from call instruction `call` of the top frame
static bool unwind(State& s, u64 obj, u64 ti, const KInst* call) {
  while (true) {
    if (call && call->opc == Instruction::Invoke) {
      auto* inv = cast<InvokeInst>(call->I); Frame& f = s.fr(); auto* lp = inv->getLandingPadInst();
      u64 sel = 0; bool hit = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) { u64 t = constVal(lp->getClause(i)).e->v; if (t == 0 || tiDerives(ti, t)) { sel = t ? (t & 0x7fffffff) : 1; hit = true; break; } }
      if (hit) {
        jump(s, f, f.f->bbid[inv->getUnwindDest()]);
        auto& lk = f.f->bbs[f.bb][f.ip]; V v; v.agg = std::make_shared<std::vector<V>>(); v.agg->push_back(mkConst(obj, 64)); v.agg->push_back(mkConst(sel, 32));
        f.regs[lk.dest] = v; f.ip++;
        s.T().excObj = mkConst(obj, 64); s.T().excType = mkConst(ti, 64);
        return true;
      }
    }
    if (s.T().st.size() <= 1) return false;
    call = s.fr().call; popFrame(s);
  }
}
[[noreturn]] static void doThrow(State& s, u64 obj, u64 ti, const KInst* k) {
  std::string loc = locOf(s.fr()), stk = stackOf(s);
  if (unwind(s, obj, ti, k)) throw Requeued();
  Viol v; v.kind = "exception"; v.label = "uncaught-exception"; v.loc = loc; v.stack = stk; v.inputs = concretize(s, s.model); v.known = s.known; v.sched = s.sched;
  std::string key = v.kind + v.loc + s.known; if (violCount[key]++ == 0) { if (s.known.empty()) viols.push_back(v); else knowns.push_back(v); } nErrPaths++;
  throw PathEnd();
}

static void finishPath(State& s) {
  nPaths++;
  if (samples.size() < nSamples || rnd() % nPaths < nSamples) {
    // randomise the model: any bytes the path condition leaves free take seeded random values
    { std::map<u32, std::vector<E>> by; auto pcs = s.pc; std::vector<u32> ids; std::set<u32> seen;
      for (auto& in : s.in) for (E x : in.bytes) if (x->k == K_Var && seen.insert(x->v).second) ids.push_back(x->v);
      if (pcs.size() < 3000) for (E c : pcs) { for (u32 v : varsOf(c)) by[v].push_back(c); }
      u64 budget = 400000;
      if (pcs.size() < 3000) for (int round = 0; round < 2; round++) for (u32 v : ids) for (int tries = 0; tries < 3; tries++) {
        u64 old = s.model.count(v) ? s.model[v] : 0; s.model[v] = rnd() & 0xff; bool ok = true; auto it = by.find(v);
        if (it != by.end()) { if (it->second.size() > budget) { s.model[v] = old; break; } budget -= it->second.size(); for (E c : it->second) if (!EV.run(c, s.model)) { ok = false; break; } }
        if (ok) break; s.model[v] = old; } }
    Sample sm; sm.inputs = concretize(s, s.model); for (auto& o : s.obs) sm.obs.push_back({o.label, EV.run(o.v, s.model)}); sm.sched = s.sched;
    if (samples.size() < nSamples) samples.push_back(sm); else samples[rnd() % nSamples] = sm;
  }
  throw PathEnd();
}

static void callFunction(State& s, const KInst& k, Function* F, std::vector<V>& args) {
  std::string nm = F->getName().str();
  auto it = builtins.find(nm);
  if (it != builtins.end() && !(F->getSubprogram() && F->getSubprogram()->getFilename().contains("harness/"))) {
    int depth = s.T().st.size(); int cur = s.cur;
    V r = it->second(s, k, args);
    if (s.cur == cur && (int)s.T().st.size() == depth) { setResult(s, k, r); advanceAfterCall(s, k); }
    return;
  }
  if (F->isDeclaration()) {
    if (unsupported.insert(nm).second) fprintf(stderr, "symx: unsupported external %s at %s\n", nm.c_str(), stackOf(s).c_str());
    die("call to unsupported external function " + nm); throw PathEnd();
  }
  pushCall(s, F, args, &k);
}

// ------------------------------------------------------------------ threads
static bool runnable(State& s, int t) {
  Thr& h = s.thr[t]; if (h.done) return false;
  if (h.waitKind == 1) { auto it = s.mtx.find(h.waitAddr); return it == s.mtx.end() || it->second == 0; }
  if (h.waitKind == 2) return s.sem[h.waitAddr] > 0;
  if (h.waitKind == 3) return s.thr[h.joinId].done;
  return true;
}
static void switchTo(State& s, int t) { s.cur = t; s.sched.push_back(std::to_string(t)); }
// a point at which another thread may be scheduled; the current instruction has not executed yet
static void schedPoint(State& s) {
  if (s.thr.size() < 2 || s.noSwitch) return;
  if (s.T().waitKind) return;
  // the schedule is symbolic: swAt is the scheduling point of the next switch, choice() the thread it goes to
  s.points++;
  if (s.switches < maxSwitches) {
    bool any = false; for (int t = 0; t < (int)s.thr.size(); t++) if (t != s.cur && runnable(s, t)) any = true;
    if (any) {
      if (!s.swAt) s.swAt = mkConcat(mkVar(s.nvars++, 8), mkVar(s.nvars++, 8));
      E here = mkEq(s.swAt, mkConst(s.points, 16)); Assign m;
      if (maySat(s, here, m)) {
        State b(s); addC(b, here, m); E who = mkVar(b.nvars++, 8);
        for (int t = 0; t < (int)s.thr.size(); t++) if (t != s.cur && runnable(s, t)) {
          E c = mkEq(who, mkConst(t, 8)); Assign m2; if (!maySat(b, c, m2)) continue;
          auto n = std::make_unique<State>(b); addC(*n, c, m2); n->switches++; n->swAt = E(); switchTo(*n, t); work.push_back(std::move(n)); nForks++; }
      }
      Assign m3; if (!maySat(s, mkNot(here), m3)) { nInfeasible++; throw PathEnd(); } addC(s, mkNot(here), m3);
    }
  }
  s.sched.push_back(std::to_string(s.cur));
}
// current thread cannot go on: run another one (all choices explored)
[[noreturn]] static void blockCur(State& s) {
  std::vector<int> c; for (int t = 0; t < (int)s.thr.size(); t++) if (t != s.cur && runnable(s, t)) c.push_back(t);
  if (c.empty()) {
    bool alldone = true; for (auto& t : s.thr) if (!t.done) alldone = false;
    if (alldone) finishPath(s);
    report(s, s.model, "deadlock", "deadlock"); nErrPaths++; throw PathEnd();
  }
  if (c.size() > 1) { E who = mkVar(s.nvars++, 8); State b(s);
    for (size_t i = 0; i < c.size(); i++) { E q = mkEq(who, mkConst(c[i], 8)); Assign m; if (!maySat(b, q, m)) continue;
      if (!i) { addC(s, q, m); continue; } auto n = std::make_unique<State>(b); addC(*n, q, m); switchTo(*n, c[i]); work.push_back(std::move(n)); nForks++; } }
  switchTo(s, c[0]); throw Requeued();
}

// ------------------------------------------------------------------ one instruction
static Kind binKind(unsigned o) {
  switch (o) { case Instruction::Add: return K_Add; case Instruction::Sub: return K_Sub; case Instruction::Mul: return K_Mul; case Instruction::UDiv: return K_UDiv; case Instruction::SDiv: return K_SDiv;
    case Instruction::URem: return K_URem; case Instruction::SRem: return K_SRem; case Instruction::And: return K_And; case Instruction::Or: return K_Or; case Instruction::Xor: return K_Xor;
    case Instruction::Shl: return K_Shl; case Instruction::LShr: return K_LShr; case Instruction::AShr: return K_AShr; } abort();
}
// ---- doubles: concrete values are computed; a symbolic one is an exact fraction num/den of integers (V.agg = {num, den}), enough for conversions, products and quotients with constants
static bool ratOf(const V& v, V& num, i64& den) {
  if (!v.e) { if (!v.agg || v.agg->size() != 2 || !(*v.agg)[1].e || !isC((*v.agg)[1].e)) return false; num = (*v.agg)[0]; den = (i64)(*v.agg)[1].e->v; return true; }
  if (!isC(v.e)) return false;
  double d; u64 b = v.e->v; memcpy(&d, &b, 8); den = 1; while (d != (double)(i64)d && den < (1 << 20)) { d *= 2; den *= 2; }
  if (d != (double)(i64)d || d > 1e9 || d < -1e9) return false; num = V(mkConst((u64)(i64)d, 64)); return true; }
static V ratV(E num, i64 den) { V v; v.agg = std::make_shared<std::vector<V>>(); v.agg->push_back(num); v.agg->push_back(mkConst((u64)den, 64)); return v; }
static bool doFloat(Instruction* I, unsigned opc, const V& a, const V& b, V& out) {
  if (!I->getType()->isDoubleTy() && !I->getOperand(0)->getType()->isDoubleTy()) return false;
  auto dv = [](const V& v) { double d; u64 x = v.e->v; memcpy(&d, &x, 8); return d; }; auto mkd = [](double d) { u64 x; memcpy(&x, &d, 8); return V(mkConst(x, 64)); };
  auto conc = [](const V& v) { return v.e && isC(v.e); }; V n, m; i64 d, f;
  auto sx = [](E e) { i64 v = (i64)e->v; if (e->w < 64) v = (i64)(e->v << (64 - e->w)) >> (64 - e->w); return v; };
  switch (opc) {
    case Instruction::UIToFP: if (conc(a)) { out = mkd((double)a.e->v); return true; } if (a.e->w > 32) return false; out = ratV(mkZExt(a.e, 64), 1); return true;
    case Instruction::SIToFP: if (conc(a)) { out = mkd((double)sx(a.e)); return true; } out = ratV(mkSExt(a.e, 64), 1); return true;   // exact below 2^53; every use converts times and lengths
    case Instruction::FPToUI: case Instruction::FPToSI: { unsigned w = bits(I->getType());
      if (conc(a)) { double x = dv(a); out = V(mkConst(opc == Instruction::FPToUI ? (u64)x : (u64)(i64)x, w)); return true; }
      if (!ratOf(a, n, d)) return false; E q = mkBin(K_SDiv, n.e, mkConst((u64)d, 64)); out = V(w < 64 ? mkExtract(q, 0, w) : q); return true; }
    case Instruction::FMul: if (conc(a) && conc(b)) { out = mkd(dv(a) * dv(b)); return true; } if (!ratOf(a, n, d) || !ratOf(b, m, f) || d > (1 << 20) / f) return false; out = ratV(mkBin(K_Mul, n.e, m.e), d * f); return true;
    case Instruction::FDiv: if (conc(a) && conc(b)) { out = mkd(dv(a) / dv(b)); return true; } if (!ratOf(a, n, d) || !ratOf(b, m, f) || !isC(m.e) || (i64)m.e->v <= 0 || d > (1 << 20) / (i64)m.e->v) return false; out = ratV(mkBin(K_Mul, n.e, mkConst((u64)f, 64)), d * (i64)m.e->v); return true;
    case Instruction::FAdd: case Instruction::FSub: if (conc(a) && conc(b)) { out = mkd(opc == Instruction::FAdd ? dv(a) + dv(b) : dv(a) - dv(b)); return true; }
      if (!ratOf(a, n, d) || !ratOf(b, m, f) || d > (1 << 20) / f) return false; out = ratV(mkBin(opc == Instruction::FAdd ? K_Add : K_Sub, mkBin(K_Mul, n.e, mkConst((u64)f, 64)), mkBin(K_Mul, m.e, mkConst((u64)d, 64))), d * f); return true;
    case Instruction::FCmp: { auto p = cast<FCmpInst>(I)->getPredicate(); E x, y;
      if (!ratOf(a, n, d) || !ratOf(b, m, f)) return false; x = mkBin(K_Mul, n.e, mkConst((u64)f, 64)); y = mkBin(K_Mul, m.e, mkConst((u64)d, 64));
      switch (p) { case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: out = V(mkBin(K_Slt, x, y)); return true; case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: out = V(mkBin(K_Slt, y, x)); return true;
        case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: out = V(mkNot(mkBin(K_Slt, y, x))); return true; case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: out = V(mkNot(mkBin(K_Slt, x, y))); return true;
        case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: out = V(mkEq(x, y)); return true; case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: out = V(mkNot(mkEq(x, y))); return true; default: return false; } }
  }
  return false; }
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(K_Ult, a, b); case CmpInst::ICMP_ULE: return mkBin(K_Ule, a, b); case CmpInst::ICMP_UGT: return mkBin(K_Ult, b, a); case CmpInst::ICMP_UGE: return mkBin(K_Ule, b, a);
    case CmpInst::ICMP_SLT: return mkBin(K_Slt, a, b); case CmpInst::ICMP_SLE: return mkBin(K_Sle, a, b); case CmpInst::ICMP_SGT: return mkBin(K_Slt, b, a); case CmpInst::ICMP_SGE: return mkBin(K_Sle, b, a);
    default: die("icmp pred"); return mkFalse(); }
}
static V intrinsic(State& s, const KInst& k, IntrinsicInst* ii, std::vector<V>& a, bool& handled);

static void step(State& s) {
  Frame& f = s.fr(); const KInst& k = f.f->bbs[f.bb][f.ip]; Instruction* I = k.I;
  auto op = [&](int i) -> const V& { return val(f, k.ops[i]); };
  auto set = [&](const V& v) { f.regs[k.dest] = v; f.ip++; };
  switch (k.opc) {
    case Instruction::Alloca: { auto* A = cast<AllocaInst>(I); u64 n = 1; E c = op(0).e; if (!isC(c)) n = concretizeFork(s, c, "alloca"); else n = c->v;
      u64 sz = DL->getTypeAllocSize(A->getAllocatedType()) * n; u64 ad = allocObj(s, sz, O_Stack, 0xAA); f.allocas.push_back(ad); set(mkConst(ad, 64)); return; }
    case Instruction::Load: { struct At { ~At() { atomicAccess = false; } } at; atomicAccess = cast<LoadInst>(I)->isAtomic(); set(loadTyped(s, op(0).e, I->getType())); return; }
    case Instruction::Store: { struct At { ~At() { atomicAccess = false; } } at; atomicAccess = cast<StoreInst>(I)->isAtomic(); storeTyped(s, op(1).e, op(0), I->getOperand(0)->getType()); f.ip++; return; }
    case Instruction::GetElementPtr: {
      auto* G = cast<GetElementPtrInst>(I); if (G->getType()->isVectorTy()) { die("vector gep"); throw PathEnd(); } E r = op(0).e; u64 c = 0; int i = 1;
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it, ++i) {
        if (auto* st = it.getStructTypeOrNull()) { c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(G->getOperand(i))->getZExtValue()); }
        else { u64 es = DL->getTypeAllocSize(it.getIndexedType()); E x = op(i).e; if (isC(x)) c += (u64)sextv(x->v, x->w) * es; else r = mkBin(K_Add, r, mkBin(K_Mul, mkSExt(x, 64), mkConst(es, 64))); } }
      set(mkBin(K_Add, r, mkConst(c, 64))); return; }
    case Instruction::ICmp: { const V &a = op(0), &b = op(1); if (!a.e || !b.e) { die("icmp on aggregate"); throw PathEnd(); } set(icmp(cast<ICmpInst>(I)->getPredicate(), a.e, b.e)); return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      const V &a = op(0), &b = op(1); if (!a.e || !b.e) { die("wide arithmetic"); throw PathEnd(); }
      if (k.opc == Instruction::UDiv || k.opc == Instruction::SDiv || k.opc == Instruction::URem || k.opc == Instruction::SRem) {
        Assign m; E z = mkEq(b.e, mkConst(0, b.e->w)); if (maySat(s, z, m, true)) { report(s, m, "arith", "division-by-zero"); nErrPaths++; Assign m2; if (!maySat(s, mkNot(z), m2)) throw PathEnd(); addC(s, mkNot(z), m2); } }
      set(mkBin(binKind(k.opc), a.e, b.e)); return; }
    case Instruction::Trunc: { const V& a = op(0); set(a.e ? mkExtract(a.e, 0, bits(I->getType())) : mkExtract((*a.agg)[0].e, 0, bits(I->getType()))); return; }
    case Instruction::ZExt: { unsigned w = bits(I->getType()); if (w > 64) { V v; v.agg = std::make_shared<std::vector<V>>(); v.agg->push_back(mkZExt(op(0).e, 64)); v.agg->push_back(mkConst(0, 64)); set(v); return; } set(mkZExt(op(0).e, w)); return; }
    case Instruction::SExt: set(mkSExt(op(0).e, bits(I->getType()))); return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: { E a = op(0).e; unsigned b = bits(I->getType()); set(b <= a->w ? mkExtract(a, 0, b) : mkZExt(a, b)); return; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: set(op(0)); return;
    case Instruction::Select: { E c = op(0).e; if (!c) { die("vector select"); throw PathEnd(); } const V &a = op(1), &b = op(2);
      if (isC(c)) { set(c->v ? a : b); return; }
      if (a.e) { set(mkIte(c, a.e, b.e)); return; }
      u64 v = concretizeFork(s, c, "select"); set(v ? op(1) : op(2)); return; }
    case Instruction::Br: {
      if (k.bbF < 0) { jump(s, f, k.bbT); return; }
      E c = op(0).e;
      if (isC(c)) { jump(s, f, c->v ? k.bbT : k.bbF); return; }
      bool cur = EV.run(c, s.model); E other = cur ? mkNot(c) : c; Assign m;
      if (maySat(s, other, m)) { auto n = std::make_unique<State>(s); addC(*n, other, m); jump(*n, n->fr(), cur ? k.bbF : k.bbT); work.push_back(std::move(n)); nForks++; addC(s, cur ? c : mkNot(c), s.model); }
      jump(s, f, cur ? k.bbT : k.bbF); return; }
    case Instruction::Switch: {
      auto* W = cast<SwitchInst>(I); E c = op(0).e;
      if (isC(c)) { BasicBlock* t = W->getDefaultDest(); for (auto& cs : W->cases()) if (cs.getCaseValue()->getZExtValue() == c->v) { t = cs.getCaseSuccessor(); break; } jump(s, f, f.f->bbid[t]); return; }
      std::map<int, E> tg; std::vector<int> order; E def = mkTrue();
      for (auto& cs : W->cases()) { E q = mkEq(c, mkConst(cs.getCaseValue()->getZExtValue(), c->w)); def = mkAnd(def, mkNot(q)); int b = f.f->bbid[cs.getCaseSuccessor()]; if (!tg.count(b)) { tg[b] = q; order.push_back(b); } else tg[b] = mkOr(tg[b], q); }
      int db = f.f->bbid[W->getDefaultDest()]; if (tg.count(db)) tg[db] = mkOr(tg[db], def); else { tg[db] = def; order.push_back(db); }
      int mine = -1; for (int b : order) if (EV.run(tg[b], s.model)) { mine = b; break; }
      for (int b : order) if (b != mine) { Assign m; if (maySat(s, tg[b], m)) { auto n = std::make_unique<State>(s); addC(*n, tg[b], m); jump(*n, n->fr(), b); work.push_back(std::move(n)); nForks++; } }
      addC(s, tg[mine], s.model); jump(s, f, mine); return; }
    case Instruction::ExtractValue: { auto* x = cast<ExtractValueInst>(I); V v = op(0); for (unsigned i : x->indices()) { V t = (*v.agg)[i]; v = t; } set(v); return; }
    case Instruction::InsertValue: { auto* x = cast<InsertValueInst>(I); V v = op(0); 
      std::function<V(V, unsigned)> ins = [&](V a, unsigned d) -> V { if (d == x->getNumIndices()) return op(1); V r; r.agg = std::make_shared<std::vector<V>>(*a.agg); unsigned ix = x->getIndices()[d]; (*r.agg)[ix] = ins((*a.agg)[ix], d + 1); return r; };
      set(ins(v, 0)); return; }
    case Instruction::ExtractElement: { V v = op(0); u64 i = concretizeFork(s, op(1).e, "ee"); set((*v.agg)[i]); return; }
    case Instruction::InsertElement: { V v = op(0); u64 i = concretizeFork(s, op(2).e, "ie"); V r; r.agg = std::make_shared<std::vector<V>>(*v.agg); (*r.agg)[i] = op(1); set(r); return; }
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: { struct At { At() { atomicAccess = true; } ~At() { atomicAccess = false; } } at; auto* r = cast<AtomicRMWInst>(I); E p = op(0).e, v = op(1).e; unsigned n = v->w / 8; E o = loadMem(s, p, n); E nv;
      switch (r->getOperation()) { case AtomicRMWInst::Add: nv = mkBin(K_Add, o, v); break; case AtomicRMWInst::Sub: nv = mkBin(K_Sub, o, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = mkBin(K_Or, o, v); break; case AtomicRMWInst::And: nv = mkBin(K_And, o, v); break; default: die("atomicrmw"); throw PathEnd(); }
      storeMem(s, p, nv, n); set(o); return; }
    case Instruction::Ret: {
      V rv; bool has = I->getNumOperands(); if (has) rv = op(0);
      const KInst* call = f.call; popFrame(s);
      if (s.T().st.empty() || !call) {
        s.T().done = true;
        if (s.cur == 0 || s.thr.size() == 1) finishPath(s);
        blockCur(s);
      }
      if (has && call->dest >= 0) s.fr().regs[call->dest] = rv;
      advanceAfterCall(s, *call); return; }
    case Instruction::Call: case Instruction::Invoke: {
      auto* C = cast<CallBase>(I); if (C->isInlineAsm()) { f.ip++; return; }
      unsigned na = C->arg_size(); std::vector<V> args(na); for (unsigned i = 0; i < na; i++) args[i] = k.ops[i] == -1 ? V(mkConst(0, 64)) : op(i);
      if (auto* ii = dyn_cast<IntrinsicInst>(I)) { bool h = true; V r = intrinsic(s, k, ii, args, h); if (!h) { die("unsupported intrinsic " + ii->getCalledFunction()->getName().str()); throw PathEnd(); } setResult(s, k, r); if (k.opc == Instruction::Invoke) advanceAfterCall(s, k); else s.fr().ip++; return; }
      Function* F = C->getCalledFunction();
      if (!F) {
        if (auto* ga = dyn_cast<GlobalAlias>(C->getCalledOperand())) F = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
      }
      if (!F) {
        unsigned ci = C->getCalledOperandUse().getOperandNo();
        E p = op(ci).e; u64 a = concretizeFork(s, p, "fnptr"); auto it = fnAt.find(a);
        if (it == fnAt.end()) memError(s, s.model, a < 4096 ? "null-deref" : "invalid-pointer", "call");
        F = it->second;
      }
      callFunction(s, k, F, args); return; }
    case Instruction::Resume: { const V& v = op(0); u64 obj = (*v.agg)[0].e->v; u64 ti = s.T().excType.e ? s.T().excType.e->v : 0; (void)obj;
      const KInst* call = f.call; if (s.T().st.size() <= 1) { report(s, s.model, "exception", "uncaught-exception"); nErrPaths++; throw PathEnd(); }
      std::string loc = locOf(f); popFrame(s);
      if (unwind(s, obj, ti, call)) return;
      report(s, s.model, "exception", "uncaught-exception"); nErrPaths++; throw PathEnd(); }
    case Instruction::Unreachable: report(s, s.model, "memory", "unreachable-reached"); nErrPaths++; throw PathEnd();
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FMul: case Instruction::FDiv: case Instruction::FAdd: case Instruction::FSub: case Instruction::FCmp: {
      V r; if (doFloat(I, k.opc, op(0), I->getNumOperands() > 1 ? op(1) : V(), r)) { set(r); return; } std::string t; raw_string_ostream os(t); I->print(os); die("unsupported floating point operation " + t); throw PathEnd(); }
    default: { std::string t; raw_string_ostream os(t); I->print(os); die("unsupported instruction " + t); throw PathEnd(); }
  }
}
#include "builtins.h"

static void runState(std::unique_ptr<State> sp) {
  State& s = *sp;
  try {
    while (true) {
      if (s.T().st.empty()) { blockCur(s); }
      s.steps++; totalSteps++;
      { Frame& f = s.fr(); f.f->insts++; }
      if (s.steps > maxSteps) { report(s, s.model, "hang", "step-limit"); nErrPaths++; throw PathEnd(); }
      if ((totalSteps & 0xfff) == 0 && now() > timeLimit) { die("time limit"); throw PathEnd(); }
      try { step(s); } catch (Requeued&) {}
      if (!incomplete.empty()) throw PathEnd();
    }
  } catch (PathEnd&) {}
}

static std::string jesc(const std::string& x) { std::string r; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

int main(int argc, char** argv) {
  std::string bc, entry = "sym_main", out; std::string dump; u64 dumpmax = 0;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--time") timeLimit = atof(nx().c_str());
    else if (a == "--max-paths") maxPaths = strtoull(nx().c_str(), 0, 10); else if (a == "--max-steps") maxSteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "--samples") nSamples = atoi(nx().c_str()); else if (a == "--seed") { rngState ^= strtoull(nx().c_str(), 0, 10) * 0x9E3779B97F4A7C15ull; if (!rngState) rngState = 1; }
    else if (a == "--param") { std::string p = nx(); size_t q = p.find('='); params[p.substr(0, q)] = p.substr(q + 1); }
    else if (a == "--races") checkRaces = true; else if (a == "--switches") maxSwitches = atoi(nx().c_str()); else if (a == "--dump") { dump = nx(); dumpmax = 400; }
    else if (a == "--max-viol") maxViol = strtoull(nx().c_str(), 0, 10);
    else bc = a; }
  LLVMContext C; SMDiagnostic err; auto mod = parseIRFile(bc, err, C);
  if (!mod) { fprintf(stderr, "symx: cannot read %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); return 2; }
  M = mod.get(); DL = &M->getDataLayout(); S = new Solver; S->dumpdir = dump; S->dumpmax = dumpmax;
  registerBuiltins();
  auto s0 = std::make_unique<State>(); s0->nextAddr = 0x10000000ull;
  // addresses
  u64 fa = 0x100000; for (auto& F : *M) { gaddr[&F] = fa; fnAt[fa] = &F; romem[fa] = Obj{1, O_Func, true, false, 0, mkData(1, 0)}; fa += 16; }
  u64 ra = 0x4000000000ull;
  for (auto& G : M->globals()) { u64 sz = DL->getTypeAllocSize(G.getValueType()); if (!G.hasInitializer() && sz < 64) sz = 64;
    bool ro = G.isConstant() && G.hasInitializer(); if (ro) { gaddr[&G] = ra; romem[ra] = Obj{sz, O_Global, true, false, 0, mkData(sz, 0)}; ra += (sz + 0x1ffff) & ~0xffffull; }
    else { u64 a = allocAddr(*s0, sz); gaddr[&G] = a; s0->mem[a] = Obj{sz, O_Global, false, false, 0, mkData(sz, 0)}; } }
  for (auto& A : M->aliases()) { auto* t = A.getAliasee()->stripPointerCasts(); if (auto* f = dyn_cast<GlobalValue>(t)) gaddr[&A] = gaddr[f]; }
  for (auto& G : M->globals()) if (G.hasInitializer()) { u64 a = gaddr[&G]; Obj& o = G.isConstant() ? romem[a] : s0->mem[a]; storeConst(*o.d, 0, G.getInitializer()); }
  Function* F = M->getFunction(entry);
  if (!F || F->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 2; }
  // constructors, then the entry, as a chain of frames on thread 0
  std::vector<Function*> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function*>> v; for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) ctors.push_back(p.second); }
  s0->thr.resize(1);
  std::unique_ptr<State> cur = std::move(s0);
  for (auto* c : ctors) { // constructors are concrete: run each to completion
    std::vector<V> no; cur->T().st.clear(); pushCall(*cur, c, no, nullptr);
    try { while (true) { if (cur->T().st.size() == 1 && cur->fr().f->bbs[cur->fr().bb][cur->fr().ip].opc == Instruction::Ret) break; totalSteps++; try { step(*cur); } catch (Requeued&) {} } } catch (PathEnd&) { die("static constructor failed: " + c->getName().str()); break; }
    while (!cur->T().st.empty()) popFrame(*cur);
  }
  for (auto& kv : kfuncs) kv.second->insts = 0;
  nPaths = 0; totalSteps = 0;
  { std::vector<V> no; for (auto& a : F->args()) no.push_back(undefOf(a.getType())); pushCall(*cur, F, no, nullptr); }
  cur->heapLive = 0;
  if (incomplete.empty()) work.push_back(std::move(cur));
  while (!work.empty() && incomplete.empty()) {
    if (viols.size() >= maxViol) break;
    if (nPaths + nErrPaths > maxPaths) { die("path limit"); break; }
    auto st = std::move(work.back()); work.pop_back();
    runState(std::move(st));
  }
  // ---------------- report
  std::string j = "{\n";
  auto viol = [&](std::vector<Viol>& vs) { std::string r = "["; for (size_t i = 0; i < vs.size(); i++) { auto& v = vs[i]; if (i) r += ","; r += "\n  {\"kind\":\"" + jesc(v.kind) + "\",\"label\":\"" + jesc(v.label) + "\",\"loc\":\"" + jesc(v.loc) + "\",\"stack\":\"" + jesc(v.stack) + "\",\"known\":\"" + jesc(v.known) + "\",\"inputs\":[";
      for (size_t q = 0; q < v.inputs.size(); q++) r += std::string(q ? "," : "") + "[\"" + jesc(v.inputs[q].first) + "\",\"" + v.inputs[q].second + "\"]"; r += "],\"sched\":["; for (size_t q = 0; q < v.sched.size(); q++) r += std::string(q ? "," : "") + "\"" + v.sched[q] + "\""; r += "]}"; } return r + "]"; };
  j += " \"complete\": " + std::string(incomplete.empty() && work.empty() ? "true" : "false") + ",\n \"why\": \"" + jesc(incomplete) + "\",\n \"violations\": " + viol(viols) + ",\n \"known\": " + viol(knowns) + ",\n";
  auto mp = [&](std::map<std::string, u64>& m) { std::string r = "{"; bool first = true; for (auto& kv : m) { if (!first) r += ","; first = false; r += "\"" + jesc(kv.first) + "\":" + std::to_string(kv.second); } return r + "}"; };
  j += " \"reach\": " + mp(reach) + ",\n \"asserts\": " + mp(assertEval) + ",\n";
  char buf[1024]; struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  snprintf(buf, sizeof buf, " \"paths\": %llu, \"error_paths\": %llu, \"infeasible\": %llu, \"instructions\": %llu, \"forks\": %llu, \"mem_checks\": %llu,\n \"queries\": %llu, \"solver_calls\": %llu, \"sat\": %llu, \"unsat\": %llu, \"cache_hits\": %llu, \"solver_s\": %.3f, \"wall_s\": %.3f, \"maxrss_mb\": %ld,\n",
    (unsigned long long)nPaths, (unsigned long long)nErrPaths, (unsigned long long)nInfeasible, (unsigned long long)totalSteps, (unsigned long long)nForks, (unsigned long long)memChecks, (unsigned long long)S->st.queries, (unsigned long long)S->st.solver_calls, (unsigned long long)S->st.sat, (unsigned long long)S->st.unsat, (unsigned long long)S->st.cache_hits, S->st.time, now(), ru.ru_maxrss / 1024);
  j += buf;
  j += " \"functions\": {"; bool first = true;
  for (auto& kv : kfuncs) { KFunc* k = kv.second; if (!k->insts) continue; auto* sp = k->F->getSubprogram(); std::string file = sp ? sp->getFilename().str() : ""; unsigned cv = 0; for (char c : k->cov) cv += c; std::string d = demangle(k->name); if (!first) j += ","; first = false; j += "\n  \"" + jesc(d) + "\":[\"" + jesc(file) + "\"," + std::to_string(k->insts) + "," + std::to_string(cv) + "," + std::to_string(k->bbs.size()) + "]"; }
  j += "},\n \"samples\": [";
  for (size_t i = 0; i < samples.size(); i++) { auto& v = samples[i]; if (i) j += ","; j += "\n  {\"inputs\":["; for (size_t q = 0; q < v.inputs.size(); q++) j += std::string(q ? "," : "") + "[\"" + jesc(v.inputs[q].first) + "\",\"" + v.inputs[q].second + "\"]"; j += "],\"obs\":["; for (size_t q = 0; q < v.obs.size(); q++) j += std::string(q ? "," : "") + "[\"" + jesc(v.obs[q].first) + "\"," + std::to_string(v.obs[q].second) + "]"; j += "],\"sched\":["; for (size_t q = 0; q < v.sched.size(); q++) j += std::string(q ? "," : "") + "\"" + v.sched[q] + "\""; j += "]}"; }
  j += "]\n}\n";
  if (out.empty()) fputs(j.c_str(), stdout); else { FILE* o = fopen(out.c_str(), "w"); if (!o) return 2; fputs(j.c_str(), o); fclose(o); }
  fflush(stdout); _exit(0);
}
