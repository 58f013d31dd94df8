// Z3 backend with independence slicing, model reuse and a query cache.
#pragma once
#include "expr.h"
#include <z3++.h>
#include <chrono>
#include <map>
#include <fstream>

struct QResult { bool sat; Assign model; };
struct SolverStats { u64 queries = 0, solver_calls = 0, sat = 0, unsat = 0, cache_hits = 0, unknown = 0; double time = 0; };

struct Solver {
  z3::context ctx;
  std::vector<Z3_ast> low;           // lowered, by expr id
  SolverStats st;
  std::map<std::vector<u32>, QResult> cache;
  unsigned timeout_ms = 120000;
  bool gaveup = false;
  std::string dumpdir; u64 dumpn = 0, dumpmax = 0;
  Solver() {}

  z3::expr lower(E e) {
    if (low.size() < P.all.size()) low.resize(P.all.size() * 2 + 1024, nullptr);
    if (low[e->id]) return z3::expr(ctx, low[e->id]);
    std::vector<E> stk{e};
    while (!stk.empty()) {
      E x = stk.back();
      if (low[x->id]) { stk.pop_back(); continue; }
      bool ready = true;
      for (E ch : {x->a, x->b, x->c}) if (ch && !low[ch->id]) { stk.push_back(ch); ready = false; }
      if (!ready) continue;
      z3::expr r(ctx);
      auto g = [&](E y) { return z3::expr(ctx, low[y->id]); };
      auto b2bv = [&](z3::expr b) { return z3::ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); };
      switch (x->k) {
        case K_Const: r = ctx.bv_val((uint64_t)x->v, x->w); break;
        case K_Var: r = ctx.bv_const(("v" + std::to_string(x->v)).c_str(), x->w); break;
        case K_Add: r = g(x->a) + g(x->b); break;
        case K_Sub: r = g(x->a) - g(x->b); break;
        case K_Mul: r = g(x->a) * g(x->b); break;
        case K_UDiv: r = z3::udiv(g(x->a), g(x->b)); break;
        case K_SDiv: r = g(x->a) / g(x->b); break;
        case K_URem: r = z3::urem(g(x->a), g(x->b)); break;
        case K_SRem: r = z3::srem(g(x->a), g(x->b)); break;
        case K_And: r = g(x->a) & g(x->b); break;
        case K_Or: r = g(x->a) | g(x->b); break;
        case K_Xor: r = g(x->a) ^ g(x->b); break;
        case K_Shl: r = z3::shl(g(x->a), g(x->b)); break;
        case K_LShr: r = z3::lshr(g(x->a), g(x->b)); break;
        case K_AShr: r = z3::ashr(g(x->a), g(x->b)); break;
        case K_Concat: r = z3::concat(g(x->a), g(x->b)); break;
        case K_Extract: r = g(x->a).extract(x->v + x->w - 1, x->v); break;
        case K_ZExt: r = z3::zext(g(x->a), x->w - x->a->w); break;
        case K_SExt: r = z3::sext(g(x->a), x->w - x->a->w); break;
        case K_Eq: r = b2bv(g(x->a) == g(x->b)); break;
        case K_Ult: r = b2bv(z3::ult(g(x->a), g(x->b))); break;
        case K_Ule: r = b2bv(z3::ule(g(x->a), g(x->b))); break;
        case K_Slt: r = b2bv(z3::slt(g(x->a), g(x->b))); break;
        case K_Sle: r = b2bv(z3::sle(g(x->a), g(x->b))); break;
        case K_Ite: r = z3::ite(g(x->a) == ctx.bv_val(1, 1), g(x->b), g(x->c)); break;
      }
      Z3_inc_ref(ctx, r);
      low[x->id] = r; stk.pop_back();
    }
    return z3::expr(ctx, low[e->id]);
  }

  // is  slice(pc, cond) && cond  satisfiable?  on sat, fills model values for the variables of the slice
  bool check(const std::vector<E>& pc, E cond, Assign& model, bool obligation = false) {
    st.queries++;
    if (isC(cond)) return cond->v;
    std::vector<u32> need = varsOf(cond);
    std::vector<char> used(pc.size(), 0);
    std::vector<E> sl;
    bool ch = true;
    auto inter = [](const std::vector<u32>& a, const std::vector<u32>& b) {
      size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return true; if (a[i] < b[j]) i++; else j++; } return false; };
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
        auto& v = varsOf(pc[i]);
        if (inter(v, need)) { used[i] = 1; sl.push_back(pc[i]); ch = true;
          if (!std::includes(need.begin(), need.end(), v.begin(), v.end())) {
            std::vector<u32> n; std::set_union(need.begin(), need.end(), v.begin(), v.end(), std::back_inserter(n)); need.swap(n); } }
      }
    }
    std::vector<u32> key; for (E x : sl) key.push_back(x->id); key.push_back(cond->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) { st.cache_hits++; if (it->second.sat) for (auto& kv : it->second.model) model[kv.first] = kv.second; return it->second.sat; }
    auto t0 = std::chrono::steady_clock::now();
    z3::solver s(ctx, "QF_BV");
    z3::params p(ctx); p.set("timeout", timeout_ms); s.set(p);
    z3::expr one = ctx.bv_val(1, 1);
    for (E x : sl) s.add(lower(x) == one);
    s.add(lower(cond) == one);
    if (obligation && !dumpdir.empty() && dumpn < dumpmax) {
      std::ofstream f(dumpdir + "/q" + std::to_string(dumpn++) + ".smt2"); f << "(set-logic QF_BV)\n" << s.to_smt2();
    }
    auto r = s.check();
    st.solver_calls++;
    QResult q; q.sat = r == z3::sat;
    if (r == z3::unknown) { st.unknown++; gaveup = true; q.sat = false; }
    if (q.sat) {
      st.sat++;
      z3::model m = s.get_model();
      for (u32 v : need) q.model[v] = 0;
      for (unsigned i = 0; i < m.num_consts(); i++) {
        z3::func_decl d = m.get_const_decl(i);
        std::string n = d.name().str();
        if (n.size() > 1 && n[0] == 'v') { uint64_t val; if (m.get_const_interp(d).is_numeral_u64(val)) q.model[(u32)strtoul(n.c_str() + 1, 0, 10)] = val; }
      }
      for (auto& kv : q.model) model[kv.first] = kv.second;
    } else st.unsat++;
    st.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    bool res = q.sat;
    cache.emplace(std::move(key), std::move(q));
    return res;
  }
};
