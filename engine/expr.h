// Hash-consed bit-vector expressions (width 1..64), constant folding, evaluation, Z3 lowering.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;

enum Kind : u8 { K_Const, K_Var, K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem, K_And, K_Or, K_Xor,
  K_Shl, K_LShr, K_AShr, K_Concat, K_Extract, K_ZExt, K_SExt, K_Eq, K_Ult, K_Ule, K_Slt, K_Sle, K_Ite };

struct Expr {
  Kind k; u8 w; bool sym; u8 tz;   // tz: known trailing zeros
  u32 id; u64 v;           // v: constant / var id / extract offset
  const Expr *a, *b, *c;
  u64 lo, hi;              // unsigned interval
  mutable std::shared_ptr<std::vector<u32>> vars;
};
typedef const Expr* E;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sextv(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct ExprPool {
  struct H { size_t operator()(E e) const { size_t h = e->k * 0x9E3779B97F4A7C15ull + e->w * 1315423911u;
      h ^= (size_t)e->v * 0xC2B2AE3D27D4EB4Full + (h << 6) + (h >> 2);
      h ^= (size_t)(e->a ? e->a->id + 1 : 0) * 0x165667B19E3779F9ull + (h << 6) + (h >> 2);
      h ^= (size_t)(e->b ? e->b->id + 1 : 0) * 0x27D4EB2F165667C5ull + (h << 6) + (h >> 2);
      h ^= (size_t)(e->c ? e->c->id + 1 : 0) * 0x85EBCA77C2B2AE63ull + (h << 6) + (h >> 2); return h; } };
  struct Q { bool operator()(E x, E y) const { return x->k == y->k && x->w == y->w && x->v == y->v && x->a == y->a && x->b == y->b && x->c == y->c; } };
  std::unordered_set<E, H, Q> tab;
  std::vector<E> all;
  E small[65][258];
  ExprPool() { for (auto& r : small) for (auto& x : r) x = nullptr; }
  E intern(Expr& t) {
    auto it = tab.find(&t);
    if (it != tab.end()) return *it;
    Expr* e = new Expr(t);
    e->id = all.size(); all.push_back(e); tab.insert(e);
    return e;
  }
};
extern ExprPool P;

// ---- interval & trailing zero analysis for fresh node
inline void analyse(Expr& t) {
  u64 m = maskw(t.w); t.lo = 0; t.hi = m; t.tz = 0;
  E a = t.a, b = t.b, c = t.c;
  switch (t.k) {
    case K_Const: t.lo = t.hi = t.v; t.tz = t.v ? __builtin_ctzll(t.v) : t.w; break;
    case K_Add: { u64 h; if (!__builtin_add_overflow(a->hi, b->hi, &h) && h <= m) { t.lo = a->lo + b->lo; t.hi = h; } t.tz = std::min(a->tz, b->tz); break; }
    case K_Sub: if (a->lo >= b->hi) { t.lo = a->lo - b->hi; t.hi = a->hi - b->lo; } t.tz = std::min(a->tz, b->tz); break;
    case K_Mul: { u64 h; if (!__builtin_mul_overflow(a->hi, b->hi, &h) && h <= m) { t.lo = a->lo * b->lo; t.hi = h; } t.tz = std::min<unsigned>(t.w, a->tz + b->tz); break; }
    case K_UDiv: if (b->lo) { t.lo = a->lo / b->hi; t.hi = a->hi / b->lo; } break;
    case K_URem: if (b->lo) { t.hi = std::min(a->hi, b->hi - 1); } break;
    case K_And: t.hi = std::min(a->hi, b->hi); t.tz = std::max(a->tz, b->tz); break;
    case K_Or: { u64 h = a->hi | b->hi; if (h) { h = ~0ull >> __builtin_clzll(h); } t.hi = h & m; t.lo = std::max(a->lo, b->lo); t.tz = std::min(a->tz, b->tz); break; }
    case K_Xor: { u64 h = a->hi | b->hi; if (h) { h = ~0ull >> __builtin_clzll(h); } t.hi = h & m; t.tz = std::min(a->tz, b->tz); break; }
    case K_Shl: if (b->k == K_Const && b->v < t.w) { if (a->hi <= (m >> b->v)) { t.lo = a->lo << b->v; t.hi = a->hi << b->v; } t.tz = std::min<unsigned>(t.w, a->tz + b->v); } break;
    case K_LShr: if (b->k == K_Const && b->v < t.w) { t.lo = a->lo >> b->v; t.hi = a->hi >> b->v; } else t.hi = a->hi; break;
    case K_Concat: t.lo = (a->lo << b->w) | b->lo; t.hi = (a->hi << b->w) | b->hi; t.tz = b->tz == b->w ? b->w + a->tz : b->tz; break;
    case K_Extract: if (t.v == 0) { if (a->hi <= m) { t.lo = a->lo; t.hi = a->hi; } t.tz = std::min<unsigned>(a->tz, t.w); }
      else { if ((a->hi >> t.v) <= m) { t.lo = a->lo >> t.v; t.hi = a->hi >> t.v; } } break;
    case K_ZExt: t.lo = a->lo; t.hi = a->hi; t.tz = a->tz >= a->w ? t.w : a->tz; break;
    case K_SExt: if (a->hi <= maskw(a->w - 1)) { t.lo = a->lo; t.hi = a->hi; } t.tz = a->tz >= a->w ? t.w : a->tz; break;
    case K_Ite: t.lo = std::min(b->lo, c->lo); t.hi = std::max(b->hi, c->hi); t.tz = std::min(b->tz, c->tz); break;
    default: break;
  }
}
inline E mkConst(u64 v, unsigned w) {
  v &= maskw(w);
  if (v < 256 && P.small[w][v]) return P.small[w][v];
  Expr t{}; t.k = K_Const; t.w = w; t.sym = false; t.v = v; t.a = t.b = t.c = nullptr; analyse(t);
  E e = P.intern(t);
  if (v < 256) P.small[w][v] = e;
  return e;
}
inline E mkNode(Kind k, unsigned w, u64 v, E a, E b = nullptr, E c = nullptr) {
  Expr t{}; t.k = k; t.w = w; t.sym = true; t.v = v; t.a = a; t.b = b; t.c = c; analyse(t);
  if (t.lo == t.hi && k != K_Var) return mkConst(t.lo, w);
  return P.intern(t);
}
inline E mkVar(u32 id, unsigned w) { Expr t{}; t.k = K_Var; t.w = w; t.sym = true; t.v = id; t.a = t.b = t.c = nullptr; analyse(t); return P.intern(t); }
inline bool isC(E e) { return e->k == K_Const; }
inline bool isC(E e, u64 v) { return e->k == K_Const && e->v == v; }
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkEq(E a, E b);
E mkConcat(E hi, E lo);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkNot(E a);

inline u64 foldBin(Kind k, u64 x, u64 y, unsigned w, bool& ok) {
  u64 m = maskw(w); ok = true;
  switch (k) {
    case K_Add: return (x + y) & m; case K_Sub: return (x - y) & m; case K_Mul: return (x * y) & m;
    case K_UDiv: if (!y) return m; return x / y;
    case K_URem: if (!y) return x; return x % y;
    case K_SDiv: { i64 a = sextv(x, w), b = sextv(y, w); if (!b) return (a < 0 ? 1 : m) & m; if (b == -1) return (0 - x) & m; return (u64)(a / b) & m; }
    case K_SRem: { i64 a = sextv(x, w), b = sextv(y, w); if (!b) return x; if (b == -1) return 0; return (u64)(a % b) & m; }
    case K_And: return x & y; case K_Or: return x | y; case K_Xor: return x ^ y;
    case K_Shl: return y >= w ? 0 : (x << y) & m; case K_LShr: return y >= w ? 0 : x >> y;
    case K_AShr: return (u64)(sextv(x, w) >> (y >= w ? 63 : y)) & m;
    case K_Eq: return x == y; case K_Ult: return x < y; case K_Ule: return x <= y;
    case K_Slt: return sextv(x, w) < sextv(y, w); case K_Sle: return sextv(x, w) <= sextv(y, w);
    default: ok = false; return 0;
  }
}
inline bool isCmp(Kind k) { return k == K_Eq || k == K_Ult || k == K_Ule || k == K_Slt || k == K_Sle; }

// signed width enough for every value of e
inline unsigned sbits(E e, int depth = 0) {
  unsigned w = e->w; auto mn = [](unsigned a, unsigned b) { return a < b ? a : b; }; auto mx = [](unsigned a, unsigned b) { return a > b ? a : b; };
  if (isC(e)) { i64 v = sextv(e->v, w); unsigned n = 1; while (n < 64 && (v < -(i64)(1ull << (n - 1)) || v >= (i64)(1ull << (n - 1)))) n++; return mn(n, w); }
  if (depth > 6) return w;
  if (w > 1 && e->hi < maskw(w) / 2) { unsigned n = 1; while (n < 64 && e->hi >> n) n++; return mn(n + 1, w); }
  switch (e->k) {
    case K_ZExt: return mn(e->a->w + 1, w); case K_SExt: return mn(sbits(e->a, depth + 1), w);
    case K_Add: case K_Sub: return mn(mx(sbits(e->a, depth + 1), sbits(e->b, depth + 1)) + 1, w);
    case K_Mul: return mn(sbits(e->a, depth + 1) + sbits(e->b, depth + 1), w);
    case K_And: if (isC(e->b) && sextv(e->b->v, w) >= 0) return sbits(e->b); return w;
    case K_Ite: return mx(sbits(e->b, depth + 1), sbits(e->c, depth + 1));
    case K_Concat: if (isC(e->a, 0)) return mn(sbits(mkZExt(e->b, w), depth + 1), w); return w;
    default: return w; } }
E mkBin(Kind k, E a, E b);
// e / d where e is structurally a multiple of d and nothing overflows; null if that cannot be seen
inline E divExact(E e, i64 d, int depth = 0) {
  unsigned w = e->w; if (isC(e)) { i64 v = sextv(e->v, w); return v % d ? nullptr : mkConst((u64)(v / d), w); }
  if (depth > 5) return nullptr;
  switch (e->k) {
    case K_Mul: if (isC(e->b) && sextv(e->b->v, w) % d == 0 && sbits(e->a) + sbits(e->b) <= w) return mkBin(K_Mul, e->a, mkConst((u64)(sextv(e->b->v, w) / d), w)); return nullptr;
    case K_Add: case K_Sub: { if ((sbits(e->a) > sbits(e->b) ? sbits(e->a) : sbits(e->b)) + 1 > w) return nullptr; E x = divExact(e->a, d, depth + 1); if (!x) return nullptr; E y = divExact(e->b, d, depth + 1); return y ? mkBin(e->k, x, y) : nullptr; }
    case K_ZExt: { E x = e->a; if (x->k == K_Mul && isC(x->b) && x->b->v % (u64)d == 0 && x->hi < maskw(x->w)) { E q = x->a; if (q->hi && q->hi <= maskw(x->w) / x->b->v) return mkZExt(mkBin(K_Mul, q, mkConst(x->b->v / (u64)d, x->w)), w); } return nullptr; }
    case K_SExt: { E x = divExact(e->a, d, depth + 1); return x ? mkSExt(x, w) : nullptr; }
    case K_Ite: { E x = divExact(e->b, d, depth + 1), y = x ? divExact(e->c, d, depth + 1) : nullptr; return y ? mkIte(e->a, x, y) : nullptr; }
    default: return nullptr; } }
inline E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "internal: width mismatch op %d: %d %d\n", k, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) { bool ok; u64 r = foldBin(k, a->v, b->v, w, ok); if (ok) return mkConst(r, isCmp(k) ? 1 : w); }
  if (k == K_Eq) return mkEq(a, b);
  if ((k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor) && isC(a)) std::swap(a, b);
  u64 m = maskw(w);
  switch (k) {
    case K_Add:
      if (isC(b, 0)) return a;
      if (isC(b) && a->k == K_Add && isC(a->b)) return mkBin(K_Add, a->a, mkConst(a->b->v + b->v, w));
      if (isC(b) && a->k == K_Ite && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(K_Add, a->b, b), mkBin(K_Add, a->c, b));
      if (a->k == K_Add && isC(a->b) && !isC(b)) return mkBin(K_Add, mkBin(K_Add, a->a, b), a->b);
      if (b->k == K_Add && isC(b->b)) return mkBin(K_Add, mkBin(K_Add, a, b->a), b->b);
      if (b->k == K_Sub && isC(b->a, 0)) return mkBin(K_Sub, a, b->b);
      break;
    case K_Sub:
      if (isC(b, 0)) return a; if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(K_Add, a, mkConst(0 - b->v, w));
      if (a->k == K_Add && a->a == b) return a->b;
      if (a->k == K_Add && a->b == b) return a->a;
      if (a->k == K_Add && isC(a->b) && b->k == K_Add && isC(b->b)) return mkBin(K_Add, mkBin(K_Sub, a->a, b->a), mkConst(a->b->v - b->b->v, w));
      if (a->k == K_Add && isC(a->b) && !isC(b)) return mkBin(K_Add, mkBin(K_Sub, a->a, b), a->b);
      if (b->k == K_Add && isC(b->b) && !isC(a)) return mkBin(K_Add, mkBin(K_Sub, a, b->a), mkConst(0 - b->b->v, w));
      if (b->k == K_Add && b->a == a) return mkBin(K_Sub, mkConst(0, w), b->b);
      if (b->k == K_Add && b->b == a) return mkBin(K_Sub, mkConst(0, w), b->a);
      break;
    case K_Mul: if (isC(b, 0)) return b; if (isC(b, 1)) return a;
      if (isC(b) && (b->v & (b->v - 1)) == 0) return mkBin(K_Shl, a, mkConst(__builtin_ctzll(b->v), w)); break;
    case K_UDiv: if (isC(b, 1)) return a; if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return mkBin(K_LShr, a, mkConst(__builtin_ctzll(b->v), w)); break;
    case K_SDiv: if (isC(b, 1)) return a;
      if (isC(b) && b->w > 16 && sextv(b->v, b->w) > 0) { if (E q = divExact(a, sextv(b->v, b->w))) return q; unsigned n = sbits(a), m = sbits(b); if (m > n) n = m; n++; if (n + 4 < a->w) return mkSExt(mkBin(K_SDiv, mkExtract(a, 0, n), mkExtract(b, 0, n)), a->w); }
      if (w > 1 && a->hi <= maskw(w - 1) && b->hi <= maskw(w - 1)) return mkBin(K_UDiv, a, b); break;
    case K_SRem: if (w > 1 && a->hi <= maskw(w - 1) && b->hi <= maskw(w - 1)) return mkBin(K_URem, a, b); break;
    case K_URem: if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return mkBin(K_And, a, mkConst(b->v - 1, w)); break;
    case K_And:
      if (isC(b, 0)) return b; if (isC(b, m)) return a; if (a == b) return a;
      if (isC(b) && a->k == K_And && isC(a->b)) return mkBin(K_And, a->a, mkConst(a->b->v & b->v, w));
      if (isC(b) && (b->v & (b->v + 1)) == 0) { unsigned n = __builtin_popcountll(b->v); if (a->hi <= b->v) return a; return mkZExt(mkExtract(a, 0, n), w); }
      if (isC(b) && a->k == K_ZExt && w > a->a->w) { return mkZExt(mkBin(K_And, a->a, mkConst(b->v, a->a->w)), w); }
      if (isC(b) && a->k == K_Concat) { return mkConcat(mkBin(K_And, a->a, mkConst(b->v >> a->b->w, a->a->w)), mkBin(K_And, a->b, mkConst(b->v, a->b->w))); }
      if (w == 1) { if (mkNot(a) == b) return mkFalse(); }
      break;
    case K_Or:
      if (isC(b, 0)) return a; if (isC(b, m)) return b; if (a == b) return a;
      if (w == 1) { if (mkNot(a) == b) return mkTrue(); }
      // (zext hi << n) | zext lo  -> concat
      { E x = a, y = b; for (int t = 0; t < 2; t++, std::swap(x, y)) {
          // x low part fits below y's trailing zeros
          if (!isC(x) && !isC(y) && y->tz > 0 && y->tz < w && x->hi <= maskw(y->tz)) {
            unsigned n = y->tz; return mkConcat(mkExtract(y, n, w - n), mkExtract(x, 0, n)); } } }
      break;
    case K_Xor: if (isC(b, 0)) return a; if (a == b) return mkConst(0, w);
      if (isC(b) && a->k == K_Xor && isC(a->b)) return mkBin(K_Xor, a->a, mkConst(a->b->v ^ b->v, w));
      if (w == 1 && isC(b, 1)) { // not
        if (a->k == K_Ult) return mkBin(K_Ule, a->b, a->a); if (a->k == K_Ule) return mkBin(K_Ult, a->b, a->a);
        if (a->k == K_Slt) return mkBin(K_Sle, a->b, a->a); if (a->k == K_Sle) return mkBin(K_Slt, a->b, a->a);
        if (a->k == K_Ite) return mkIte(a->a, mkNot(a->b), mkNot(a->c)); }
      break;
    case K_Shl: if (isC(b, 0)) return a; if (isC(b) && b->v >= w) return mkConst(0, w);
      if (isC(b)) return mkConcat(mkExtract(a, 0, w - b->v), mkConst(0, b->v)); break;
    case K_LShr: if (isC(b, 0)) return a; if (isC(b) && b->v >= w) return mkConst(0, w);
      if (isC(b)) return mkZExt(mkExtract(a, b->v, w - b->v), w); break;
    case K_AShr: if (isC(b, 0)) return a;
      if (a->hi <= maskw(w - 1) && w > 1) return mkBin(K_LShr, a, b);
      if (isC(b)) { u64 s = b->v >= w ? w - 1 : b->v; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case K_Ult:
      if (a == b) return mkFalse(); if (a->hi < b->lo) return mkTrue(); if (a->lo >= b->hi) return mkFalse();
      if (isC(b, 1)) return mkEq(a, mkConst(0, w));
      if (isC(b) && a->k == K_ZExt) return b->v > maskw(a->a->w) ? mkTrue() : mkBin(K_Ult, a->a, mkConst(b->v, a->a->w));
      if (isC(a) && b->k == K_ZExt) return a->v >= maskw(b->a->w) ? mkFalse() : mkBin(K_Ult, mkConst(a->v, b->a->w), b->a);
      if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkBin(K_Ult, a->a, b->a);
      break;
    case K_Ule:
      if (a == b) return mkTrue(); if (a->hi <= b->lo) return mkTrue(); if (a->lo > b->hi) return mkFalse();
      if (isC(b)) { if (b->v == m) return mkTrue(); return mkBin(K_Ult, a, mkConst(b->v + 1, w)); }
      if (isC(a)) { if (a->v == 0) return mkTrue(); return mkBin(K_Ult, mkConst(a->v - 1, w), b); }
      break;
    case K_Slt: case K_Sle:
      if (a == b) return mkConst(k == K_Sle, 1);
      if (w > 1) { u64 sm = maskw(w - 1); if (a->hi <= sm && b->hi <= sm) return mkBin(k == K_Slt ? K_Ult : K_Ule, a, b);
        if (a->lo > sm && b->hi <= sm) return mkTrue(); if (a->hi <= sm && b->lo > sm) return mkFalse(); 
        if (a->lo > sm && b->lo > sm) return mkBin(k == K_Slt ? K_Ult : K_Ule, a, b); }
      if (a->k == K_SExt && isC(b)) { i64 bv = sextv(b->v, w); unsigned aw = a->a->w; i64 mx = (i64)maskw(aw - 1), mn = -mx - 1;
        if (bv > mx) return mkTrue(); if (bv < mn) return mkFalse(); return mkBin(k, a->a, mkConst((u64)bv, aw)); }
      if (b->k == K_SExt && isC(a)) { i64 av = sextv(a->v, w); unsigned bw = b->a->w; i64 mx = (i64)maskw(bw - 1), mn = -mx - 1;
        if (av > mx) return mkFalse(); if (av < mn) return mkTrue(); return mkBin(k, mkConst((u64)av, bw), b->a); }
      break;
    default: break;
  }
  return mkNode(k, isCmp(k) ? 1 : w, 0, a, b);
}
inline E mkNot(E a) { return mkBin(K_Xor, a, mkConst(1, 1)); }
inline E mkAnd(E a, E b) { return mkBin(K_And, a, b); }
inline E mkOr(E a, E b) { return mkBin(K_Or, a, b); }
inline E mkEq(E a, E b) {
  if (a == b) return mkTrue();
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkConst(a->v == b->v, 1);
  if (a->hi < b->lo || b->hi < a->lo) return mkFalse();
  if (isC(b)) {
    if (a->w == 1) return b->v ? a : mkNot(a);
    if (a->k == K_ZExt) { if (b->v > maskw(a->a->w)) return mkFalse(); return mkEq(a->a, mkConst(b->v, a->a->w)); }
    if (a->k == K_SExt) { E x = mkConst(b->v, a->a->w); if ((u64)(sextv(x->v, x->w) & (i64)maskw(a->w)) != b->v) return mkFalse(); return mkEq(a->a, x); }
    if (a->k == K_Concat) return mkAnd(mkEq(a->a, mkConst(b->v >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->v, a->b->w)));
    if (a->k == K_Add && isC(a->b)) return mkEq(a->a, mkConst(b->v - a->b->v, a->w));
    if (a->k == K_Sub && isC(a->a)) return mkEq(a->b, mkConst(a->a->v - b->v, a->w));
    if (a->k == K_Xor && isC(a->b)) return mkEq(a->a, mkConst(b->v ^ a->b->v, a->w));
    if (a->k == K_Ite) {
      if (isC(a->b) && isC(a->c)) { bool x = a->b->v == b->v, y = a->c->v == b->v; if (x && y) return mkTrue(); if (x) return a->a; if (y) return mkNot(a->a); return mkFalse(); }
      if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
    }
  }
  if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
  if (a->k == K_Concat && b->k == K_Concat && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
  if (!isC(a) && !isC(b) && a->id > b->id) std::swap(a, b);
  return mkNode(K_Eq, 1, 0, a, b);
}
inline E mkIte(E c, E a, E b) {
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a)) return a->v ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->v ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->k == K_Ite && a->a == c) a = a->b;
  if (b->k == K_Ite && b->a == c) b = b->c;
  if (a == b) return a;
  if (c->k == K_Xor && c->w == 1 && isC(c->b, 1)) return mkIte(c->a, b, a);
  if (b->k == K_Ite && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  return mkNode(K_Ite, a->w, 0, c, a, b);
}
inline E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->v >> off, w);
  if (a->k == K_Extract) return mkExtract(a->a, off + a->v, w);
  if (a->k == K_Concat) {
    unsigned lw = a->b->w;
    if (off >= lw) return mkExtract(a->a, off - lw, w);
    if (off + w <= lw) return mkExtract(a->b, off, w);
    return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
  }
  if (a->k == K_ZExt) {
    unsigned iw = a->a->w;
    if (off >= iw) return mkConst(0, w);
    if (off + w <= iw) return mkExtract(a->a, off, w);
    return mkZExt(mkExtract(a->a, off, iw - off), w);
  }
  if (a->k == K_SExt && off + w <= a->a->w) return mkExtract(a->a, off, w);
  if (a->k == K_SExt && off == 0) return mkNode(K_SExt, w, 0, a->a);
  if (a->k == K_Ite && (isC(a->b) || isC(a->c) || a->b->k == K_Concat || a->b->k == K_ZExt || a->c->k == K_ZExt || a->c->k == K_Concat)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
  if (a->k == K_And || a->k == K_Or || a->k == K_Xor) { if (isC(a->b)) return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w)); }
  if (off == 0 && a->hi > maskw(w) && (a->k == K_Add || a->k == K_Sub || a->k == K_Mul)) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  return mkNode(K_Extract, w, off, a);
}
inline E mkConcat(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, hi->w + lo->w);
  if (isC(hi, 0)) return mkZExt(lo, hi->w + lo->w);
  if (hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a && hi->v == lo->v + lo->w) return mkExtract(hi->a, lo->v, hi->w + lo->w);
  if (hi->k == K_Extract && hi->v == lo->w && (lo->k == K_Add || lo->k == K_Sub || lo->k == K_Mul) && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, hi->w + lo->w);   // an add, sub or mul stored byte by byte
  if (hi->k == K_Extract && hi->a == lo && hi->v == lo->w) return mkExtract(lo, 0, hi->w + lo->w);
  if (lo->k == K_Concat && hi->k == K_Extract && lo->a->k == K_Extract && hi->a == lo->a->a && hi->v == lo->a->v + lo->a->w) return mkConcat(mkExtract(hi->a, lo->a->v, hi->w + lo->a->w), lo->b);
  if (hi->k == K_ZExt) return mkZExt(mkConcat(hi->a, lo), hi->w + lo->w);
  // normalise to right-assoc: (h1.h2).lo -> h1.(h2.lo)
  if (hi->k == K_Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (isC(hi) && lo->k == K_Concat && isC(lo->a)) return mkConcat(mkConcat(hi, lo->a), lo->b);
  // ite lifting: both ite on the same condition
  if (hi->k == K_Ite && lo->k == K_Ite && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return mkNode(K_Concat, hi->w + lo->w, 0, hi, lo);
}
inline E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->v, w);
  if (a->k == K_ZExt) return mkZExt(a->a, w);
  if (a->k == K_Extract && a->v == 0 && a->a->hi <= maskw(a->w)) return a->a->w <= w ? mkZExt(a->a, w) : mkExtract(a->a, 0, w);
  if (a->k == K_Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->v, w), mkConst(a->c->v, w));
  return mkNode(K_ZExt, w, 0, a);
}
inline E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u64)sextv(a->v, a->w), w);
  if (a->w > 1 && a->hi <= maskw(a->w - 1)) return mkZExt(a, w);
  if (a->k == K_SExt) return mkSExt(a->a, w);
  if (a->k == K_Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return mkNode(K_SExt, w, 0, a);
}

// ---- variable sets
inline const std::vector<u32>& varsOf(E e) {
  if (e->vars) return *e->vars;
  static auto empty = std::make_shared<std::vector<u32>>();
  // iterative post-order to avoid deep recursion
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->vars) { st.pop_back(); continue; }
    if (!x->sym) { x->vars = empty; st.pop_back(); continue; }
    if (x->k == K_Var) { x->vars = std::make_shared<std::vector<u32>>(1, (u32)x->v); st.pop_back(); continue; }
    bool ready = true;
    for (E ch : {x->a, x->b, x->c}) if (ch && !ch->vars) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    std::shared_ptr<std::vector<u32>> r = x->a->vars;
    for (E ch : {x->b, x->c}) if (ch && ch->vars->size() && ch->vars != r) {
      if (r->empty()) { r = ch->vars; continue; }
      if (std::includes(r->begin(), r->end(), ch->vars->begin(), ch->vars->end())) continue;
      if (std::includes(ch->vars->begin(), ch->vars->end(), r->begin(), r->end())) { r = ch->vars; continue; }
      auto n = std::make_shared<std::vector<u32>>();
      std::set_union(r->begin(), r->end(), ch->vars->begin(), ch->vars->end(), std::back_inserter(*n));
      r = n;
    }
    x->vars = r; st.pop_back();
  }
  return *e->vars;
}

// ---- evaluation
typedef std::unordered_map<u32, u64> Assign;
struct Evaluator {
  std::vector<u64> val; std::vector<u32> ep; u32 epoch = 0;
  void begin() { epoch++; if (ep.size() < P.all.size()) { size_t n = P.all.size() * 2 + 1024; ep.resize(n, 0); val.resize(n, 0); } }
  u64 run(E e, const Assign& m) {
    if (!e->sym) return e->v;
    begin();
    std::vector<E> st{e};
    while (!st.empty()) {
      E x = st.back();
      if (ep[x->id] == epoch) { st.pop_back(); continue; }
      if (x->k == K_Const) { set(x, x->v); st.pop_back(); continue; }
      if (x->k == K_Var) { auto it = m.find((u32)x->v); set(x, it == m.end() ? 0 : it->second & maskw(x->w)); st.pop_back(); continue; }
      if (x->k == K_Ite) {
        if (ep[x->a->id] != epoch) { st.push_back(x->a); continue; }
        E t = val[x->a->id] ? x->b : x->c;
        if (ep[t->id] != epoch) { st.push_back(t); continue; }
        set(x, val[t->id]); st.pop_back(); continue;
      }
      bool ready = true;
      if (ep[x->a->id] != epoch) { st.push_back(x->a); ready = false; }
      if (x->b && ep[x->b->id] != epoch) { st.push_back(x->b); ready = false; }
      if (!ready) continue;
      u64 a = val[x->a->id], b = x->b ? val[x->b->id] : 0, r;
      switch (x->k) {
        case K_Concat: r = (a << x->b->w) | b; break;
        case K_Extract: r = (a >> x->v) & maskw(x->w); break;
        case K_ZExt: r = a; break;
        case K_SExt: r = (u64)sextv(a, x->a->w) & maskw(x->w); break;
        default: { bool ok; r = foldBin(x->k, a, b, x->a->w, ok); }
      }
      set(x, r); st.pop_back();
    }
    return val[e->id];
  }
  void set(E x, u64 v) { ep[x->id] = epoch; val[x->id] = v; }
};
extern Evaluator EV;
