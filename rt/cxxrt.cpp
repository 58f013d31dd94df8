// Bodies of the libstdc++ templates and functions that are normally only in libstdc++.so, for the IR build.
#include <string>
#include <exception>
#include <stdexcept>
#include <vector>
#include <list>
#include <map>
#include <unordered_map>
#include <chrono>
#include <ctime>
#include <cstring>
template class std::basic_string<char>;

namespace std {
// Ordered containers: the tree is not balanced here (order, links and the header are what a container's behaviour depends on).
static _Rb_tree_node_base* rb_next(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* rb_prev(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;   // the header, the only red node
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_next(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_next(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_prev(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_prev(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *nl = h._M_left == z ? rb_next(z) : h._M_left, *nr = h._M_right == z ? rb_prev(z) : h._M_right, *x;
  if (!z->_M_left) x = z->_M_right;
  else if (!z->_M_right) x = z->_M_left;
  else {
    x = z->_M_right; while (x->_M_left) x = x->_M_left;
    if (x->_M_parent != z) {
      x->_M_parent->_M_left = x->_M_right; if (x->_M_right) x->_M_right->_M_parent = x->_M_parent;
      x->_M_right = z->_M_right; z->_M_right->_M_parent = x;
    }
    x->_M_left = z->_M_left; z->_M_left->_M_parent = x;
  }
  if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
  if (x) x->_M_parent = z->_M_parent;
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } else { h._M_left = nl; h._M_right = nr; }
  return z;
}

namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
  _List_node_base* t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  bool a = x._M_next != &x, b = y._M_next != &y; _List_node_base xn = x, yn = y;
  if (b) { x._M_next = yn._M_next; x._M_prev = yn._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; } else x._M_next = x._M_prev = &x;
  if (a) { y._M_next = xn._M_next; y._M_prev = xn._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else y._M_next = y._M_prev = &y;
}

// Hashed containers: a maximum load factor of 1, the default.
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = { 2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13 };
  static const unsigned primes[] = { 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 2777, 5557, 11117, 22229, 44449, 88897, 177797, 355591 };
  if (n < sizeof fast) { if (!n) return 1; _M_next_resize = fast[n]; return fast[n]; }
  unsigned i = 0; while (i + 1 < sizeof primes / sizeof *primes && primes[i] < n) i++;
  _M_next_resize = primes[i]; return primes[i];
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t m = ne + ni > 11 || _M_next_resize ? ne + ni : 11;
    if (m >= nb) return pair<bool, size_t>(true, _M_next_bkt(m + 1 > nb * 2 ? m + 1 : nb * 2));
    _M_next_resize = nb;
  }
  return pair<bool, size_t>(false, 0);
}
}

size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  const char *b = (const char*)ptr, *end = b + (len & ~(size_t)7); size_t h = seed ^ (len * mul), d;
  for (; b != end; b += 8) { memcpy(&d, b, 8); d *= mul; d = (d ^ (d >> 47)) * mul; h ^= d; h *= mul; }
  if (len & 7) { d = 0; for (int i = (int)(len & 7) - 1; i >= 0; i--) d = (d << 8) + (unsigned char)end[i]; h ^= d; h *= mul; }
  h = (h ^ (h >> 47)) * mul; return h ^ (h >> 47);
}

namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration(chrono::seconds(t.tv_sec) + chrono::nanoseconds(t.tv_nsec))); }
system_clock::time_point system_clock::now() noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(duration(chrono::seconds(t.tv_sec) + chrono::nanoseconds(t.tv_nsec))); }
} }
}
