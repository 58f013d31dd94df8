/* Harness API. Under symx these are engine builtins; natively (replay) they are in native.c. */
#ifndef SYM_H
#define SYM_H
#include <stdint.h>
#include <stdlib.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void sym_bytes(void* p, size_t n, const char* name);
uint64_t sym_concretize(uint64_t v);
void sym_assume(int c);
void sym_assert_(int c, const char* label);
void sym_observe(const char* label, uint64_t v);
void sym_reach(const char* label);
void sym_exit(void);
int sym_param(const char* name, int dflt);
void sym_known(const char* id, int cond);
uint64_t sym_live_heap(void);
int sym_thread(void (*fn)(void*), void* arg);
void sym_join(int id);
void sym_yield(void);
void sym_main(void);
static inline uint8_t sym_u8(const char* n) { uint8_t v; sym_bytes(&v, 1, n); return v; }
static inline uint16_t sym_u16(const char* n) { uint16_t v; sym_bytes(&v, 2, n); return v; }
static inline uint32_t sym_u32(const char* n) { uint32_t v; sym_bytes(&v, 4, n); return v; }
static inline int sym_int(const char* n) { int v; sym_bytes(&v, 4, n); return v; }
static inline int sym_bool(const char* n) { uint8_t v; sym_bytes(&v, 1, n); sym_assume(v <= 1); return v; }
/* symbolic value in [lo,hi] */
static inline uint32_t sym_range(uint32_t lo, uint32_t hi, const char* n) {
  uint32_t v;
  if (hi < 256) v = sym_u8(n); else if (hi < 65536) v = sym_u16(n); else v = sym_u32(n);
  sym_assume(v >= lo); sym_assume(v <= hi); return v; }
/* case split: one path per value in [lo,hi] */
static inline uint32_t sym_pick(uint32_t lo, uint32_t hi, const char* n) { return (uint32_t) sym_concretize(sym_range(lo, hi, n)); }
static inline uint8_t* sym_bytes_new(size_t n, const char* name) { uint8_t* p = (uint8_t*) malloc(n ? n : 1); sym_bytes(p, n, name); return p; }
#define sym_assert(c, label) sym_assert_(!!(c), label)
#ifdef __cplusplus
}
#endif
#endif
