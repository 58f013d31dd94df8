/* Native side of the harness API: replays one input assignment against the real code. */
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* the test file, read without stdio, which a harness may replace */
#include <fcntl.h>
#include <unistd.h>
static int tf = -1; static char tb[4096]; static int tl, tp;
static int next_line(char* b, int n) { int i = 0; while (i < n - 1) { if (tp == tl) { tl = (int) read(tf, tb, sizeof tb); tp = 0; if (tl <= 0) { tl = 0; break; } } b[i++] = tb[tp]; if (tb[tp++] == '\n') break; } b[i] = 0; return i; }
 static char params[64][2][64]; static int np; static int started;
static void init(void) {
  if (started) return; started = 1;
  const char* f = getenv("SYM_TEST"); if (f) tf = open(f, O_RDONLY);
  const char* p = getenv("SYM_PARAMS"); /* a=1,b=2 */
  if (p) { char* d = strdup(p); for (char* t = strtok(d, ","); t; t = strtok(0, ",")) { char* e = strchr(t, '='); if (e && np < 64) { *e = 0; snprintf(params[np][0], 64, "%s", t); snprintf(params[np++][1], 64, "%s", e + 1); } } free(d); }
}
static int hx(int c) { return c >= '0' && c <= '9' ? c - '0' : c - 'a' + 10; }
static void out(const char* k, const char* l, uint64_t v) { char b[512]; int n = snprintf(b, sizeof b, "@%s %s %llu\n", k, l, (unsigned long long)v); if (write(3, b, n) < 0) { if (write(1, b, n) < 0) {} } }
void sym_bytes(void* p, size_t n, const char* name) {
  init(); static char line[1 << 20]; memset(p, 0, n);
  if (tf < 0 || !next_line(line, sizeof line)) return;   /* inputs past the recorded ones: zero */
  char* sp = strchr(line, ' '); if (!sp) return; *sp = 0;
  char nm[256]; snprintf(nm, sizeof nm, "%s", name); for (char* c = nm; *c; c++) if (*c == ' ') *c = '_';
  if (strcmp(line, nm)) { out("DESYNC", name, 0); _exit(78); }
  unsigned char* d = (unsigned char*)p; sp++;
  for (size_t i = 0; i < n && sp[2 * i] && sp[2 * i] != '\n'; i++) d[i] = hx(sp[2 * i]) << 4 | hx(sp[2 * i + 1]);
}
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_assume(int c) { if (!c) { out("ASSUME", "false", 0); _exit(77); } }
void sym_assert_(int c, const char* label) { if (!c) { out("FAIL", label, 0); } }
void sym_observe(const char* label, uint64_t v) { out("OBS", label, v); }
void sym_reach(const char* label) { out("REACH", label, 0); }
void sym_exit(void) { out("END", "end", 0); _exit(0); }
int sym_param(const char* name, int d) { init(); for (int i = 0; i < np; i++) if (!strcmp(params[i][0], name)) return (int)strtol(params[i][1], 0, 0); return d; }
void sym_known(const char* id, int c) { (void)id; (void)c; }
size_t __sanitizer_get_current_allocated_bytes(void);
/* unlocking a mutex nobody has locked is an error of the code */
#include <pthread.h>
#if !__has_feature(thread_sanitizer)      /* with threads: native_thr.c */
__asm__(".symver sym_real_unlock, __pthread_mutex_unlock@GLIBC_2.2.5"); int sym_real_unlock(pthread_mutex_t* m);
__attribute__((weak, no_sanitize("address"))) int pthread_mutex_unlock(pthread_mutex_t* m) { if (!__atomic_load_n(&m->__data.__lock, __ATOMIC_RELAXED)) { out("FAIL", "unlock-of-mutex-not-held", 0); return 1; } return sym_real_unlock(m); }
#endif
#ifndef SYM_NO_HEAP
uint64_t sym_live_heap(void) { return __sanitizer_get_current_allocated_bytes(); }
#endif
int main(void) { init(); sym_main(); out("END", "end", 0); fflush(0); _exit(0); }
