/* Native side of sym_thread: real threads of which one at a time runs, as the recorded schedule says. The code under test calls these in place of
   the pthread and semaphore functions (check.py renames its references); the turn is passed without any synchronisation ThreadSanitizer knows of. */
#include "sym.h"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#define MAXT 16
static int sch[100000], sn = -1, si; static int nthr = 1, turn; static __thread int me; static int done[MAXT], waits[MAXT]; static pthread_t pt[MAXT];
static struct { void* p; long v; } tab[4096]; static int nt;
__attribute__((no_sanitize("thread"))) static long* at(void* p) { for (int i = 0; i < nt; i++) if (tab[i].p == p) return &tab[i].v; if (nt == 4096) abort(); tab[nt].p = p; tab[nt].v = 0; return &tab[nt++].v; }
__attribute__((no_sanitize("thread"))) static int next(void) { if (sn < 0) { sn = 0; const char* e = getenv("SYM_SCHED"); while (e && *e) { sch[sn++] = strtol(e, (char**)&e, 10); if (*e == ',') e++; } } return si < sn ? sch[si++] : -1; }
__attribute__((no_sanitize("thread"))) static void pass(int t) { __atomic_store_n(&turn, t, __ATOMIC_RELAXED); }
__attribute__((no_sanitize("thread"))) static void to(int t) { pass(t); while (__atomic_load_n(&turn, __ATOMIC_RELAXED) != me) sched_yield(); }
__attribute__((no_sanitize("thread"))) static void sp(void) { if (nthr < 2 || waits[me]) return; for (;;) { int t = next(); if (t < 0 || t == me) return; to(t); } }
__attribute__((no_sanitize("thread"))) static int other(void) { int t = next(); if (t < 0) { for (t = (me + 1) % nthr; t != me && done[t]; t = (t + 1) % nthr) {} } return t; }
__attribute__((no_sanitize("thread"))) static void block(void) { to(other()); }
__attribute__((no_sanitize("thread"))) int symt_lock(pthread_mutex_t* m) { long* h = at(m); if (nthr > 1) for (;;) { sp(); waits[me] = 0; if (!*h) break; waits[me] = 1; block(); } *h = me + 1; return pthread_mutex_lock(m); }
__attribute__((no_sanitize("thread"))) int symt_unlock(pthread_mutex_t* m) { if (*at(m) != me + 1) { sym_assert_(0, "unlock-of-mutex-not-held"); return 1; } *at(m) = 0; return pthread_mutex_unlock(m); }
__attribute__((no_sanitize("thread"))) int symt_sinit(sem_t* s, int sh, unsigned v) { *at(s) = v; return sem_init(s, sh, v); }
__attribute__((no_sanitize("thread"))) int symt_spost(sem_t* s) { sp(); ++*at(s); return sem_post(s); }
__attribute__((no_sanitize("thread"))) int symt_swait(sem_t* s) { long* c = at(s); if (nthr > 1) for (;;) { sp(); waits[me] = 0; if (*c > 0) break; waits[me] = 2; block(); } --*c; return sem_wait(s); }
__attribute__((no_sanitize("thread"))) int symt_stimedwait(sem_t* s, const void* ts) { long* c = at(s); (void)ts; sp(); if (*c > 0) { --*c; return sem_wait(s); } errno = ETIMEDOUT; return -1; }
struct go { void (*fn)(void*); void* arg; int id; };
__attribute__((no_sanitize("thread"))) static void* body(void* a) { struct go g = *(struct go*)a; me = g.id; while (__atomic_load_n(&turn, __ATOMIC_RELAXED) != me) sched_yield(); g.fn(g.arg); done[me] = 1; pass(other()); return 0; }
__attribute__((no_sanitize("thread"))) int sym_thread(void (*fn)(void*), void* arg) { int id = nthr++; struct go* g = (struct go*)malloc(sizeof *g); g->fn = fn; g->arg = arg; g->id = id; pthread_create(&pt[id], 0, body, g); return id; }
__attribute__((no_sanitize("thread"))) void sym_join(int id) { for (;;) { waits[me] = 0; if (done[id]) break; waits[me] = 3; block(); } pthread_join(pt[id], 0); }
__attribute__((no_sanitize("thread"))) void sym_yield(void) { sp(); }
