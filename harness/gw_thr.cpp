// The event queue between threads: producers and consumers in every interleaving. what=0 wait, 1 timedwait, 2 bounded, no consumer while they post
#include "sym.h"
#include "MQTTSNGateway.h"
#include <string.h>
#include <time.h>
#define A(c, l) sym_assert((c), l)
using namespace MQTTSNGW;
static EventQue* q; static int what, np, nc, ne; static Event* ev[4][4]; static int got[4][4], gotn, order[4], by[16];
char* currentDateTime(void) { static char t[2]; return t; }
extern "C" int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = 1000; t->tv_nsec = 0; return 0; }
static void take(Event* e, int c) { for (int p = 0; p < np; p++) for (int i = 0; i < ne; i++) if (ev[p][i] == e) { got[p][i]++; gotn++; if (nc == 1) { A(order[p] == i, "events of one task come out of order"); order[p] = i + 1; } return; } A(0, "an event comes out which never went in"); }
static void producer(void* a) { long p = (long)a; for (int i = 0; i < ne; i++) q->post(ev[p][i]); }
static void consumer(void* a) { int n = (int)(long)a; for (int i = 0; i < n; i++) take(q->wait(), 0); }
static void poller(void* a) { int n = (int)(long)a; for (int i = 0; i < n; i++) { Event* e = q->timedwait(1); if (e->getEventType() == EtTimeout) { delete e; sym_reach("timeout"); } else take(e, 0); } }
void sym_main(void) {
  what = sym_param("what", 0); np = sym_param("p", 2); nc = sym_param("c", 1); ne = sym_param("n", 1); q = new EventQue(); int mx = sym_param("max", 0); if (mx) q->setMaxSize(mx); if (what == 2) nc = 0;
  for (int p = 0; p < np; p++) for (int i = 0; i < ne; i++) { ev[p][i] = new Event(); if (what == 1) ev[p][i]->setStop(); }
  int t[8], k = 0; for (int c = 0; c < nc; c++) t[k++] = sym_thread(what == 1 ? poller : consumer, (void*)(long)(np * ne / nc)); for (long p = 0; p < np; p++) t[k++] = sym_thread(producer, (void*)p);
  for (int i = 0; i < k; i++) sym_join(t[i]);
  while (q->size() > 0) take(q->timedwait(1), 0);
  if (what == 2) A(gotn == (mx < np * ne ? mx : np * ne), "the bound of the queue does not hold"); else { A(gotn == np * ne, "an event is lost"); for (int p = 0; p < np; p++) for (int i = 0; i < ne; i++) A(got[p][i] == 1, "an event is lost or comes out twice"); }
  A(q->size() == 0, "the queue is not empty"); sym_observe("taken", gotn); sym_reach("end"); }
