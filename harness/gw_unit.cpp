// Containers of the gateway against models: what=0 message id table, 1 ids run out, 2 Que, 3 PacketQue, 4 EventQue, 5 messages waiting for REGACK, 6 id generators, 7 timer
#include "sym.h"
#include "MQTTSNGateway.h"
#include "MQTTSNGWClient.h"
#include "MQTTSNGWAggregater.h"
#include "MQTTSNGWForwarder.h"
#include "MQTTSNGWEncapsulatedPacket.h"
#include <string.h>
#include <time.h>
#include <sys/time.h>
#define A(c, l) sym_assert((c), l)
using namespace MQTTSNGW;
static int what; static uint16_t lastid, idno; static int gen; static int fid(uint16_t id);
char* currentDateTime(void) { static char t[2]; return t; }
namespace MQTTSNGW {
/* the generator of ids may yield anything that is an id */
uint16_t Aggregater::msgId(void) { if (what == 1) { if (++idno == 0xffff) idno = 1; return idno; } if (sym_param("deep", 0)) return ++idno; lastid = sym_u16("generated"); sym_assume(lastid != 0); if (gen++) sym_assume(fid(lastid) < 0); return lastid; }
}
static long now_s, now_us;
extern "C" int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = now_s; tv->tv_usec = now_us; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = now_s; t->tv_nsec = now_us * 1000; return 0; }
namespace MQTTSNGW {
}
struct Ent { int cl; uint16_t cid, id; }; static Ent e[600]; static int ne;
static int fid(uint16_t id) { for (int i = 0; i < ne; i++) if (e[i].id == id) return i; return -1; }
static int fcl(int cl, uint16_t cid) { for (int i = 0; i < ne; i++) if (e[i].cl == cl && e[i].cid == cid) return i; return -1; }
static void drop(int i) { for (ne--; i < ne; i++) e[i] = e[i + 1]; }
static Client* cl[2];
template<class T> static auto forget_id(T* a, uint16_t id, int) -> decltype(a->_msgIdTable.erase(id), void()) { a->_msgIdTable.erase(id); }
template<class T> static void forget_id(T* a, uint16_t id, long) { uint16_t c; a->convertClient(id, &c); }
static void table(void) {
  Aggregater* a = new Aggregater(0); int k = sym_param("k", 4), deep = sym_param("deep", 0); cl[0] = new Client(); cl[1] = new Client();
  for (int s = 0; s < k; s++) {
    int op = sym_pick(0, 4, "op"); if (deep && (op == 2 || op == 4)) sym_exit(); uint16_t cid = 0xbeef;
    if (op == 0) { int c = sym_pick(0, 1, "client"); uint16_t m = deep ? sym_pick(1, deep, "one of") : sym_u16("message id"); int had = fcl(c, m); gen = 0; uint16_t id = a->addMessageIdTable(cl[c], m);
      if (had >= 0) { A(id == e[had].id, "the id of a message in flight changes"); sym_reach("again"); } else { A(id != 0, "a message gets no id"); A(fid(id) < 0, "two messages in flight have the same id"); e[ne].cl = c; e[ne].cid = m; e[ne++].id = id; sym_reach("new"); } }
    else if (op == 4) { int c = sym_pick(0, 1, "client"); uint16_t m = sym_u16("message id"); int had = fcl(c, m); uint16_t id = a->getMsgId(cl[c], m); A(id == (had >= 0 ? e[had].id : 0), "the wrong id is found for a message"); }
    else { uint16_t id = deep ? (ne ? e[sym_pick(0, ne - 1, "which of")].id : 99) : sym_u16("id"); int had = fid(id); Client* r = 0;
      if (op == 3) { forget_id(a, id, 0); } else { r = op == 1 ? a->convertClient(id, &cid) : a->findClient(id, &cid);
        if (had < 0) A(r == 0 && cid == 0, "a message is found for an id which is not in use"); else A(r == cl[e[had].cl] && cid == e[had].cid, "an answer goes to the wrong client or message"); }
      if (had >= 0) { sym_reach(op == 2 ? "looked up" : "answered"); if (op != 2) drop(had); } else sym_reach("stray"); } }
  for (int i = 0; i < ne; i++) { uint16_t cid = 0; Client* r = a->findClient(e[i].id, &cid); A(r == cl[e[i].cl] && cid == e[i].cid, "a message in flight is lost"); }
  uint64_t x = sym_live_heap(); delete a; A(sym_live_heap() < x, "the table is not freed"); sym_reach("end"); }
static void full(void) {
  Aggregater* a = new Aggregater(0); int max = MAX_MESSAGEID_TABLE_SIZE; cl[0] = new Client(); cl[1] = new Client(); idno = sym_pick(0, 1, "ids") ? 0xffff - 100 : 0;
  for (int i = 0; i < max; i++) { uint16_t id = a->addMessageIdTable(cl[i & 1], i / 2 + 1); A(id != 0, "there is no room for a message"); e[ne].cl = i & 1; e[ne].cid = i / 2 + 1; e[ne++].id = id; }
  A(a->addMessageIdTable(cl[0], 9999) == 0, "there is no limit to messages in flight"); int j = sym_pick(0, 4, "which") * (max - 1) / 4; uint16_t c, id; Client* r = a->convertClient(e[j].id, &c); A(r == cl[e[j].cl] && c == e[j].cid, "an answer goes to the wrong client or message"); drop(j);
  id = a->addMessageIdTable(cl[1], 9998); A(id != 0 && fid(id) < 0, "room is not used again"); e[ne].cl = 1; e[ne].cid = 9998; e[ne++].id = id; A(a->addMessageIdTable(cl[0], 9999) == 0, "there is no limit to messages in flight");
  for (int i = 0; i < ne; i++) { r = a->convertClient(e[i].id, &c); A(r == cl[e[i].cl] && c == e[i].cid, "a message in flight is lost"); } A(a->addMessageIdTable(cl[0], 9999) != 0, "there is no room for a message"); sym_reach("end"); }
/* a queue with room for max (0: no limit) */
static void que(void) {
  Que<int>* q = new Que<int>(); int k = sym_param("k", 6), mx = sym_pick(0, 3, "limit"); int* m[16]; int n = 0; if (mx) q->setMaxSize(mx);
  for (int s = 0; s < k; s++) switch (sym_pick(0, 2, "op")) {
    case 0: { int* v = new int(s); int ok = q->post(v) != 0; A(ok == (mx == 0 || n < mx), "the limit of a queue is not kept"); if (ok) { m[n++] = v; sym_reach("posted"); } else { delete v; sym_reach("full"); } break; }
    case 1: { int* f = q->front(); A(f == (n ? m[0] : 0), "the queue is not first in, first out"); q->pop(); if (n) { delete f; n--; memmove(m, m + 1, n * sizeof *m); } else sym_reach("empty"); break; }
    default: A(q->post(0) == 0, "nothing is put in the queue"); }
  A(q->size() == n, "the size of a queue is wrong"); A(q->front() == (n ? m[0] : 0), "the queue is not first in, first out"); sym_reach("end"); uint64_t x = sym_live_heap(); delete q; A(n == 0 || sym_live_heap() < x, "the queue is not freed"); }
static void pque(void) {
  uint64_t x0 = sym_live_heap(); PacketQue<int>* q = new PacketQue<int>(); int k = sym_param("k", 6), mx = sym_pick(0, 3, "limit"); int* m[16]; int n = 0; if (mx) q->setMaxSize(mx);
  for (int s = 0; s < k; s++) switch (sym_pick(0, 3, "op")) {
    case 0: { int* v = new int(s); int ok = q->post(v) != 0; A(ok == (mx == 0 || n < mx), "the limit of a queue is not kept"); if (ok) { m[n++] = v; sym_reach("posted"); } else { delete v; sym_reach("full"); } break; }
    case 1: { int* f = q->getPacket(); A(f == (n ? m[0] : 0), "the queue is not first in, first out"); q->pop(); if (n) { delete f; n--; memmove(m, m + 1, n * sizeof *m); } break; }
    case 2: A(q->getPacket() == (n ? m[0] : 0), "the queue is not first in, first out"); break;
    default: q->clear(); n = 0; A(q->getPacket() == 0, "a cleared queue is not empty"); sym_reach("cleared"); }
  A(q->getPacket() == (n ? m[0] : 0), "the queue is not first in, first out"); delete q; A(sym_live_heap() == x0, "a queue leaks its elements"); sym_reach("end"); }
static void eque(void) {
  uint64_t x0 = sym_live_heap(); EventQue* q = new EventQue(); int k = sym_param("k", 6), mx = sym_pick(0, 3, "limit"); Event* m[16]; int n = 0; if (mx) q->setMaxSize(mx);
  for (int s = 0; s < k; s++) switch (sym_pick(0, 2, "op")) {
    case 0: { Event* v = new Event(); q->post(v); if (mx == 0 || n < mx) { m[n++] = v; sym_reach("posted"); } else sym_reach("full"); break; }
    case 1: if (n) { Event* f = q->wait(); A(f == m[0], "events are not first in, first out"); delete f; n--; memmove(m, m + 1, n * sizeof *m); sym_reach("waited"); } break;
    default: { Event* f = q->timedwait(1); A(f != 0, "waiting for an event yields nothing"); if (n) { A(f == m[0], "events are not first in, first out"); n--; memmove(m, m + 1, n * sizeof *m); } else { A(f->getEventType() == EtTimeout, "nothing happens and it is not a timeout"); sym_reach("timeout"); } delete f; } }
  A(q->size() == n, "the size of a queue is wrong"); delete q; A(sym_live_heap() == x0, "a queue leaks its events"); sym_reach("end"); }
/* messages waiting for REGACK, with distinct ids */
static void regack(void) {
  uint64_t x0 = sym_live_heap(); WaitREGACKPacketList* l = new WaitREGACKPacketList(); int k = sym_param("k", 5), n = 0; MQTTSNPacket* p[16]; uint16_t id[16];
  for (int s = 0; s < k; s++) { int op = sym_pick(0, 2, "op"); uint16_t i = sym_u16("id"); int f = -1; for (int j = 0; j < n; j++) if (id[j] == i) f = j;
    if (op == 0) { sym_assume(f < 0); p[n] = new MQTTSNPacket(); id[n] = i; A(l->setPacket(p[n], i) == 1, "a message cannot wait"); n++; sym_reach("waits"); }
    else { MQTTSNPacket* r = l->getPacket(i); A(r == (f >= 0 ? p[f] : 0), "REGACK releases the wrong message"); if (op == 2) { l->erase(i); if (f >= 0) { delete p[f]; n--; for (int j = f; j < n; j++) p[j] = p[j + 1], id[j] = id[j + 1]; sym_reach("released"); } else sym_reach("stray"); } }
    A(l->getCount() == n, "the number of waiting messages is wrong"); }
  for (int j = 0; j < n; j++) A(l->getPacket(id[j]) == p[j], "a waiting message is lost"); delete l; A(sym_live_heap() == x0, "waiting messages are leaked"); sym_reach("end"); }
/* ids: never 0, never the same twice within the span */
/* any state of the two counters, if they are where they were; otherwise the first one */
template<class C> static auto last_ids(C* c, uint16_t* p, uint8_t* s, int) -> decltype(c->_packetId = *p, c->_snMsgId = *s, void()) { c->_packetId = *p; c->_snMsgId = *s; }
template<class C> static void last_ids(C*, uint16_t* p, uint8_t* s, long) { *p = 0; *s = 0; }
static void ids(void) {
  Client* c = new Client(); uint16_t p0 = sym_u16("last packet id"); uint8_t s0 = sym_u8("last message id"); sym_assume(p0 != 0xffff); last_ids(c, &p0, &s0, 0); int k = sym_param("k", 3); uint16_t p[8]; uint8_t s[8];
  for (int i = 0; i < k; i++) { p[i] = c->getNextPacketId(); s[i] = c->getNextSnMsgId(); A(p[i] != 0 && p[i] != 0xffff, "a packet id is 0 or reserved"); A(s[i] != 0, "a message id is 0"); for (int j = 0; j < i; j++) A(p[i] != p[j] && s[i] != s[j], "an id is given twice in a row"); uint16_t pe = p0 >= 0xfffe ? 1 : p0 + 1; uint8_t se = s0 == 255 ? 1 : s0 + 1; A(p[i] == pe && s[i] == se, "ids repeat before all have been used"); p0 = p[i]; s0 = s[i]; } sym_reach("end"); }
/* a timer is up when its time has passed, to a millisecond, not before, and stays up */
static void timer(void) {
  Timer t; A(!t.isTimeup() && !t.isTimeup(0), "a timer which was not started is up"); now_s = 1L + sym_u32("seconds"); long f = sym_range(0, 999, "fraction") & 1023; now_us = f * 1000; uint32_t ms = sym_u32("milliseconds"); t.start(ms); A(!t.isTimeup(), "a timer is up at once"); int was = 0; int64_t el = 0;
  for (int i = 0; i < sym_param("k", 1); i++) { uint32_t d = sym_u32("passed s"), u = sym_range(0, 999, "passed fraction") & 1023; now_s += d; f += u; if (sym_concretize(f > 999)) { f -= 1000; now_s++; } now_us = f * 1000;
    el += (int64_t)d * 1000 + u; int up = t.isTimeup(); if (el > (int64_t)ms + 1) A(up, "a timer is not up after its time"); if (el < (int64_t)ms) A(!up, "a timer is up before its time"); if (was) A(up, "a timer is up no more"); was = up;
    uint32_t m2 = sym_u32("other"); up = t.isTimeup(m2); if (el > (int64_t)m2 + 1) A(up, "another time is not up when it has passed"); if (el < (int64_t)m2) A(!up, "another time is up before it has passed"); }
  if (was) sym_reach("up"); else sym_reach("not up"); t.start(ms); A(!t.isTimeup(), "a timer is up at once"); t.stop(); now_s += 5000000; A(!t.isTimeup() && !t.isTimeup(1), "a stopped timer is up"); sym_reach("end"); }
/* who wants messages of which filter: nt filters, nc clients */
static void atab(void) {
  int k = sym_param("k", 5), nt = sym_param("topics", 3), nc = sym_param("clients", 3), st = 0, sc = 0, pair[16][2], n = 0; AggregateTopicTable* a = new AggregateTopicTable(); Client* c[4]; Topic* t[4]; for (int i = 0; i < nc; i++) c[i] = new Client(); for (int i = 0; i < nt; i++) { string s(1, 'a' + i); t[i] = new Topic(new string(s), MQTTSN_TOPIC_TYPE_NORMAL); }
  for (int s = 0; s < k; s++) {
    int op = sym_pick(0, s ? 2 : 0, "op"), y = sym_pick(0, sc < nc ? sc : nc - 1, "client"), x = op == 2 ? 0 : sym_pick(0, st < nt ? st : nt - 1, "filter"); if (op && y == sc && y) sym_exit(); if (y == sc) sc++; if (op != 2 && x == st) st++;
    int f = -1; for (int i = 0; i < n; i++) if (pair[i][0] == x && pair[i][1] == y) f = i;
    if (op == 0) { a->add(t[x], c[y]); if (f < 0) { pair[n][0] = x; pair[n++][1] = y; } else sym_reach("again"); }
    else if (op == 1) { a->erase(t[x], c[y]); if (f >= 0) { for (n--; f < n; f++) { pair[f][0] = pair[f + 1][0]; pair[f][1] = pair[f + 1][1]; } sym_reach("erased"); } }
    else { a->erase(c[y]); int m = 0; for (int i = 0; i < n; i++) if (pair[i][1] != y) { pair[m][0] = pair[i][0]; pair[m++][1] = pair[i][1]; } if (m < n) sym_reach("client gone"); n = m; }
    for (int i = 0; i < nt; i++) { AggregateTopicElement* e = a->getAggregateTopicElement(t[i]); int want = 0, got = 0, more = 0; for (int j = 0; j < n; j++) if (pair[j][0] == i) want |= 1 << pair[j][1];
      for (ClientTopicElement* q = e ? e->getFirstClientTopicElement() : 0; q; q = q->getNextClientElement()) { int w = -1; for (int j = 0; j < nc; j++) if (c[j] == q->getClient()) w = j; A(w >= 0 && !(got >> w & 1), "a client is in the table twice"); if (w < 0 || more++ > nc) break; got |= 1 << w; }
      A(got == want, "the table does not hold exactly the clients of a filter"); A((e != 0) == (want != 0), "a filter without clients stays in the table, or one with clients is missing"); if (e) A(a->getNextAggregateTopicElement(e, t[i]) == 0, "a filter is in the table twice"); } }
  sym_reach("end"); }
/* forwarders and the nodes behind them */
static void fwds(void) {
  int k = sym_param("k", 5), sc = 0; Forwarder* f[2]; Client* c[3]; int at[3]; uint8_t id[3][2]; int len[3]; SensorNetAddress ad; MQTTSNString nm; memset(&nm, 0, sizeof nm); nm.cstring = (char*) "fwd"; for (int i = 0; i < 2; i++) f[i] = new Forwarder(&ad, &nm); for (int i = 0; i < 3; i++) { c[i] = new Client(); at[i] = -1; }
  for (int s = 0; s < k; s++) {
    int op = sym_pick(0, 1, "op"), y = sym_pick(0, sc < 3 ? sc : 2, "client"), x = sym_pick(0, sc ? 1 : 0, "forwarder"); if (y == sc) { if (op) sym_exit(); sc++; }
    if (op == 0) { uint8_t b[2] = { (uint8_t) s, (uint8_t) (s & 1) }; int l = 1 + (s & 1); WirelessNodeId n; n.setId(b, l); f[x]->addClient(c[y], &n); if (at[y] >= 0) sym_reach("moved"); at[y] = x; memcpy(id[y], b, 2); len[y] = l; }
    else { f[x]->eraseClient(c[y]); if (at[y] == x) { at[y] = -1; c[y]->setForwarder(0); sym_reach("erased"); } }
    for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { WirelessNodeId* n = f[i]->getWirelessNodeId(c[j]); A((n != 0) == (at[j] == i), "a client is not behind exactly the forwarder it was last behind"); if (at[j] < 0) continue; WirelessNodeId q; q.setId(id[j], len[j]); Client* r = f[i]->getClient(&q); A(r == (at[j] == i ? c[j] : 0), "a node is not the client it was last"); if (n) A(*n == q, "a client has another node id"); } }
  for (int j = 0; j < 3; j++) A(c[j]->getForwarder() == (at[j] < 0 ? 0 : f[at[j]]), "a client does not know its forwarder"); sym_reach("end"); }
void sym_main(void) { what = sym_param("what", 0); if (what == 0) table(); else if (what == 1) full(); else if (what == 2) que(); else if (what == 3) pque(); else if (what == 4) eque(); else if (what == 5) regack(); else if (what == 7) timer(); else if (what == 8) atab(); else if (what == 9) fwds(); else ids(); }
