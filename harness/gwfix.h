/* The whole gateway between its two networks. A datagram goes in through ClientRecvTask::run, a MQTT packet through BrokerRecvTask::run;
   PacketHandleTask::run handles the events; ClientSendTask::run and BrokerSendTask::run send. Stand-ins: the sensor network, the TCP
   connections, the clock, the lights and the signal flag. What the gateway sends is recorded in outc[] and outb[]. */
#ifndef GWFIX_H
#define GWFIX_H
#include "sym.h"
#include "MQTTSNGateway.h"
#include "MQTTSNGWClient.h"
#include "MQTTSNGWClientList.h"
#include "MQTTSNGWClientRecvTask.h"
#include "MQTTSNGWClientSendTask.h"
#include "MQTTSNGWBrokerRecvTask.h"
#include "MQTTSNGWBrokerSendTask.h"
#include "MQTTSNGWPacketHandleTask.h"
#include "MQTTSNGWAdapterManager.h"
#include "MQTTSNGWAggregater.h"
#include "MQTTSNGWQoSm1Proxy.h"
#include "snref.h"
#include "mqttref.h"
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/select.h>
#define A(c, l) sym_assert((c), l)
using namespace MQTTSNGW;
extern uint8_t in_b[]; 
struct Dgram { int bcast; uint32_t ip; uint16_t port; int n; uint8_t* b; };
struct Bpkt { Network* net; int n; uint8_t* b; };
static Dgram outc[64]; static int nc, ic;
static Bpkt outb[64]; static int nb, ib;
static uint32_t clock_ms = 5000;            /* now */
static int stopping, ticks; static uint32_t tick_ms, clock_s, tick_s;
static const uint8_t* sn_in; static int sn_n, sn_have; static SensorNetAddress sn_from;
static const uint8_t* br_in; static int br_n, br_pos, br_end; static Client* br_client;
static int br_tls;                          /* what came is one TLS record: the socket is readable until it is taken */
static int fdseq = 20, conn_ok = 1, send_ok = 1, connects, closes;
static Gateway* gw; static PacketHandleTask* pht; static ClientRecvTask* crt; static ClientSendTask* cst; static BrokerRecvTask* brt; static BrokerSendTask* bst;

char* currentDateTime(void) { static char t[2]; return t; }
extern "C" int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = 1000000 + clock_ms / 1000 + clock_s; tv->tv_usec = clock_ms % 1000 * 1000; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = 1000000 + clock_ms / 1000 + clock_s; t->tv_nsec = clock_ms % 1000 * 1000000; return 0; }
extern "C" time_t time(time_t* t) { time_t v = 1000000 + clock_ms / 1000 + clock_s; if (t) *t = v; return v; }
extern "C" int usleep(useconds_t) { stopping = 1; return 0; }
extern "C" int select(int n, fd_set* r, fd_set* w, fd_set*, struct timeval* tv) {
  if (w) return 1;                          /* the TLS layer waits for its socket */
  int want = br_client && br_client->getNetwork()->isValid() ? br_client->getNetwork()->getSock() : 0;
  /* what is waited for: the open connections to the broker, and nothing else */
  for (int f = 0; f < 64; f++) { int o = 0; for (Client* c = gw->getClientList()->getClient(0); c; c = c->getNextClient()) if (c->getNetwork()->isValid() && c->getNetwork()->getSock() == f) o = 1;
    A(!!FD_ISSET(f, r) == o && (!o || f < n), "the wrong sockets are waited for"); }
  FD_ZERO(r);
  if (want && (br_tls ? br_pos == 0 && br_n > 0 : br_pos < br_n || br_end)) { FD_SET(want, r); return 1; } if (!br_tls || !tv || tv->tv_sec || tv->tv_usec) stopping = 1; return 0; }
namespace MQTTSNGW {
void LightIndicator::init() {} int LightIndicator::lit(int, const char*) { return 0; } void LightIndicator::pinMode(int) {}
int Process::checkSignal(void) { return stopping ? SIGINT : 0; }
void Semaphore::timedwait(uint16_t) { if (ticks > 0) { ticks--; clock_ms += tick_ms; clock_s += tick_s; return; } Event* e = new Event(); e->setStop(); gw->getPacketEventQue()->post(e); }
int SensorNetwork::read(uint8_t* buf, uint16_t len) { if (!sn_have) { stopping = 1; return 0; } sn_have = 0; A(len >= 1, "no room to receive a packet"); int n = sn_n < len ? sn_n : len; memcpy(buf, sn_in, n); return n; }
static void put(int bc, const uint8_t* p, int n, SensorNetAddress* to) { Dgram* d = &outc[nc]; d->bcast = bc; d->ip = to ? to->getIpAddress() : 0; d->port = to ? to->getPortNo() : 0; d->n = n; d->b = (uint8_t*)malloc(n ? n : 1); memcpy(d->b, p, n); if (nc < 63) nc++; }
SensorNetAddress* SensorNetwork::getSenderAddress(void) { return &sn_from; }
int SensorNetwork::unicast(const uint8_t* p, uint16_t n, SensorNetAddress* to) { A(this == gw->getSensorNetwork(), "sent with no sensor network"); put(0, p, n, to); return n; }
int SensorNetwork::broadcast(const uint8_t* p, uint16_t n) { A(this == gw->getSensorNetwork(), "sent with no sensor network"); put(1, p, n, 0); return n; }
}
bool TCPStack::connect(const char*, const char*) { connects++; if (!conn_ok) return false; _sockfd = ++fdseq; return true; }
void TCPStack::close() { if (_sockfd > 0) closes++; _sockfd = 0; }
int TCPStack::recv(uint8_t* buf, int len) { int n = br_n - br_pos; if (n > len) n = len; if (n <= 0) { if (br_end == 1) { br_end = 0; return 0; } br_end = 0; errno = 104; return -1; } memcpy(buf, br_in + br_pos, n); br_pos += n; return n; }
int TCPStack::send(const uint8_t* p, int n) { if (!send_ok) { errno = 32; return -1; } Bpkt* o = &outb[nb]; o->net = (Network*)this; o->n = n; o->b = (uint8_t*)malloc(n ? n : 1); memcpy(o->b, p, n); if (nb < 63) nb++; return n; }

#ifdef GWFIX_CONF
/* the file of the clients */
#include <arpa/inet.h>
static const char* conf_at;
extern "C" FILE* fopen(const char*, const char*) { conf_at = GWFIX_CONF; return (FILE*)&conf_at; }
extern "C" int fclose(FILE*) { return 0; }
extern "C" char* fgets(char* b, int n, FILE*) { int i = 0; while (i < n - 1 && *conf_at) { b[i++] = *conf_at; if (*conf_at++ == '\n') break; } b[i] = 0; return i ? b : 0; }
extern "C" in_addr_t inet_addr(const char* s) { uint32_t v = 0, k = 0; for (;; s++) { if (*s >= '0' && *s <= '9') k = k * 10 + *s - '0'; else { v = v << 8 | k; k = 0; if (*s != '.') break; } } return htonl(v); }
#endif
static void stop_event(EventQue* q) { Event* e = new Event(); e->setStop(); q->post(e); }
static void settle(void) {
  EventQue *p = gw->getPacketEventQue(), *c = gw->getClientSendQue(), *b = gw->getBrokerSendQue();
  for (int i = 0; i < 20 && (p->size() || c->size() || b->size()); i++) {
    if (p->size()) pht->run();
    if (b->size()) { stop_event(b); bst->run(); }
    if (c->size()) { stop_event(c); cst->run(); } } }
/* time passes: n timeouts of the event queue, ms apart */
static void tick(int n, uint32_t ms) { ticks = n; tick_ms = ms; pht->run(); tick_ms = 0; settle(); }
static SensorNetAddress addr_of(int a) { SensorNetAddress s; s.setAddress(htonl(0x0a000000 + a), htons(1000 + a)); return s; }
/* a datagram arrives from node a */
static void recv_only(int a, const uint8_t* b, int n) { SensorNetAddress s = addr_of(a); sn_from = s; sn_in = b; sn_n = n; sn_have = 1; stopping = 0; crt->run(); stopping = 0; }
static void from_client(int a, const uint8_t* b, int n) { recv_only(a, b, n); settle(); }
/* bytes arrive on the broker connection of a client */
static void brecv_only(Client* c, const uint8_t* b, int n) { br_client = c; br_in = b; br_n = n; br_pos = 0; stopping = 0; brt->run(); stopping = 0; br_client = 0; br_n = br_pos = br_end = 0; }
static void from_broker(Client* c, const uint8_t* b, int n) { brecv_only(c, b, n); settle(); }
/* expectations */
static void to_client(int a, const W* w, const char* what) {
  uint8_t* o = (uint8_t*)malloc(w->n + 4); int n = wfinish(w, o); SensorNetAddress t = addr_of(a);
  if (ic >= nc) { A(0, what); free(o); return; } Dgram* d = &outc[ic++];
  A(!d->bcast && d->ip == t.getIpAddress() && d->port == t.getPortNo() && d->n == n && memcmp(d->b, o, n) == 0, what); free(o); }
static void to_all(const W* w, const char* what) { uint8_t* o = (uint8_t*)malloc(w->n + 4); int n = wfinish(w, o); if (ic >= nc) { A(0, what); free(o); return; } Dgram* d = &outc[ic++]; A(d->bcast && d->n == n && memcmp(d->b, o, n) == 0, what); free(o); }
static void to_broker(Client* c, const MB* m, const char* what) {
  if (ib >= nb) { A(0, what); return; } Bpkt* o = &outb[ib++]; A(o->net == c->getNetwork() && o->n == m->n && memcmp(o->b, m->b, m->n) == 0, what); }
static void quiet(const char* what) { A(ic == nc && ib == nb, what); }
static void quiet_c(const char* what) { A(ic == nc, what); }
static void quiet_b(const char* what) { A(ib == nb, what); }
static void forget(void) { for (int i = 0; i < nc; i++) free(outc[i].b); for (int i = 0; i < nb; i++) free(outb[i].b); nc = ic = nb = ib = 0; }
/* send a message built with the reference encoder */
static void say(int a, const W* w) { uint8_t* o = (uint8_t*)malloc(w->n + 4); int n = wfinish(w, o); uint8_t* e = (uint8_t*)malloc(n); memcpy(e, o, n); from_client(a, e, n); free(e); free(o); }
static void say_b(Client* c, const MB* m) { uint8_t* e = (uint8_t*)malloc(m->n ? m->n : 1); memcpy(e, m->b, m->n); from_broker(c, e, m->n); free(e); }
static uint8_t mbuf[4][2400]; static int mbk;
static MB mb(void) { MB m; m.b = mbuf[mbk++ & 3]; m.n = 0; m.cap = 2400; return m; }
static MB mshort(int type, int flags) { MB m = mb(); mhead(&m, type, flags, 0); return m; }
static MB mack(int type, int flags, int id) { MB m = mb(); mhead(&m, type, flags, 2); m16(&m, id); return m; }
static MB mpublish(int dup, int qos, int retain, const void* t, int tn, int id, const void* p, int pn) { MB m = mb(); mhead(&m, 3, dup << 3 | qos << 1 | retain, 2 + tn + (qos ? 2 : 0) + pn); mstr(&m, t, tn); if (qos) m16(&m, id); mraw(&m, p, pn); return m; }
static W w1(int t) { W w; w.n = 0; w8(&w, t); return w; }
static W wack(int t, int tid, int mid, int rc) { W w = w1(t); w16(&w, tid); w16(&w, mid); w8(&w, rc); return w; }   /* PUBACK, REGACK */
static W wid(int t, int mid) { W w = w1(t); w16(&w, mid); return w; }                                               /* PUBREC, PUBREL, PUBCOMP, UNSUBACK */
static W wpublish(int fl, int t0, int t1, int mid, const void* p, int pn) { W w = w1(T_PUBLISH); w8(&w, fl); w8(&w, t0); w8(&w, t1); w16(&w, mid); wb(&w, p, pn); return w; }
static W wconnect(const char* id, int fl, int dur) { W w = w1(T_CONNECT); w8(&w, fl); w8(&w, 1); w16(&w, dur); wb(&w, id, strlen(id)); return w; }
static W wregister(int tid, int mid, const void* t, int n) { W w = w1(T_REGISTER); w16(&w, tid); w16(&w, mid); wb(&w, t, n); return w; }
static W wdisconnect(int dur) { W w = w1(T_DISCONNECT); if (dur >= 0) w16(&w, dur); return w; }
static W wsuback(int qos, int tid, int mid, int rc) { W w = w1(T_SUBACK); w8(&w, F_QOS(qos)); w16(&w, tid); w16(&w, mid); w8(&w, rc); return w; }
static MB mconnect(const char* id, int clean, int ka) { MB m = mb(); int n = strlen(id); mhead(&m, 1, 0, 12 + n); mstr(&m, "MQTT", 4); m8(&m, 4); m8(&m, clean ? 2 : 0); m16(&m, ka); mstr(&m, id, n); return m; }
static MB mconnack(int rc) { MB m = mb(); mhead(&m, 2, 0, 2); m8(&m, 0); m8(&m, rc); return m; }

struct Cfg { int agg, fwd, qosm1, auth, max; };
static int start_auth;
static void start(int agg = 0, int fwd = 0, int qosm1 = 0, int max = 10) {
  gw = new Gateway(); GatewayParams* p = gw->getGWParams(); p->gatewayId = 7; p->gatewayName = strdup("gw"); p->brokerName = strdup("b"); p->port = strdup("1"); p->keepAlive = 900; p->mqttVersion = 4; p->maxInflightMsgs = 10; p->maxClients = max; p->clientListName = strdup("c");
  p->aggregatingGw = agg; p->forwarder = fwd; p->qosMinus1 = qosm1; p->clientAuthentication = start_auth;
  gw->getPacketEventQue()->setMaxSize(p->maxInflightMsgs * p->maxClients); gw->getClientList()->allocate(); gw->getAdapterManager()->initialize(p->gatewayName, agg, fwd, qosm1); gw->getClientList()->initialize(agg);
  pht = new PacketHandleTask(gw); crt = new ClientRecvTask(gw); cst = new ClientSendTask(gw); brt = new BrokerRecvTask(gw); bst = new BrokerSendTask(gw); brt->initialize(0, 0); bst->initialize(0, 0); crt->initialize(0, 0); }
static Client* by_addr(int a) { SensorNetAddress s = addr_of(a); return gw->getClientList()->getClient(&s); }
/* a client connects; returns it, active */
static Client* join(int a, const char* id, int clean = 1, int ka = 60) {
  W w = wconnect(id, clean ? F_CLEAN : 0, ka); say(a, &w); Client* c = by_addr(a); MB m = mconnect(id, clean, ka); to_broker(c, &m, "CONNECT is not passed on to the broker"); quiet("more than CONNECT is sent when a client connects");
  m = mconnack(0); say_b(c, &m); W r = w1(T_CONNACK); w8(&r, 0); to_client(a, &r, "CONNACK is not passed on to the client"); quiet("more than CONNACK is sent when the broker accepts a client"); A(c->isActive(), "the client is not active after CONNACK"); forget(); return c; }
static int reg(int a, int mid, const char* name) { W w = wregister(0, mid, name, strlen(name)); say(a, &w); if (ic >= nc || outc[ic].n != 7) { A(0, "REGISTER is not answered"); return 0; } int id = outc[ic].b[2] << 8 | outc[ic].b[3]; W r = wack(T_REGACK, id, mid, 0); to_client(a, &r, "REGACK does not answer REGISTER"); quiet("more than REGACK answers REGISTER"); forget(); return id; }
#endif
