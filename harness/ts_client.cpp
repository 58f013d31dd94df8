/* C43: the client library of the tester over its UDP port. what = 0 CONNECT and its dialogue; 1 publications and registrations; 2 subscriptions and what is
   received; 3 PINGREQ; 4 a topic subscribed anew; 5 whatever arrives. The sockets are stand-ins, and so is the clock; what is sent is checked against a model of the client, message by message. */
#include "testerfix.h"
#include <sys/time.h>
#include <time.h>
OnPublishList theOnPublishList[] = { { MQTTSN_TOPIC_TYPE_NORMAL, 0, 0, 0, 0 } };
LMqttsnConfig theMqcon = { 60, true, 0, "", "", 0, false }; LUdpConfig theNetcon = { "c", { 225, 1, 1, 1 }, 1883, 12001 };
namespace linuxAsyncClient { extern "C" { } }
extern LMqttsnClient* theClient;
static uint32_t now = 1000, now_us;
extern "C" time_t time(time_t* t) { if (t) *t = now; return now; }
extern "C" int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = now; tv->tv_usec = now_us; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = now; t->tv_nsec = now_us * 1000; return 0; }
#define GW_IP 0x0a000001u
#define GW_PORT 0x1234
/* what was sent and not looked at yet */
struct Out { int bcast, n; uint8_t* b; };
static Out out[32]; static int no, io;
static const uint8_t* in_msg; static int in_len; static uint32_t in_ip; static uint16_t in_port;
static void (*idle)(void);
static const uint8_t* before;              /* what is in the buffer behind the message */
static void put(int bc, const uint8_t* p, int n, uint32_t ip, uint16_t port) {
  A(bc || (ip == GW_IP && port == GW_PORT), "sent to somebody else"); Out* o = &out[no]; o->bcast = bc; o->n = n; o->b = (uint8_t*) malloc(n ? n : 1); memcpy(o->b, p, n); if (no < 31) no++; }
namespace linuxAsyncClient {
LUdpPort::LUdpPort() { _castStat = 0; _disconReq = false; _sockfdUcast = _sockfdMcast = -1; } LUdpPort::~LUdpPort() {} void LUdpPort::close() {}
bool LUdpPort::open(LUdpConfig*) { return true; } bool LUdpPort::isUnicast() { return true; }
int LUdpPort::unicast(const uint8_t* b, uint32_t n, uint32_t ip, uint16_t port) { put(0, b, n, ip, port); return n; }
int LUdpPort::multicast(const uint8_t* b, uint32_t n) { put(1, b, n, 0, 0); return n; }
bool LUdpPort::checkRecvBuf() { if (idle) idle(); return in_msg != 0; }
int LUdpPort::recv(uint8_t* b, uint16_t len, bool, uint32_t* ip, uint16_t* port) { int n = in_len < len ? in_len : len; memcpy(b, in_msg, n); if (before) memcpy(b + n, before, n + 24 < len ? 24 : len - n); *ip = in_ip; *port = in_port; in_msg = 0; return n; } }
static uint8_t eb[1100]; static int en;
static void e8(int v) { eb[en++] = v; } static void e16(int v) { e8(v >> 8); e8(v); } static void es(const void* s, int n) { memcpy(eb + en, s, n); en += n; }
static void ebegin(int type) { en = 3; e8(type); }                /* room for the long form of the length */
static const uint8_t* efinish(int* n) { if (en - 2 <= 255) { eb[2] = en - 2; *n = en - 2; return eb + 2; } eb[0] = 1; eb[1] = en >> 8; eb[2] = en; *n = en; return eb; }
/* the message expected now is eb */
static int fwd;                            /* messages are encapsulated, as a forwarder does */
static const uint8_t capsule[] = { 7, 0xfe, 1, 'w', 'n', 'I', 'd' };
static const uint8_t* wrap(const uint8_t* e, int* n) { static uint8_t w[1200]; if (!fwd) return e; memcpy(w, capsule, 7); memcpy(w + 7, e, *n); *n += 7; return w; }
static void sent(int bc, const char* what) { int n; const uint8_t* e = efinish(&n); if (!bc) e = wrap(e, &n); if (io >= no) { A(0, what); return; } Out* o = &out[io++]; A(o->bcast == bc && o->n == n && memcmp(o->b, e, n) == 0, what); }
static void quiet(const char* what) { A(io == no, what); io = no; }
static int out16(int at) { at += fwd ? 7 : 0; return io < no && out[io].n >= at + 2 ? out[io].b[at] << 8 | out[io].b[at + 1] : -1; }
static void forget(void) { for (int i = 0; i < no; i++) free(out[i].b); no = io = 0; }
/* the message eb arrives */
static uint8_t* arrived; 
static void arrive(void) { int n; const uint8_t* e = efinish(&n); e = wrap(e, &n); free(arrived); arrived = (uint8_t*) malloc(n); memcpy(arrived, e, n); in_msg = arrived; in_len = n; in_ip = GW_IP; in_port = GW_PORT; }

/* ---- the dialogue of CONNECT ---- */
enum { SEARCH, CONN, TOPIC, MSG, DONE };
static int st, fresh, sends, events, keep, clean, wqos, wret, idn; static uint32_t sent_at; static char id[32]; static const char *wt = "", *wm = "";
static int has_will(void) { return *wt && *wm; }
static void want_send(void) {
  if (st == SEARCH) { ebegin(1); e8(0); sent(1, "SEARCHGW is not sent"); }
  else if (st == CONN) { ebegin(4); e8((clean ? 4 : 0) | (has_will() ? 8 : 0)); e8(1); e16(keep); es(id, idn > 23 ? 23 : idn); sent(0, "CONNECT is wrong"); }
  else if (st == TOPIC) { ebegin(7); e8(wqos << 5 | wret << 4); es(wt, strlen(wt)); sent(0, "WILLTOPIC is wrong"); }
  else { ebegin(9); es(wm, strlen(wm)); sent(0, "WILLMSG is wrong"); }
  sends++; sent_at = now; fresh = 0; }
static void answer(int s) {
  if (s == SEARCH) { ebegin(2); e8(7); } else if (s == CONN && has_will()) ebegin(6); else if (s == TOPIC) ebegin(8); else { ebegin(5); e8(0); } arrive(); }
static int due;
static void step(void) {                  /* the client waits for a message */
  if (due) { due = 0; if (now - sent_at > 10) { if (sends < 3) want_send(); else { st = st == SEARCH || st == CONN ? SEARCH : CONN; fresh = 1; sends = 0; } } }
  if (fresh) { sends = 0; want_send(); sym_reach("request"); }
  quiet("a message too many while connecting"); forget();
  if (events-- <= 0) { sym_reach("not connected"); sym_exit(); }
  int what = sym_pick(0, 4, "event");
  if (what == 0) { now += 6; due = 1; }
  else if (what == 1) { now += 11; due = 1; sym_reach("no answer"); }
  else if (what == 2) { answer(st); sends = 0; fresh = 1; st = st == SEARCH ? CONN : st == CONN && has_will() ? TOPIC : st == TOPIC ? MSG : DONE; if (st == DONE) idle = 0; }
  else if (what == 3) { int s = sym_pick(0, 3, "stray"); if (s == 0) { sym_assume(st != SEARCH); ebegin(2); e8(9); } else if (s == 1) { sym_assume(!(st == CONN && has_will())); ebegin(6); } else if (s == 2) { sym_assume(st != TOPIC); ebegin(8); } else { sym_assume(!((st == CONN && !has_will()) || st == MSG)); ebegin(5); e8(0); } arrive(); sym_reach("stray"); }
  else { sym_assume((st == CONN && !has_will()) || st == MSG); ebegin(5); e8(sym_pick(1, 3, "return code")); arrive(); st = CONN; fresh = 1; sends = 0; sym_reach("rejected"); } }
static int gone_st, away;
static void gone(void) {
  if (!gone_st || now - sent_at > 10) { gone_st = 1; ebegin(0x18); if (away) e16(away); sent(0, "DISCONNECT is wrong"); sent_at = now; }
  quiet("a message too many while disconnecting"); forget(); if (events-- <= 0) sym_exit();
  int what = sym_pick(0, 2, "event"); if (what == 0) now += 11; else if (what == 1) { ebegin(0x18); arrive(); gone_st = 2; idle = 0; } else { ebegin(0x16 + sym_pick(0, 1, "stray") * 8); arrive(); sym_assume(1); } }
static void bytes(char* p, int n, const char* nm) { sym_bytes(p, n, nm); for (int i = 0; i < n; i++) sym_assume(p[i] != 0); p[n] = 0; }
static char tname[8], tmsg[8];
static void t_connect(void) {
  int k = sym_param("k", 4); static const int lens[] = { 1, 2, 22, 23, 24 };
  idn = lens[sym_pick(0, sym_param("ids", 4), "id length")]; for (int i = 0; i < idn; i++) id[i] = 'a' + i; sym_bytes(id, 1, "id"); sym_assume(id[0] != 0);
  int w = sym_pick(0, 3, "will"); if (w & 1) { bytes(tname, 3, "will topic"); wt = tname; } if (w & 2) { bytes(tmsg, 2, "will message"); wm = tmsg; }
  keep = sym_u16("keep alive"); clean = sym_pick(0, 1, "clean"); if (has_will()) { wqos = sym_pick(0, 2, "will qos"); wret = sym_pick(0, 1, "will retain"); }
  theNetcon.clientId = id; theMqcon.keepAlive = keep; theMqcon.cleanSession = clean; theMqcon.willTopic = wt; theMqcon.willMsg = wm; theMqcon.willQos = wqos; theMqcon.willRetain = wret;
  theClient->initialize(&theNetcon, &theMqcon);
  st = SEARCH; fresh = 1; events = k; idle = step;
  theClient->getGwProxy()->connect();
  A(st == DONE, "connected before the gateway says so"); quiet("a message too many after CONNACK"); A(theClient->getGwProxy()->getStatus() == 8, "not connected after CONNACK"); sym_reach("connected");
  if (sym_param("sleep", 0)) {              /* it goes away, for a time or for good, and comes back */
    int secs = sym_u16("sleep"); io = no; forget(); idle = gone; events = k; away = secs; theClient->disconnect(secs);
    A(gone_st == 2, "gone before the gateway says so"); quiet("a message too many after DISCONNECT"); forget(); sym_reach("gone");
    st = CONN; fresh = 1; sends = 0; events = k; idle = step; due = 0; theClient->getGwProxy()->connect();
    A(st == DONE, "connected before the gateway says so"); quiet("a message too many after CONNACK"); sym_reach("back"); }
  sym_exit(); }

static void greet(void) { if (no > io) { Out* o = &out[no - 1]; int t = o->b[fwd && !o->bcast ? 8 : 1]; io = no; if (t == 1) { ebegin(2); e8(7); arrive(); } else { ebegin(5); e8(0); arrive(); idle = 0; } } }
static void connected(void) {
  fwd = sym_param("fwd", 0); theClient->getGwProxy()->setForwarderMode(fwd);
  theClient->initialize(&theNetcon, &theMqcon); theClient->getGwProxy()->setPingReqMode(false); idle = greet; theClient->getGwProxy()->connect(); forget(); }

/* ---- publications ---- */
enum { PREDEF, SHORT, NAME0, NAME1 };
enum { P_NONE, P_REG, P_ACK, P_REC, P_COMP };
struct Pub { int kind, qos, retain, len, state, mid, again; uint32_t at; uint8_t pay[300]; };
static Pub pub[4]; static int np; struct Reg { int on, mid, tid; uint32_t at; }; static Reg reg[2];
static const char* names[] = { "", "ab", "room/1", "room/11" };
static int used(int mid) { for (int i = 0; i < np; i++) if (pub[i].state > P_REG && pub[i].mid == mid) return 1; for (int i = 0; i < 2; i++) if (reg[i].on && reg[i].mid == mid) return 1; return 0; }
static void expect_pub(Pub* p, const char* what) {
  int L = p->len > 248 ? 2 : 0, m = out16(L + 5); ebegin(0x0c); e8((p->again ? 0x80 : 0) | p->qos << 5 | p->retain << 4 | (p->kind == PREDEF ? 1 : p->kind == SHORT ? 2 : 0));
  if (p->kind == SHORT) es(names[SHORT], 2); else e16(p->kind == PREDEF ? 0x1234 : reg[p->kind - NAME0].tid);
  int acked = p->qos == 1 || p->qos == 2;
  if (!acked) m = 0; else if (p->again) m = p->mid; else A(m > 0 && !used(m), "the message id of a publication is in use");
  e16(m); es(p->pay, p->len); sent(0, what);
  p->mid = m; p->at = now; p->again = 1; p->state = p->qos == 1 ? P_ACK : p->qos == 2 ? P_REC : P_NONE; }
static void expect_reg(int r, int again) { int m = again ? reg[r].mid : out16(4); if (!again) A(m > 0 && !used(m), "the message id of a registration is in use"); ebegin(0x0a); e16(0); e16(m); es(names[NAME0 + r], strlen(names[NAME0 + r])); sent(0, "REGISTER is wrong"); reg[r].on = 1; reg[r].mid = m; reg[r].at = now; }
static void turn(void) { theClient->getGwProxy()->getMessage(); }
static int pick_state(int s) { int n = 0, w[4]; for (int i = 0; i < np; i++) if (pub[i].state == s) w[n++] = i; sym_assume(n > 0); if (!n) sym_exit(); return w[n > 1 ? sym_pick(0, n - 1, "which") : 0]; }
static int idle_state(void) { for (int i = 0; i < np; i++) if (pub[i].state != P_NONE) return 0; return 1; }
/* registrations come first, in the order they were made */
static void regs_due(void) { int a = reg[0].on && reg[1].on && out16(4) == reg[1].mid ? 1 : 0; for (int q = 0; q < 2; q++) { int r = a ^ q; if (reg[r].on && now - reg[r].at > 10) expect_reg(r, 1); } }
static void t_publish(void) {
  connected(); int k = sym_param("k", 2), m = sym_param("m", 3), big = sym_param("big", 0), thin = sym_param("thin", 0), times = 0; static const int lens[] = { 0, 3, 247, 248, 249, 300 };
  for (int i = 0; i < k; i++) { Pub* p = &pub[np]; p->kind = sym_pick(0, 3, "topic"); p->qos = thin ? sym_pick(0, 1, "qos") : sym_pick(0, 3, "qos"); p->retain = !thin && sym_pick(0, 1, "retain"); p->len = big ? lens[sym_pick(0, 5, "length")] : 3; if (p->len) { for (int j = 0; j < p->len; j++) p->pay[j] = j; sym_bytes(p->pay, p->len < 3 ? p->len : 3, "payload"); }
    uint8_t* mine = (uint8_t*) malloc(p->len ? p->len : 1); memcpy(mine, p->pay, p->len);
    if (p->kind == PREDEF) theClient->publish((uint16_t) 0x1234, mine, p->len, p->qos, p->retain); else theClient->publish(names[p->kind], mine, p->len, p->qos, p->retain);
    memset(mine, 0, p->len); free(mine);              /* the caller's buffer is his */
    int r = p->kind - NAME0;
    if (r >= 0 && !reg[r].tid) { if (!reg[r].on) expect_reg(r, 0); p->state = P_REG; sym_reach("registered first"); }
    else expect_pub(p, "PUBLISH is wrong");
    np++; quiet("a message too many after a publication"); forget();
    A(theClient->getPublishManager()->isDone() == (idle_state() != 0), "done is not what it says"); }
  for (int e = 0; e < m; e++) {
    int what = sym_pick(0, thin ? 3 : 7, "event");
    if (what == 0) { sym_assume(times < 3); times++; now += 11;                      /* no answer for longer than 10 s */
      turn();
      regs_due();
      for (int i = 0; i < np; i++) { Pub* p = &pub[i]; if ((p->state == P_ACK || p->state == P_REC) && now - p->at > 10) expect_pub(p, "an unanswered publication is not repeated"); else if (p->state == P_COMP && now - p->at > 10) { ebegin(0x10); e16(p->mid); sent(0, "an unanswered PUBREL is not repeated"); p->at = now; } }
      sym_reach("repeated"); }
    else if (what == 1) { now += 5; turn(); regs_due(); for (int i = 0; i < np; i++) { Pub* p = &pub[i]; sym_assume(p->state < P_ACK || now - p->at <= 10); } }
    else if (what == 2) { int r = sym_pick(0, 1, "name"); sym_assume(reg[r].on); if (!reg[r].on) sym_exit(); int rc = thin ? 0 : sym_pick(0, 2, "return code"); ebegin(0x0b); e16(0x101 + r); e16(reg[r].mid); e8(rc); arrive(); turn();
      if (rc == 0) { reg[r].on = 0; reg[r].tid = 0x101 + r; for (int i = 0; i < np; i++) if (pub[i].state == P_REG && pub[i].kind == NAME0 + r) expect_pub(&pub[i], "a publication does not follow its registration"); sym_reach("registered"); } else sym_reach("registration rejected"); }
    else if (what == 3) { Pub* p = &pub[pick_state(P_ACK)]; ebegin(0x0d); e16(0x1234); e16(p->mid); e8(0); arrive(); turn(); p->state = P_NONE; sym_reach("acknowledged"); }
    else if (what == 4) { Pub* p = &pub[pick_state(P_ACK)]; ebegin(0x0d); e16(0x1234); e16(p->mid); e8(1); arrive(); turn(); sym_reach("congestion"); }
    else if (what == 5) { int c = sym_pick(0, 1, "again"); Pub* p = &pub[pick_state(c ? P_COMP : P_REC)]; ebegin(0x0f); e16(p->mid); arrive(); turn(); ebegin(0x10); e16(p->mid); sent(0, "PUBREC is not answered by PUBREL"); p->state = P_COMP; p->at = now; }
    else if (what == 6) { Pub* p = &pub[pick_state(P_COMP)]; ebegin(0x0e); e16(p->mid); arrive(); turn(); p->state = P_NONE; sym_reach("complete"); }
    else { int t = sym_pick(0, 3, "kind"), mid = sym_u16("stray"); static const int ty[] = { 0x0d, 0x0f, 0x0e, 0x0b }; int st4[] = { P_ACK, P_REC, P_COMP, 0 };
      for (int i = 0; i < np; i++) sym_assume(pub[i].mid != mid || pub[i].state < P_ACK || (pub[i].state != st4[t] && !(t == 1 && pub[i].state == P_COMP))); for (int r = 0; r < 2; r++) if (t == 3) sym_assume(!reg[r].on || reg[r].mid != mid);
      ebegin(ty[t]); if (t == 0 || t == 3) e16(9); e16(mid); if (t == 0 || t == 3) e8(0); arrive(); turn(); sym_reach("stray"); }
    quiet("a message too many"); forget();
    A(theClient->getPublishManager()->isDone() == (idle_state() != 0), "done is not what it says"); }
  free(arrived); arrived = 0; sym_reach("end"); }

/* ---- subscriptions ---- */
enum { S_PRE, S_SHORT, S_NAME, S_LONGER, S_MULTI, S_PLUS, S_PLUS2, S_N };
static const char* sname[] = { 0, "ab", "room/1", "room/11", "a/#", "b/+/c", "b/+/d" };
static const int stid[] = { 0x1234, 0, 0x201, 0x202, 0, 0, 0 };          /* what the gateway's SUBACK says */
static const int stype[] = { 1, 2, 0, 0, 0, 0, 0 };
struct Sub { int kind, unsub, qos, wait, mid, tries; uint32_t at; };
static Sub sub[4]; static int ns, holds[S_N], order[S_N], nheld;            /* the subscriptions that hold, in the order they came to */
static int called = -1, calls, cn; static uint8_t cpay[400];
static int cb(int k, uint8_t* p, uint16_t n) { called = k; calls++; cn = n; memcpy(cpay, p, n < 400 ? n : 400); return 0; }
static int cb0(uint8_t* p, uint16_t n) { return cb(0, p, n); } static int cb1(uint8_t* p, uint16_t n) { return cb(1, p, n); } static int cb2(uint8_t* p, uint16_t n) { return cb(2, p, n); }
static int cb3(uint8_t* p, uint16_t n) { return cb(3, p, n); } static int cb4(uint8_t* p, uint16_t n) { return cb(4, p, n); } static int cb5(uint8_t* p, uint16_t n) { return cb(5, p, n); } static int cb6(uint8_t* p, uint16_t n) { return cb(6, p, n); }
static const TopicCallback cbs[] = { cb0, cb1, cb2, cb3, cb4, cb5, cb6 };
static void expect_sub(Sub* u, const char* what) {
  int again = u->tries > 0, m = again ? u->mid : out16(3); if (!again) { A(m > 0, "a request has no message id"); for (int i = 0; i < ns; i++) A(&sub[i] == u || !sub[i].wait || sub[i].mid != m, "the message id of a request is in use"); }
  ebegin(u->unsub ? 0x14 : 0x12); e8((again && !u->unsub ? 0x80 : 0) | u->qos << 5 | stype[u->kind]); e16(m); if (u->kind == S_PRE) e16(stid[S_PRE]); else es(sname[u->kind], strlen(sname[u->kind])); sent(0, what);
  u->mid = m; u->at = now; u->tries++; u->wait = 1; }
static int waiting(void) { for (int i = 0; i < ns; i++) if (sub[i].wait) return 1; return 0; }
static int matches(int k, const char* t) { if (k == S_MULTI) return !strncmp(t, "a/", 2); if (k == S_PLUS || k == S_PLUS2) { if (strncmp(t, "b/", 2)) return 0; const char* q = strchr(t + 2, '/'); return q && q[1] == sname[k][4] && !q[2]; } return k >= S_NAME && !strcmp(t, sname[k]); }
static int made[4], back[4];            /* requests which stand: made again when the client comes back */
static void bye(void) { if (no > io) { ebegin(0x18); arrive(); idle = 0; } }
/* the gateway while the client comes back: CONNACK, then SUBACK for what is subscribed */
static void again(void) {
  if (io < no && out[io].n > (fwd ? 8 : 1) && out[io].b[fwd ? 8 : 1] == 4) { io++; ebegin(5); e8(0); arrive(); return; }
  for (int i = 0; io < no && i < ns; i++) if (made[i]) { sub[i].tries = 0; sub[i].wait = 0; expect_sub(&sub[i], "a subscription is not made again as it was"); back[i] = 1; }
  quiet("something is subscribed which was not");
  for (int i = 0; i < ns; i++) if (back[i] == 1) { back[i] = 2; sub[i].wait = 0; ebegin(0x13); e8(sub[i].qos << 5); e16(stid[sub[i].kind]); e16(sub[i].mid); e8(0); arrive(); order[nheld++] = sub[i].kind; return; } }
static void t_subscribe(void) {
  connected(); int k = sym_param("k", 2), m = sym_param("m", 2), from = sym_param("from", 0), to = sym_param("to", S_N - 1), thin = sym_param("thin", 0), times = 0;
  for (int i = 0; i < k; i++) { Sub* u = &sub[ns]; u->kind = sym_pick(from, to, "topic"); u->unsub = i && sym_pick(0, 1, "unsubscribe"); u->qos = u->unsub || thin ? 0 : sym_pick(0, 2, "qos");
    for (int j = 0; j < i; j++) sym_assume(sub[j].kind != u->kind || (u->unsub && !sub[j].unsub && u->kind != S_PRE));
    if (u->unsub) { if (u->kind == S_PRE) theClient->unsubscribe((uint16_t) stid[S_PRE]); else theClient->unsubscribe(sname[u->kind]); } else { if (u->kind == S_PRE) theClient->subscribePredefinedId(stid[S_PRE], cbs[S_PRE], u->qos); else theClient->subscribe(sname[u->kind], cbs[u->kind], u->qos); }
    ns++; expect_sub(u, u->unsub ? "UNSUBSCRIBE is wrong" : "SUBSCRIBE is wrong"); quiet("a message too many after a request"); forget(); A(!theClient->getSubscribeManager()->isDone(), "a request is done before it is answered"); }
  for (int e = 0; e < m; e++) {
    int what = sym_pick(0, thin ? 2 : 3, "event");
    if (what == 0) { sym_assume(times < 5); times++; now += 11; turn(); for (int i = 0; i < ns; i++) if (sub[i].wait) { if (sub[i].tries < 4) expect_sub(&sub[i], "an unanswered request is not repeated"); else { sub[i].wait = 0; made[i] = !sub[i].unsub; sym_reach("given up"); } } }
    else if (what == 1 || what == 2) { int w = ns > 1 ? sym_pick(0, ns - 1, "which") : 0; Sub* u = &sub[w]; sym_assume(u->wait); if (!u->wait) sym_exit();
      if (what == 1 && u->unsub) { ebegin(0x15); e16(u->mid); arrive(); turn(); u->wait = 0; if (u->kind != S_PRE) for (int i = 0; i < ns; i++) if (!sub[i].unsub && sub[i].kind == u->kind) made[i] = sub[i].wait = 0; sym_reach("unsubscribed"); }
      else { int rc = u->unsub || thin ? 0 : sym_pick(0, 2, "return code"); ebegin(0x13); e8(thin ? 0 : sym_pick(0, 2, "granted") << 5); e16(stid[u->kind]); e16(u->mid); e8(rc); if (u->unsub) sym_reach("the wrong acknowledgement"); arrive(); turn();
        if (!u->unsub) { u->wait = 0; if (rc == 0) { holds[u->kind] = made[w] = 1; order[nheld++] = u->kind; sym_reach("subscribed"); } else sym_reach("refused"); } } }
    else { int t = sym_pick(0, 1, "kind"), mid = sym_u16("stray"); for (int i = 0; i < ns; i++) sym_assume(sub[i].mid != mid); ebegin(t ? 0x13 : 0x15); if (t) { e8(0); e16(5); } e16(mid); if (t) e8(0); arrive(); turn(); sym_reach("stray"); }
    quiet("a message too many"); forget(); A(theClient->getSubscribeManager()->isDone() == !waiting(), "done is not what it says"); }
  if (sym_param("re", 0)) {                  /* the client connects anew with a clean session: what it subscribed is subscribed again */
    sym_assume(!waiting()); if (waiting()) sym_exit();
    idle = bye; theClient->getGwProxy()->disconnect(0); forget(); nheld = 0; idle = again; theClient->getGwProxy()->connect(); idle = 0; quiet("a message too many after the client is back");
    memset(holds, 0, sizeof holds); for (int i = 0; i < ns; i++) if (made[i]) { A(back[i] == 2, "a subscription is not made again"); holds[sub[i].kind] = 1; } sym_reach("subscribed again"); }
  /* then messages */
  int moved = 0, last = 0;
  static const int lens[] = { 0, 2, 247, 248, 300 };
  for (int e = 0; e < sym_param("n", 1); e++) {
    int what = sym_pick(0, 1, "receives"), tid, type, want; 
    if (what == 0) { int w = sym_pick(from, to, "topic of the message"); sym_assume(holds[w] && w < S_MULTI); if (!holds[w] || w >= S_MULTI) sym_exit(); tid = w == S_SHORT ? 'a' << 8 | 'b' : w == S_LONGER && moved ? moved : stid[w]; type = stype[w]; want = w; sym_reach("a topic subscribed"); }
    else { static const char* ts[] = { "a/x", "a/x/c", "b/x/c", "b/x/d", "b/x/e", "room/11", "x" }; const char* t = ts[sym_pick(0, 6, "name")]; int id = sym_u16("topic id"), mid = sym_u16("message id"); sym_assume(id > 0x300 && id != last); last = id;
      want = -1; for (int i = 0; i < nheld && want < 0; i++) if (matches(order[i], t)) want = order[i];
      ebegin(0x0a); e16(id); e16(mid); es(t, strlen(t)); arrive(); turn(); ebegin(0x0b); e16(id); e16(mid); e8(want < 0 ? 2 : 0); sent(0, "REGISTER is not answered as it should be"); quiet("a message too many after REGISTER"); forget(); tid = id; type = 0; if (want == S_LONGER) moved = id; sym_reach(want < 0 ? "REGISTER refused" : "REGISTER taken"); if (want < 0) continue; }
    int qos = sym_pick(0, 1, "qos of the message"), mid = sym_u16("id of the message"), n = lens[sym_pick(0, 4, "length")]; uint8_t pay[300]; for (int i = 0; i < n; i++) pay[i] = i; sym_bytes(pay, n < 2 ? n : 2, "payload");
    ebegin(0x0c); e8(qos << 5 | type); e16(tid); e16(mid); es(pay, n); calls = 0; arrive(); turn();
    A(calls == 1, "a message is not given to the application once"); A(called == want, "a message is given to the wrong function"); A(cn == n && memcmp(cpay, pay, n) == 0, "a message is given to the application changed");
    if (qos) { ebegin(0x0d); e16(tid); e16(mid); e8(0); sent(0, "PUBACK is wrong"); }
    quiet("a message too many after PUBLISH"); forget(); sym_reach("message"); }
  free(arrived); arrived = 0; sym_reach("end"); }

/* a topic is subscribed anew, with another function and another QoS, or subscribed when it has an id already */
static void t_anew(void) {
  connected(); int k = sym_pick(S_PRE, S_MULTI, "topic"), n = 2 + sym_pick(0, 1, "times"), pub = sym_pick(0, 1, "published before");
  if (pub) { sym_assume(k == S_NAME || k == S_LONGER); if (k != S_NAME && k != S_LONGER) sym_exit(); uint8_t p[2] = { 1, 2 }; theClient->publish(sname[k], p, 2, 0, false); turn(); A(no > io, "a topic without an id is not registered"); int m = out16(4); ebegin(0x0a); e16(0); e16(m); es(sname[k], strlen(sname[k])); sent(0, "REGISTER is wrong"); quiet("a message too many"); forget();
    ebegin(0x0b); e16(stid[k]); e16(m); e8(0); arrive(); turn(); ebegin(0x0c); e8(0); e16(stid[k]); e16(0); es(p, 2); sent(0, "PUBLISH is wrong"); quiet("a message too many"); forget(); sym_reach("published before"); }
  for (int i = 0; i < n; i++) { Sub* u = &sub[0]; ns = 1; memset(u, 0, sizeof *u); u->kind = k; u->qos = sym_pick(0, 2, "qos"); TopicCallback f = cbs[i]; if (k == S_PRE) theClient->subscribePredefinedId(stid[S_PRE], f, u->qos); else theClient->subscribe(sname[k], f, u->qos);
    expect_sub(u, "SUBSCRIBE is wrong"); quiet("a message too many after a request"); forget(); ebegin(0x13); e8(u->qos << 5); e16(stid[k]); e16(u->mid); e8(0); arrive(); turn(); quiet("a message too many after SUBACK"); forget(); A(theClient->getSubscribeManager()->isDone(), "a request is not done when it is answered"); }
  int tid = k == S_SHORT ? 'a' << 8 | 'b' : stid[k], type = stype[k], mid = sym_u16("id of the message");
  if (k == S_MULTI) { tid = 0x333; ebegin(0x0a); e16(tid); e16(mid); es("a/x", 3); arrive(); turn(); ebegin(0x0b); e16(tid); e16(mid); e8(0); sent(0, "REGISTER is not answered as it should be"); forget(); }
  uint8_t pay[2]; sym_bytes(pay, 2, "payload"); ebegin(0x0c); e8(type); e16(tid); e16(mid); es(pay, 2); calls = 0; arrive(); turn(); A(calls == 1, "a message is not given to the application once"); A(called == n - 1, "a message is not given to the function of the last subscription"); A(cn == 2 && memcmp(cpay, pay, 2) == 0, "a message is given to the application changed"); quiet("a message too many after PUBLISH");
  free(arrived); arrived = 0; sym_reach("end"); }

/* ---- the client keeps itself alive ---- */
static void t_alive(void) {
  int keep = 60; connected(); theClient->getGwProxy()->setPingReqMode(true); uint32_t t0 = now, asked = 0; int wait = 0, tries = 0, lost = 0; static const int dt[] = { 1, 10, 11, 60, 61 };
  for (int e = sym_param("k", 4); e; e--) {
    int what = sym_pick(0, 2, "event");
    if (what == 0) { now += dt[sym_pick(0, 4, "time")]; turn();
      if (!lost && !wait && now - t0 > (uint32_t) keep) { ebegin(0x16); sent(0, "PINGREQ is not sent in time"); wait = 1; tries = 1; asked = now; sym_reach("ping"); }
      else if (wait && now - asked > 10) { if (tries < 3) { ebegin(0x16); sent(0, "an unanswered PINGREQ is not repeated"); tries++; asked = now; } else { wait = 0; lost = 1; sym_reach("lost"); } } }
    else if (what == 1) { ebegin(0x17); arrive(); turn(); if (wait) { wait = 0; t0 = now; sym_reach("alive"); } }
    else { sym_assume(!lost); uint8_t b = 1; theClient->publish((uint16_t) 7, &b, 1, 0, false); ebegin(0x0c); e8(1); e16(7); e16(0); e8(1); sent(0, "PUBLISH is wrong"); t0 = now; }
    quiet("a message too many"); forget(); A((theClient->getGwProxy()->getStatus() == 0) == (lost != 0), "the state of the connection is wrong"); }
  free(arrived); arrived = 0; sym_reach("end"); }
/* ---- whatever arrives ---- */
/* the message in the n bytes at b: its type, *m its bytes without length and *k their number; 0: none the client takes */
static int whole(const uint8_t* b, int n) { if (n < 1) return 0; if (b[0] != 1) return b[0] >= 2 && b[0] <= n ? b[0] : 0; if (n < 3) return 0; int l = b[1] << 8 | b[2]; return l >= 4 && l <= n ? l : 0; }
static int taken(const uint8_t* b, int n, const uint8_t** m, int* k) {
  int l = whole(b, n), p = n > 0 && b[0] == 1 ? 3 : 1; if (!l) return 0;
  if (b[p] == 0xfe) { b += l; n -= l; l = whole(b, n); if (!l) return 0; p = b[0] == 1 ? 3 : 1; }
  *m = b + p; *k = l - p; int t = b[p]; static const uint8_t min[] = { 4, 0, 2, 0, 0, 2, 1, 0, 1, 0, 5, 6, 6, 6, 3, 3, 3, 0, 0, 7, 0, 3, 0, 1, 1 };
  return t < 0x19 && min[t] && *k >= min[t] ? t : t == 0 && *k >= 4 ? 0x100 : 0; }
static uint8_t* any; static int any_n; static uint8_t past[24];
static void anything(void) { int n = sym_param("n", 8), from = sym_param("from", 0), e = sym_param("encap", 0); any_n = sym_pick(from, n, "length"); free(any); any = sym_bytes_new(any_n, "datagram"); if (e && any_n > 1) { any[0] = 2; any[1] = 0xfe; } sym_bytes(past, 24, "behind it"); before = past; in_msg = any; in_len = any_n; in_ip = GW_IP; in_port = GW_PORT; }
static int began;
static void wait_any(void) { if (began) { quiet("something is sent for a message which is none"); sym_reach("waits on"); sym_exit(); }
  int st = sym_param("st", 1); if (st == 2 && no && out[no - 1].bcast) { greet(); return; }
  no = io; anything(); began = 1; const uint8_t* m; int k, t = taken(any, any_n, &m, &k), want = st == 1 ? 2 : 5; sym_assume(t != want); if (t == want) sym_exit(); }
static void t_anything(void) {
  if (sym_param("st", 0)) { theClient->initialize(&theNetcon, &theMqcon); idle = wait_any; theClient->getGwProxy()->connect(); A(0, "connected by a message which does not say so"); return; }
  connected();
  Sub* u = &sub[ns++]; u->kind = S_NAME; theClient->subscribe(sname[S_NAME], cbs[S_NAME], 0); expect_sub(u, "SUBSCRIBE is wrong"); ebegin(0x13); e8(0); e16(stid[S_NAME]); e16(u->mid); e8(0); arrive(); turn(); quiet("a message too many"); forget();
  uint8_t p[2] = { 1, 2 }; int q = sym_pick(1, 2, "qos"); theClient->publish((uint16_t) 0x1234, p, 2, q, false); theClient->publish("x/y", p, 2, 0, false); theClient->subscribe(sname[S_LONGER], cbs[S_LONGER], 0); A(no - io == 3, "the requests are not sent"); io = no; forget();
  calls = 0; anything(); const uint8_t* m = 0; int k = 0, t = taken(any, any_n, &m, &k); turn(); before = 0;
  A(no - io <= 1, "more than one message is sent for one"); A(calls <= 1, "a message is given to the application more than once");
  const uint8_t* o = no > io ? out[io].b : 0; int on = no > io ? out[io].n : 0;
  if (!t) { A(!calls && !o, "a message which is none has an effect"); A(!theClient->getPublishManager()->isDone() && !theClient->getSubscribeManager()->isDone(), "a request is ended by a message which is none"); sym_reach("ignored"); }
  else if (t == 0x0c) { if (sym_concretize(((m[1] & 3) == 0) & (m[2] == stid[S_NAME] >> 8) & (m[3] == (stid[S_NAME] & 255)))) { A(calls == 1 && called == S_NAME, "a message is not given to its function"); sym_reach("message"); } if (calls) A(cn == k - 6 && memcmp(cpay, m + 6, cn) == 0, "a message is given to the application changed"); if (o) A(on == 7 && o[1] == 0x0d && memcmp(o + 2, m + 2, 4) == 0, "PUBACK is wrong"); sym_reach("PUBLISH"); }
  else { A(!calls, "another message is given to the application"); if (t == 0x0a) { A(o && on == 7 && o[1] == 0x0b && memcmp(o + 2, m + 1, 4) == 0, "REGISTER is not answered as it should be"); sym_reach("REGISTER"); } else if (t == 0x0f) { if (o) A(on == 4 && o[1] == 0x10 && memcmp(o + 2, m + 1, 2) == 0, "PUBREL is wrong"); sym_reach("PUBREC"); } else if (t == 0x0b) sym_reach("REGACK"); else if (t != 0x0d) A(!o, "a message is sent for one that needs none"); }
  io = no; forget(); if (t == 0x0a) { sym_reach("end"); return; }
  uint8_t pay[2]; sym_bytes(pay, 2, "payload"); ebegin(0x0c); e8(0); e16(stid[S_NAME]); e16(0); es(pay, 2); calls = 0; arrive(); turn(); A(calls == 1 && called == S_NAME && cn == 2 && memcmp(cpay, pay, 2) == 0, "the next message is not received as usual"); quiet("a message too many"); sym_reach("end"); }
void sym_main(void) { switch (sym_param("what", 0)) { case 0: t_connect(); break; case 1: t_publish(); break; case 2: t_subscribe(); break; case 3: t_alive(); break; case 4: t_anew(); break; case 5: t_anything(); break; } }
