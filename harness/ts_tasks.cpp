/* C46: the tasks of the client library of the tester. The connection to the gateway is a stand-in: each look for messages is the moment when time passes, a publication is answered, a topic is
   registered or a message for the application comes. */
#define TESTER_TASKS
#include "testerfix.h"
#include <sys/time.h>
#include <time.h>
OnPublishList theOnPublishList[] = { { MQTTSN_TOPIC_TYPE_NORMAL, 0, 0, 0, 0 } };
LMqttsnConfig theMqcon = { 60, true, 0, "", "", 0, false }; LUdpConfig theNetcon = { "c", { 225, 1, 1, 1 }, 1883, 12001 };
extern LMqttsnClient* theClient;
static uint32_t now = 1000;
extern "C" time_t time(time_t* t) { if (t) *t = now; return now; }
extern "C" int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = now; tv->tv_usec = 0; return 0; }
enum { NT = 3, NP = 24 };
static int nt, calls[NT], at = -1, late[NT], todo, acts, slow, over, rounds; static uint32_t last[NT];
struct Pub { int live, task, qos, id, named, rec; };
static Pub pub[NP]; static uint16_t mid; static int cur = -1;
static int pending(int t) { int k = 0; for (int i = 0; i < NP; i++) k += pub[i].live && pub[i].task == t; return k; }
static int all(void) { int k = 0; for (int i = 0; i < NP; i++) k += pub[i].live; return k; }
extern TaskList theTaskList[];
static int due(int t) { return last[t] + (uint32_t) theTaskList[t].interval <= now && !pending(t); }
static char name[] = "abc"; static uint8_t load[2] = { 1, 2 };
static void one(int qos, int named) { Pub* p = 0; for (int i = 0; i < NP && !p; i++) if (!pub[i].live) p = &pub[i]; if (!p) return; p->live = 1; p->task = cur; p->qos = qos; p->id = qos ? mid + 1 : 0; p->named = named; p->rec = 0; if (named) theClient->publish(name, load, (uint16_t) 2, qos); else theClient->publish((uint16_t) 1, load, (uint16_t) 2, qos); }
static void task(int t) {
  A(t > at, "a task runs out of its turn"); at = t; A(due(t), "a task runs though it is not due, or its publications are under way"); calls[t]++; last[t] = now; late[t] = 0; cur = t;
  if (!over && acts > 0) switch (acts--, sym_pick(0, 5, "task")) { case 0: break; case 1: one(0, 0); break; case 2: one(1, 0); break; case 3: one(2, 0); break; case 4: one(1, 0); one(1, 1); break; case 5: one(0, 1); break; }
  cur = -1; }
static void task0(void) { task(0); } static void task1(void) { task(1); } static void task2(void) { task(2); }
TaskList theTaskList[] = { { task0, 0, 0, 0 }, { task1, 0, 0, 0 }, { task2, 0, 0, 0 }, { 0, 0, 0, 0 } };
TestList theTestList[] = { { 0, 0, 0 } };
static int received(uint8_t*, uint16_t) { cur = -1; int k = sym_pick(0, 2, "answer"); if (k) one(k == 1, k == 2); return 0; }
static void ack(Pub* p, int type) { uint8_t m[8] = { (uint8_t) type, 0, 0, 0, 0, 0 }; int o = type == MQTTSN_TYPE_PUBACK ? 3 : 1; if (o == 3) m[2] = 1; m[o] = p->id >> 8; m[o + 1] = p->id; theClient->getPublishManager()->responce(m, o + (o == 3 ? 3 : 2)); }
/* the gateway answers a publication: the last of its messages, or those before */
static void answer(Pub* p) { if (p->named) { theClient->getPublishManager()->sendSuspend(name, 5, MQTTSN_TOPIC_TYPE_NORMAL); return; } if (p->qos == 1) { p->live = 0; ack(p, MQTTSN_TYPE_PUBACK); } else if (!p->rec) { p->rec = 1; ack(p, MQTTSN_TYPE_PUBREC); } else { p->live = 0; ack(p, MQTTSN_TYPE_PUBCOMP); } }

namespace linuxAsyncClient {
LUdpPort::LUdpPort() {} LUdpPort::~LUdpPort() {} void LUdpPort::close() {} bool LUdpPort::open(LUdpConfig*) { return true; } bool LUdpPort::isUnicast() { return true; } int LUdpPort::unicast(const uint8_t*, uint32_t n, uint32_t, uint16_t) { return n; } int LUdpPort::multicast(const uint8_t*, uint32_t n) { return n; } bool LUdpPort::checkRecvBuf() { return false; } int LUdpPort::recv(uint8_t*, uint16_t, bool, uint32_t*, uint16_t*) { return 0; }
void LGwProxy::connect(void) {} void LGwProxy::reconnect(void) {} void LGwProxy::setPingReqTimer(void) {} uint16_t LGwProxy::getNextMsgId() { return ++mid; } uint16_t LGwProxy::registerTopic(char*, uint16_t) { return 0; }
int LGwProxy::writeMsg(const uint8_t* m) { if (m[1] != MQTTSN_TYPE_PUBLISH) return 0; int id = m[5] << 8 | m[6], n = 0; for (int i = 0; i < NP; i++) { Pub* p = &pub[i]; if (!p->live || p->id != id) continue; if (id == 0) { if (n || p->named != ((m[2] & 3) == 0)) continue; p->live = 0; } else p->named = 0; n++; } A(n == 1, "a publication goes out which is none, or is over"); return 0; }
int LGwProxy::getMessage(void) {
  at = -1; for (int t = 0; t < nt; t++) { late[t] = due(t) && all() <= MAX_INFLIGHT_MSG / 2 ? late[t] + 1 : 0; A(late[t] < 4, "a task does not run though it is due and its publications are over"); }
  theClient->getPublishManager()->checkTimeout();
  if (todo > 0) { todo--; switch (sym_pick(0, 3 + slow, "event")) {
      case 0: break; case 1: now++; break; case 4: now += MQTTSN_TIME_RETRY + 1; break;
      case 3: { int k = sym_pick(0, 2, "which"), i; Pub* p = 0; for (i = 0; i < NP && k >= 0; i++) if (pub[i].live && k-- == 0) p = &pub[i]; if (!p) sym_exit(); int twice = sym_pick(0, 1, "twice"); Pub was = *p; answer(p); if (twice && was.id && !was.named) ack(&was, was.qos == 1 ? MQTTSN_TYPE_PUBACK : was.rec ? MQTTSN_TYPE_PUBCOMP : MQTTSN_TYPE_PUBREC); sym_reach("answered"); break; }
      case 2: { uint8_t m[8] = { MQTTSN_TYPE_PUBLISH, MQTTSN_TOPIC_TYPE_PREDEFINED, 0, 9, 0, 0, 7 }; int was = cur; theClient->getPublishManager()->published(m, 7); cur = was; sym_reach("received"); break; } } }
  else { over = 1; for (int i = 0; i < NP; i++) if (pub[i].live) { answer(&pub[i]); break; } if (++rounds > 40) { A(0, "publications are never over"); sym_exit(); } }
  return 0; } }
extern "C" void sym_main(void) {
  int iv = sym_param("iv", -1); slow = sym_param("slow", 0); nt = sym_param("tasks", 2); todo = sym_param("k", 4); acts = sym_param("acts", 2); for (int t = 0; t < nt; t++) theTaskList[t].interval = iv < 0 ? sym_pick(0, 2, "interval") : t ? iv % 10 : iv / 10; memset(&theTaskList[nt], 0, sizeof(TaskList)); 
  theClient = new LMqttsnClient(); theClient->addTask(true); theClient->getTopicTable()->add(0, MQTTSN_TOPIC_TYPE_PREDEFINED, 9, received, 0);
  while (rounds < 3 || all()) { theClient->run(); A(!theClient->getPublishManager()->isDone() == 0, "publications are left behind"); if (todo <= 0) rounds++; }
  now += 2; for (int i = 0; i < 2; i++) { int was[NT]; memcpy(was, calls, sizeof was); uint32_t then = now; theClient->run(); for (int t = 0; t < nt; t++) A(calls[t] == was[t] + (i == 0 || theTaskList[t].interval == 0), "a task does not run when it is due"); if (now != then) sym_exit(); }
  A(all() == 0, "a publication is lost"); sym_reach(calls[0] + calls[1] > 4 ? "many" : "few"); sym_reach("end"); }
