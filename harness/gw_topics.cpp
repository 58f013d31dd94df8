// Topic registry of a client. what = 0 operation sequence against a model, 1 capacity
#include "sym.h"
#include "MQTTSNGWTopic.h"
#include <string.h>
#include <stdlib.h>
using namespace MQTTSNGW;
#define A(c, l) sym_assert((c), l)
static char nm[16][8]; static int nl[16];
static void normal(MQTTSN_topicid* t, char* n, int l) { memset(t, 0, sizeof *t); t->type = MQTTSN_TOPIC_TYPE_NORMAL; t->data.long_.name = n; t->data.long_.len = l; }
struct Ent { Topic* t; int pre; uint16_t id; char n[8]; int l; };
static Ent m[16]; static int mc;
static int same(const Ent& e, const char* n, int l) { return e.l == l && memcmp(e.n, n, l) == 0; }
static void seq() {
  int seen = 0, deep = sym_param("deep", 0); Topics* ts = new Topics(); int k = sym_param("k", 4), L = sym_param("len", 2), skip = sym_param("skip", 0), i, j, s; MQTTSN_topicid t; uint16_t last = 0;
  for (i = 0; i < skip; i++) last = ts->getNextTopicId();
  for (s = 0; s < k; s++) {
    int op = (int)(deep ? sym_pick(0, 2, "op") * 2 % 5 : sym_pick(0, 4, "op")), hit = -1; if (deep && op == 2) op = 1;
    if (op == 0 || op == 1 || op == 2) {
      if (deep) { nl[s] = 1; int c = sym_pick(0, seen < deep ? seen : deep - 1, "one of"); if (c == seen) seen++; nm[s][0] = (char)('a' + c); } else { nl[s] = (int)sym_pick(1, L, "namelen"); sym_bytes(nm[s], nl[s], "name"); } for (j = 0; j < nl[s]; j++) sym_assume(nm[s][j] != 0); nm[s][nl[s]] = 0;
      for (i = 0; i < mc; i++) if (same(m[i], nm[s], nl[s])) hit = i; }
    if (op == 0 || op == 1) {
      Topic* r; uint16_t pid = 0;
      if (op == 0) { char* raw = (char*)malloc(nl[s]); memcpy(raw, nm[s], nl[s]); normal(&t, raw, nl[s]); r = ts->add(&t); free(raw); }
      else { pid = deep ? (uint16_t)(100 + s) : (uint16_t)sym_range(1, 0xfffe, "predefinedId"); r = ts->add(nm[s], pid); }
      A(r != 0, "a topic was not registered although there is room");
      if (!r) sym_exit();
      if (hit >= 0) { A(r == m[hit].t, "registering a known name did not give the topic it already has"); A(r->getTopicId() == m[hit].id, "a topic id changed"); sym_reach("known name"); }
      else {
        int distinct = 1;
        for (i = 0; i < mc; i++) distinct &= m[i].t != r;
        A(distinct, "a new name was given the entry of another name");
        if (op == 0) { uint16_t id = r->getTopicId(); A(id != 0 && id != 0xffff, "a reserved topic id (0x0000 or 0xFFFF) was assigned");
          for (i = 0; i < mc; i++) if (!m[i].pre) A(m[i].id != id, "two registered names share a topic id");
          A(r->getType() == MQTTSN_TOPIC_TYPE_NORMAL, "a registered topic is not of the normal kind"); }
        else { A(r->getTopicId() == pid && r->getType() == MQTTSN_TOPIC_TYPE_PREDEFINED, "a predefined topic did not keep its id"); }
        m[mc].t = r; m[mc].pre = op == 1; m[mc].id = r->getTopicId(); m[mc].l = nl[s]; memcpy(m[mc].n, nm[s], nl[s]); mc++; }
      sym_observe("id", r->getTopicId());
    } else if (op == 2) {
      normal(&t, nm[s], nl[s]); Topic* r = ts->getTopicByName(&t);
      A(hit >= 0 ? r == m[hit].t : r == 0, "lookup by name did not find exactly the topic of that name"); if (hit >= 0) sym_reach("found by name");
    } else if (op == 3) {
      memset(&t, 0, sizeof t); t.type = (MQTTSN_topicTypes)sym_range(0, 1, "idtype"); t.data.id = sym_u16("lookupId"); Topic* r = ts->getTopicById(&t);
      int any = 0, ok = 0; for (i = 0; i < mc; i++) if (m[i].pre == (int)t.type && m[i].id == t.data.id) { any = 1; ok |= r == m[i].t; }
      A(any ? ok : r == 0, "lookup by id did not find exactly the topic of that id and kind"); if (any) sym_reach("found by id");
    } else {
      ts->eraseNormal(); for (i = j = 0; i < mc; i++) if (m[i].pre) m[j++] = m[i]; mc = j; sym_reach("erased"); }
    A(ts->getCount() == mc, "the number of topics is wrong");
    Topic* p = ts->getFirstTopic(); for (i = 0; i < mc && p; i++) { A(p == m[i].t, "the topic list lost, gained or reordered entries"); A(p->getTopicName()->length() == (size_t)m[i].l && memcmp(p->getTopicName()->data(), m[i].n, m[i].l) == 0 && p->getTopicId() == m[i].id, "a registered topic changed its name or id"); p = ts->getNextTopic(p); }
    A(i == mc && p == 0, "the topic list lost or gained entries");
  }
  delete ts; sym_reach("end"); }
static void capacity() {
  int max = sym_param("max", 50), i; Topics* ts = new Topics(); MQTTSN_topicid t; char b[8]; uint16_t ids[64]; int erase = (int)sym_pick(0, 1, "erase");
  for (i = 0; i < max; i++) { b[0] = 'a' + i / 10; b[1] = 'a' + i % 10; b[2] = 0; Topic* r; if (i % 5 == 4) r = ts->add(b, (uint16_t)(i + 1)); else { normal(&t, b, 2); r = ts->add(&t); } A(r != 0, "a topic was not registered although there is room"); if (!r) sym_exit(); ids[i] = r->getTopicId(); }
  char q[2]; sym_bytes(q, 2, "name"); sym_assume(q[0] != 0 && q[1] != 0); int hit = -1; for (i = 0; i < max; i++) if (q[0] == 'a' + i / 10 && q[1] == 'a' + i % 10) hit = i;
  if (erase) { ts->eraseNormal(); A(ts->getCount() == max / 5, "the number of topics is wrong"); if (hit >= 0 && hit % 5 != 4) hit = -1; }
  normal(&t, q, 2); Topic* f = ts->getTopicByName(&t); A((f != 0) == (hit >= 0), "lookup by name did not find exactly the topic of that name");
  Topic* r = ts->add(&t);
  if (hit >= 0) { A(r != 0 && r == f && r->getTopicId() == ids[hit], "a registered name is not served when the table is full"); sym_reach("served"); }
  else if (!erase) { A(r == 0, "the topic table grew beyond its limit"); sym_reach("full"); }
  else { A(r != 0 && r->getTopicId() != 0, "a topic was not registered although there is room"); sym_reach("room again"); }
  A(ts->getCount() <= max, "the topic table grew beyond its limit"); sym_observe("count", ts->getCount());
  delete ts; sym_reach("end"); }
void sym_main(void) { if (sym_param("what", 0) == 0) seq(); else capacity(); }
