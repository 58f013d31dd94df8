// Map from message id to the topic it was sent with. params: k steps; deep = n: additions and erasures of n ids only; what = 0 operations against a model, 1 bound
#include "sym.h"
#include "MQTTSNGWTopic.h"
#include <string.h>
#include <stdlib.h>
using namespace MQTTSNGW;
#define A(c, l) sym_assert((c), l)
static struct { uint16_t mid, tid; int type, wild; } m[16]; static int mc;
static int find(uint16_t id) { for (int i = 0; i < mc; i++) if (m[i].mid == id) return i; return -1; }
static char tail[8];
static void mktopic(MQTTSN_topicid* t, int type, char* name, int l) { memset(t, 0, sizeof *t); t->type = (MQTTSN_topicTypes)type; if (type == 0) { t->data.long_.name = name; t->data.long_.len = l; } else t->data.id = 0x4142; }
void sym_main(void) {
  TopicIdMap* map = new TopicIdMap(); int seen = 0, deep = sym_param("deep", 0), k = sym_param("k", 3), s, i; MQTTSN_topicid t;
  if (sym_param("what", 0) == 0) {
    for (s = 0; s < k; s++) {
      int op = (int)sym_pick(0, deep ? 1 : 3, "op"); uint16_t id = deep ? (uint16_t)sym_pick(1, seen < deep ? seen + 1 : deep, "one of") : sym_u16("msgid");
      if (id > seen && deep) seen = id;
      if (op == 0) {
        int type = deep ? 1 : (int)sym_pick(0, 2, "type"), l = 0, wild = 0; uint16_t tid = sym_u16("topicid"); char* raw = 0;
        if (type == 0) { l = (int)sym_pick(1, sym_param("len", 3), "namelen"); raw = (char*)malloc(l + 1); sym_bytes(raw, l, "name"); raw[l] = (char)sym_u8("following"); for (i = 0; i < l; i++) { sym_assume(raw[i] != 0); wild |= (raw[i] == '#') | (raw[i] == '+'); } }
        mktopic(&t, type, raw, l); TopicIdMapElement* e = map->add(id, tid, &t); if (raw) free(raw);
        if (tid == 0 && type != 2) { A(e == 0, "an entry without topic id was added"); }
        else { A(e != 0, "an entry was refused although there is room"); i = find(id); if (i >= 0) { sym_reach("replaced"); for (; i + 1 < mc; i++) m[i] = m[i + 1]; mc--; } m[mc].mid = id; m[mc].tid = tid; m[mc].type = type; m[mc++].wild = wild; if (wild) sym_reach("wildcard"); }
      } else if (op == 1) { map->erase(id); i = find(id); if (i >= 0) { sym_reach("erased"); for (; i + 1 < mc; i++) m[i] = m[i + 1]; mc--; } }
      else if (op == 2) { TopicIdMapElement* e = map->getElement(id); A((e != 0) == (find(id) >= 0), "a message id is known that was not sent, or a sent one is unknown"); }
      else { map->clear(); mc = 0; sym_reach("cleared"); }
      for (i = 0; i < mc; i++) { TopicIdMapElement* e = map->getElement(m[i].mid); A(e != 0, "the topic of an outstanding message was lost"); if (!e) sym_exit(); A(e->getTopicType() == m[i].type, "an outstanding message changed its topic kind"); A(e->getTopicId() == (m[i].wild ? 0 : m[i].tid), "the topic id of an outstanding message is wrong (0 for a wildcard subscription)"); sym_observe("tid", e->getTopicId()); }
    }
  } else {                        /* 20 outstanding messages always fit, whatever was acknowledged before; the map never grows past a fixed bound */
    int junk = (int)sym_pick(0, 30, "acksForUnknownMessages"), got = 0; for (i = 0; i < junk; i++) map->erase((uint16_t)(1000 + i));
    for (i = 0; i < 200; i++) { mktopic(&t, 1, 0, 0); if (map->add((uint16_t)(i + 1), 7, &t)) got++; }
    A(got >= 20, "fewer than 20 outstanding messages are remembered"); A(got <= 40, "the number of remembered messages is not bounded");
    sym_observe("got", got); for (i = 0; i < got; i++) map->erase((uint16_t)(i + 1)); mktopic(&t, 1, 0, 0); A(map->add(500, 9, &t) != 0, "an entry was refused although there is room"); }
  delete map; sym_reach("end"); }
