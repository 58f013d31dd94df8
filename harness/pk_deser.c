/* MQTTSNPacket deserializers on arbitrary bytes. params: msg = which deserializer, n0..n1 = number of bytes received */
#include "sym.h"
#include "MQTTSNPacket.h"
#include "snref.h"
#include <stdlib.h>
static uint8_t *b; static int n, hl, decl, body;
static int be(int o) { return b[o] * 256 + b[o + 1]; }
#define IN(p, l) ((l) >= 0 && ((l) == 0 || ((uint8_t*)(p) >= b + hl && (uint8_t*)(p) + (l) <= b + decl)))
#define OK(c) sym_assert(c, "a deserialized field is not what the packet says: " #c)
#define INSIDE(p, l) sym_assert(IN(p, l), "a deserializer returned data from outside the packet")
void sym_main(void) {
  int msg = sym_param("msg", T_PUBLISH), rc = -7, min = 1, exact = 1, i = -77, q = 9, wf, var = 0; uint8_t d = 9, r = 9, t8 = 9; uint16_t p = 0, t = 0; MQTTSN_topicid tp; MQTTSNString s = MQTTSNString_initializer; uint8_t* pl = 0; int pln = -9;
  MQTTSNPacket_connectData o = MQTTSNPacket_connectData_initializer;
  n = (int)sym_pick(sym_param("n0", 0), sym_param("n1", 16), "received"); b = malloc(n); sym_bytes(b, n, "packet");
  memset(&tp, 0x5a, sizeof tp); s.cstring = "stale"; s.lenstring.len = -5;
  switch (msg) {
    case T_ADVERTISE: rc = MQTTSNDeserialize_advertise(&d, &p, b, n); min = 4; break;
    case T_SEARCHGW: rc = MQTTSNDeserialize_searchgw(&d, b, n); min = 2; break;
    case T_GWINFO: rc = MQTTSNDeserialize_gwinfo(&d, &p, &pl, b, n); min = 2; var = 1; break;
    case T_CONNECT: rc = MQTTSNDeserialize_connect(&o, b, n); min = 5; var = 1; break;
    case T_CONNACK: rc = MQTTSNDeserialize_connack(&i, b, n); min = 2; break;
    case T_WILLTOPICREQ: rc = MQTTSNDeserialize_willtopicreq(b, n); break;
    case T_WILLMSGREQ: rc = MQTTSNDeserialize_willmsgreq(b, n); break;
    case T_WILLTOPIC: rc = MQTTSNDeserialize_willtopic(&q, &r, &s, b, n); var = 1; break;
    case T_WILLTOPICUPD: rc = MQTTSNDeserialize_willtopicupd(&q, &r, &s, b, n); var = 1; break;
    case T_WILLMSG: rc = MQTTSNDeserialize_willmsg(&s, b, n); var = 1; break;
    case T_WILLMSGUPD: rc = MQTTSNDeserialize_willmsgupd(&s, b, n); var = 1; break;
    case T_REGISTER: rc = MQTTSNDeserialize_register(&t, &p, &s, b, n); min = 5; var = 1; break;
    case T_REGACK: rc = MQTTSNDeserialize_regack(&t, &p, &d, b, n); min = 6; break;
    case T_PUBACK: rc = MQTTSNDeserialize_puback(&t, &p, &d, b, n); min = 6; break;
    case T_PUBLISH: rc = MQTTSNDeserialize_publish(&d, &q, &r, &p, &tp, &pl, &pln, b, n); min = 6; var = 1; break;
    case T_PUBREC: rc = MQTTSNDeserialize_ack(&t8, &p, b, n); min = 3; break;
    case T_SUBSCRIBE: rc = MQTTSNDeserialize_subscribe(&d, &q, &p, &tp, b, n); min = 4; var = 1; break;
    case T_UNSUBSCRIBE: rc = MQTTSNDeserialize_unsubscribe(&p, &tp, b, n); min = 4; var = 1; break;
    case T_SUBACK: rc = MQTTSNDeserialize_suback(&q, &t, &p, &d, b, n); min = 7; break;
    case T_UNSUBACK: rc = MQTTSNDeserialize_unsuback(&p, b, n); min = 3; break;
    case T_PINGREQ: rc = MQTTSNDeserialize_pingreq(&s, b, n); var = 1; break;
    case T_PINGRESP: rc = MQTTSNDeserialize_pingresp(b, n); break;
    case T_DISCONNECT: rc = MQTTSNDeserialize_disconnect(&i, b, n); var = 1; break;
    case T_WILLTOPICRESP: rc = MQTTSNDeserialize_willtopicresp(&i, b, n); min = 2; break;
    case T_WILLMSGRESP: rc = MQTTSNDeserialize_willmsgresp(&i, b, n); min = 2; break;
    default: sym_exit();
  }
  sym_observe("rc", (uint64_t)(int64_t)rc);
  wf = 0; hl = 1; decl = 0;
  if (n >= 1) { if (b[0] != 1) { decl = b[0]; wf = 1; } else if (n >= 3) { hl = 3; decl = be(1); wf = 1; } }
  body = decl - hl; wf = wf && decl <= n && body >= min;
  if (wf) { t8 = b[hl]; if (msg == T_PUBREC) wf = t8 == T_PUBREC || t8 == T_PUBREL || t8 == T_PUBCOMP; else wf = t8 == msg; }
  if (!wf) { sym_assert(rc != 1, "a deserializer accepted a packet that is too short or of another type"); sym_reach("rejected"); sym_exit(); }
  exact = var || body == min;
  if (msg == T_CONNECT && b[hl + 2] != 1) exact = 0;
  if (msg == T_PUBLISH && (b[hl + 1] & 0x63) == 0x60 && be(hl + 2) > body - 6) { sym_assert(rc != 1, "a QoS -1 topic longer than the message was accepted"); exact = 0; }
  if ((msg == T_SUBSCRIBE || msg == T_UNSUBSCRIBE) && (b[hl + 1] & 3) != 0 && (body < 6 || (b[hl + 1] & 3) == 3)) { if (body < 6) sym_assert(rc != 1, "a missing topic id was accepted"); exact = 0; }
  if (msg == T_DISCONNECT && body != 1 && body != 3) exact = 0;
  if ((msg == T_WILLTOPICREQ || msg == T_WILLMSGREQ) && hl == 3) exact = 0;      /* these accept only the one octet length form */
  if (exact) sym_assert(rc == 1, "a well formed packet was rejected");
  if (rc != 1) sym_exit();
  sym_reach("accepted");
  switch (msg) {
    case T_ADVERTISE: OK(d == b[hl + 1]); OK(p == be(hl + 2)); break;
    case T_SEARCHGW: OK(d == b[hl + 1]); break;
    case T_GWINFO: OK(d == b[hl + 1]); OK(p == body - 2); if (p) { OK(pl == b + hl + 2); INSIDE(pl, p); } else OK(pl == 0); break;
    case T_CONNECT: OK(o.cleansession == ((b[hl + 1] >> 2) & 1)); OK(o.willFlag == ((b[hl + 1] >> 3) & 1)); OK(o.duration == be(hl + 3)); s = o.clientID; min = 5; goto str;
    case T_CONNACK: case T_WILLTOPICRESP: case T_WILLMSGRESP: OK((uint8_t)i == b[hl + 1]); break;
    case T_WILLTOPIC: case T_WILLTOPICUPD: if (body > 1) { OK(q == ((b[hl + 1] >> 5) & 3)); OK(r == ((b[hl + 1] >> 4) & 1)); } min = body > 1 ? 2 : 1; goto str;
    case T_REGISTER: OK(t == be(hl + 1)); OK(p == be(hl + 3)); goto str;
    case T_REGACK: case T_PUBACK: OK(t == be(hl + 1)); OK(p == be(hl + 3)); OK(d == b[hl + 5]); break;
    case T_PUBLISH: OK(d == b[hl + 1] >> 7); OK(q == ((b[hl + 1] >> 5) & 3)); OK(r == ((b[hl + 1] >> 4) & 1)); OK((int)tp.type == (b[hl + 1] & 3)); OK(p == be(hl + 4));
      if (tp.type == MQTTSN_TOPIC_TYPE_NORMAL && q == 3) { OK(tp.data.long_.len == be(hl + 2)); INSIDE(tp.data.long_.name, tp.data.long_.len); OK(pln == body - 6 - tp.data.long_.len); }
      else { if (tp.type <= 1) OK(tp.data.id == be(hl + 2)); else { OK((uint8_t)tp.data.short_name[0] == b[hl + 2]); OK((uint8_t)tp.data.short_name[1] == b[hl + 3]); } OK(pln == body - 6); }
      INSIDE(pl, pln); OK(pl + pln == b + decl); break;
    case T_PUBREC: OK(t8 == b[hl]); OK(p == be(hl + 1)); break;
    case T_SUBSCRIBE: OK(d == b[hl + 1] >> 7); OK(q == ((b[hl + 1] >> 5) & 3)); /* fall through */
    case T_UNSUBSCRIBE: OK(p == be(hl + 2)); OK((int)tp.type == (b[hl + 1] & 3));
      if (tp.type == 0) { OK(tp.data.long_.len == body - 4); INSIDE(tp.data.long_.name, tp.data.long_.len); if (body > 4) OK((uint8_t*)tp.data.long_.name == b + hl + 4); }
      else if (tp.type == 1) OK(tp.data.id == be(hl + 4)); else if (tp.type == 2) { OK((uint8_t)tp.data.short_name[0] == b[hl + 4]); OK((uint8_t)tp.data.short_name[1] == b[hl + 5]); } break;
    case T_SUBACK: OK(q == ((b[hl + 1] >> 5) & 3)); OK(t == be(hl + 2)); OK(p == be(hl + 4)); OK(d == b[hl + 6]); break;
    case T_UNSUBACK: OK(p == be(hl + 1)); break;
    case T_DISCONNECT: OK(i == (body == 3 ? be(hl + 1) : -1)); break;
    case T_WILLMSG: case T_WILLMSGUPD: case T_PINGREQ:
    str: OK(s.cstring == 0); OK(s.lenstring.len == body - min); INSIDE(s.lenstring.data, s.lenstring.len); if (body > min) OK((uint8_t*)s.lenstring.data == b + hl + min); break;
    default: break;
  }
  free(b); sym_reach("end"); }
