/* MQTTSNPacket serializers against the reference encoder and the deserializers.
   params: msg = message type, mode = 1 round trip, 2 wire format, 3 buffer bounds; n0,n1 = range of the variable-length part */
#include "sym.h"
#include "MQTTSNPacket.h"
#include "snref.h"
#include <stdlib.h>
int MQTTSNSerialize_ack(unsigned char* buf, int buflen, unsigned short packet_type, unsigned short packetid);
enum { MAXV = 600 };
static int msg; static uint8_t var[MAXV + 1]; static int vl;
static uint8_t dup, ret, clean, will, rcode, b1; static int qos; static uint16_t pid, tid, dur; static int ttype; static uint8_t sn[2]; static int tl; static int cstr;
static int has_var(void) { return msg == T_CONNECT || msg == T_PINGREQ || msg == T_WILLTOPIC || msg == T_WILLTOPICUPD || msg == T_WILLMSG || msg == T_WILLMSGUPD || msg == T_PUBLISH || msg == T_REGISTER || msg == T_SUBSCRIBE || msg == T_UNSUBSCRIBE || msg == T_GWINFO; }
static MQTTSNString mkstr(void) { MQTTSNString s = MQTTSNString_initializer; if (cstr) s.cstring = (char*)var; else { s.lenstring.data = (char*)var; s.lenstring.len = vl; } return s; }
static void mkargs(void) {
  int lo = sym_param("n0", 0), hi = sym_param("n1", 6), j;
  vl = 0;
  if (has_var()) {
    vl = (int)sym_pick(lo, hi, "varlen"); sym_bytes(var, vl, "var"); var[vl] = 0;
    if (msg == T_CONNECT || msg == T_PINGREQ || msg == T_WILLTOPIC || msg == T_WILLTOPICUPD || msg == T_WILLMSG || msg == T_WILLMSGUPD || msg == T_REGISTER) {
      cstr = (int)sym_pick(0, 1, "cstring");
      if (cstr) for (j = 0; j < vl; j++) sym_assume(var[j] != 0);
    }
  }
  dup = (uint8_t)sym_bool("dup"); ret = (uint8_t)sym_bool("retain"); clean = (uint8_t)sym_bool("clean"); will = (uint8_t)sym_bool("will");
  qos = (int)sym_range(0, 3, "qos"); pid = sym_u16("msgid"); tid = sym_u16("topicid"); dur = sym_u16("duration"); ttype = 0; b1 = sym_u8("b1");
  rcode = (uint8_t)sym_range(0, msg == T_CONNACK || msg == T_WILLTOPICRESP || msg == T_WILLMSGRESP ? 127 : 255, "rc");
  sym_bytes(sn, 2, "short");
  if (msg == T_PUBLISH || msg == T_SUBSCRIBE || msg == T_UNSUBSCRIBE) ttype = (int)sym_pick(0, 2, "topictype");
  tl = 0;
  if (msg == T_PUBLISH) { tl = (int)sym_pick(0, vl < 4 ? vl : 4, "longtopic"); if (tl) { sym_assume(ttype == 0); sym_assume(qos == 3); } }
}
static MQTTSN_topicid mktopic(void) {
  MQTTSN_topicid t; memset(&t, 0, sizeof t); t.type = (MQTTSN_topicTypes)ttype;
  if (ttype == 0 && msg == T_PUBLISH && qos == 3) { t.data.long_.name = (char*)var; t.data.long_.len = tl; }
  else if (ttype == 0 && msg != T_PUBLISH) { t.data.long_.name = (char*)var; t.data.long_.len = vl; }
  else if (ttype == 2) { t.data.short_name[0] = (char)sn[0]; t.data.short_name[1] = (char)sn[1]; }
  else t.data.id = tid;
  return t; }
static int ser(uint8_t* b, int n) {
  MQTTSNString s = mkstr(); MQTTSN_topicid t = mktopic();
  switch (msg) {
    case T_ADVERTISE: return MQTTSNSerialize_advertise(b, n, b1, dur);
    case T_SEARCHGW: return MQTTSNSerialize_searchgw(b, n, b1);
    case T_GWINFO: return MQTTSNSerialize_gwinfo(b, n, b1, (unsigned short)vl, vl ? var : 0);
    case T_CONNECT: { MQTTSNPacket_connectData o = MQTTSNPacket_connectData_initializer; o.clientID = s; o.cleansession = clean; o.willFlag = will; o.duration = dur; return MQTTSNSerialize_connect(b, n, &o); }
    case T_CONNACK: return MQTTSNSerialize_connack(b, n, rcode);
    case T_WILLTOPICREQ: return MQTTSNSerialize_willtopicreq(b, n);
    case T_WILLTOPIC: return MQTTSNSerialize_willtopic(b, n, qos, ret, s);
    case T_WILLMSGREQ: return MQTTSNSerialize_willmsgreq(b, n);
    case T_WILLMSG: return MQTTSNSerialize_willmsg(b, n, s);
    case T_REGISTER: return MQTTSNSerialize_register(b, n, tid, pid, &s);
    case T_REGACK: return MQTTSNSerialize_regack(b, n, tid, pid, rcode);
    case T_PUBLISH: return MQTTSNSerialize_publish(b, n, dup, qos, ret, pid, t, var + tl, vl - tl);
    case T_PUBACK: return MQTTSNSerialize_puback(b, n, tid, pid, rcode);
    case T_PUBCOMP: return MQTTSNSerialize_pubcomp(b, n, pid);
    case T_PUBREC: return MQTTSNSerialize_pubrec(b, n, pid);
    case T_PUBREL: return MQTTSNSerialize_pubrel(b, n, pid);
    case T_SUBSCRIBE: return MQTTSNSerialize_subscribe(b, n, dup, qos, pid, &t);
    case T_SUBACK: return MQTTSNSerialize_suback(b, n, qos, tid, pid, rcode);
    case T_UNSUBSCRIBE: return MQTTSNSerialize_unsubscribe(b, n, pid, &t);
    case T_UNSUBACK: return MQTTSNSerialize_unsuback(b, n, pid);
    case T_PINGREQ: return MQTTSNSerialize_pingreq(b, n, s);
    case T_PINGRESP: return MQTTSNSerialize_pingresp(b, n);
    case T_DISCONNECT: return MQTTSNSerialize_disconnect(b, n, dur);
    case T_WILLTOPICUPD: return MQTTSNSerialize_willtopicupd(b, n, qos, ret, s);
    case T_WILLTOPICRESP: return MQTTSNSerialize_willtopicresp(b, n, rcode);
    case T_WILLMSGUPD: return MQTTSNSerialize_willmsgupd(b, n, s);
    case T_WILLMSGRESP: return MQTTSNSerialize_willmsgresp(b, n, rcode);
  }
  return -99; }
static int refenc(uint8_t* out) {
  W w; w.n = 0; w8(&w, msg);
  switch (msg) {
    case T_ADVERTISE: w8(&w, b1); w16(&w, dur); break;
    case T_SEARCHGW: w8(&w, b1); break;
    case T_GWINFO: w8(&w, b1); wb(&w, var, vl); break;
    case T_CONNECT: w8(&w, (clean ? F_CLEAN : 0) | (will ? F_WILL : 0)); w8(&w, 1); w16(&w, dur); wb(&w, var, vl); break;
    case T_CONNACK: case T_WILLTOPICRESP: case T_WILLMSGRESP: w8(&w, rcode); break;
    case T_WILLTOPIC: case T_WILLTOPICUPD: w8(&w, F_QOS(qos) | (ret ? F_RETAIN : 0)); wb(&w, var, vl); break;
    case T_WILLMSG: case T_WILLMSGUPD: case T_PINGREQ: wb(&w, var, vl); break;
    case T_REGISTER: w16(&w, tid); w16(&w, pid); wb(&w, var, vl); break;
    case T_REGACK: case T_PUBACK: w16(&w, tid); w16(&w, pid); w8(&w, rcode); break;
    case T_PUBLISH: w8(&w, (dup ? F_DUP : 0) | F_QOS(qos) | (ret ? F_RETAIN : 0) | ttype);
      if (ttype == 2) wb(&w, sn, 2); else if (ttype == 0 && qos == 3) w16(&w, tl); else w16(&w, tid);
      w16(&w, pid); wb(&w, var, vl); break;
    case T_PUBCOMP: case T_PUBREC: case T_PUBREL: case T_UNSUBACK: w16(&w, pid); break;
    case T_SUBSCRIBE: case T_UNSUBSCRIBE: w8(&w, (msg == T_SUBSCRIBE ? (dup ? F_DUP : 0) | F_QOS(qos) : 0) | ttype); w16(&w, pid);
      if (ttype == 0) wb(&w, var, vl); else if (ttype == 1) w16(&w, tid); else wb(&w, sn, 2); break;
    case T_SUBACK: w8(&w, F_QOS(qos)); w16(&w, tid); w16(&w, pid); w8(&w, rcode); break;
    case T_DISCONNECT: if (dur > 0) w16(&w, dur); break;
    default: break;
  }
  return wfinish(&w, out); }
static int streq(MQTTSNString* s) { if (s->cstring) return 0; if (s->lenstring.len != vl) return 0; return vl == 0 || memcmp(s->lenstring.data, var, vl) == 0; }
#define EQ(c) sym_assert(c, "round trip: a field differs after decode(encode(m)): " #c)
static void roundtrip(uint8_t* b, int n) {
  int rc = -7, i = -77; uint8_t d = 9, r = 9, t8 = 9; int q = 9; uint16_t p = 0, t = 0, u = 0; MQTTSN_topicid tp; MQTTSNString s = MQTTSNString_initializer; uint8_t* pl = 0; int pln = -9; unsigned char* ad = 0;
  memset(&tp, 0x5a, sizeof tp);
  switch (msg) {
    case T_ADVERTISE: rc = MQTTSNDeserialize_advertise(&d, &p, b, n); EQ(rc == 1); EQ(d == b1); EQ(p == dur); break;
    case T_SEARCHGW: rc = MQTTSNDeserialize_searchgw(&d, b, n); EQ(rc == 1); EQ(d == b1); break;
    case T_GWINFO: rc = MQTTSNDeserialize_gwinfo(&d, &p, &ad, b, n); EQ(rc == 1); EQ(d == b1); EQ(p == vl); EQ(vl == 0 ? ad == 0 : ad != 0); if (rc == 1 && vl && ad) EQ(memcmp(ad, var, vl) == 0); break;
    case T_CONNECT: { MQTTSNPacket_connectData o = MQTTSNPacket_connectData_initializer; o.cleansession = 7; o.willFlag = 7; rc = MQTTSNDeserialize_connect(&o, b, n); EQ(rc == 1); EQ(o.cleansession == clean); EQ(o.willFlag == will); EQ(o.duration == dur); EQ(streq(&o.clientID)); break; }
    case T_CONNACK: rc = MQTTSNDeserialize_connack(&i, b, n); EQ(rc == 1); EQ(i == rcode); break;
    case T_WILLTOPICREQ: rc = MQTTSNDeserialize_willtopicreq(b, n); EQ(rc == 1); break;
    case T_WILLMSGREQ: rc = MQTTSNDeserialize_willmsgreq(b, n); EQ(rc == 1); break;
    case T_WILLTOPIC: rc = MQTTSNDeserialize_willtopic(&q, &r, &s, b, n); EQ(rc == 1); EQ(q == qos); EQ(r == ret); EQ(streq(&s)); break;
    case T_WILLTOPICUPD: rc = MQTTSNDeserialize_willtopicupd(&q, &r, &s, b, n); EQ(rc == 1); EQ(q == qos); EQ(r == ret); EQ(streq(&s)); break;
    case T_WILLMSG: rc = MQTTSNDeserialize_willmsg(&s, b, n); EQ(rc == 1); EQ(streq(&s)); break;
    case T_WILLMSGUPD: rc = MQTTSNDeserialize_willmsgupd(&s, b, n); EQ(rc == 1); EQ(streq(&s)); break;
    case T_REGISTER: rc = MQTTSNDeserialize_register(&t, &p, &s, b, n); EQ(rc == 1); EQ(t == tid); EQ(p == pid); EQ(streq(&s)); break;
    case T_REGACK: rc = MQTTSNDeserialize_regack(&t, &p, &d, b, n); EQ(rc == 1); EQ(t == tid); EQ(p == pid); EQ(d == rcode); break;
    case T_PUBACK: rc = MQTTSNDeserialize_puback(&t, &p, &d, b, n); EQ(rc == 1); EQ(t == tid); EQ(p == pid); EQ(d == rcode); break;
    case T_PUBLISH: rc = MQTTSNDeserialize_publish(&d, &q, &r, &p, &tp, &pl, &pln, b, n); EQ(rc == 1); EQ(d == dup); EQ(q == qos); EQ(r == ret); EQ(p == pid); EQ((int)tp.type == ttype); EQ(pln == vl - tl);
      if (ttype == 2) { EQ((uint8_t)tp.data.short_name[0] == sn[0]); EQ((uint8_t)tp.data.short_name[1] == sn[1]); }
      else if (ttype == 0 && qos == 3) { EQ(tp.data.long_.len == tl); if (tl) EQ(memcmp(tp.data.long_.name, var, tl) == 0); }
      else EQ(tp.data.id == tid);
      if (rc == 1 && pln == vl - tl && vl > tl) EQ(memcmp(pl, var + tl, vl - tl) == 0); break;
    case T_PUBCOMP: case T_PUBREC: case T_PUBREL: rc = MQTTSNDeserialize_ack(&t8, &p, b, n); EQ(rc == 1); EQ(t8 == msg); EQ(p == pid); break;
    case T_SUBSCRIBE: case T_UNSUBSCRIBE:
      if (msg == T_SUBSCRIBE) { rc = MQTTSNDeserialize_subscribe(&d, &q, &p, &tp, b, n); EQ(d == dup); EQ(q == qos); } else rc = MQTTSNDeserialize_unsubscribe(&p, &tp, b, n);
      EQ(rc == 1); EQ(p == pid); EQ((int)tp.type == ttype);
      if (ttype == 0) { EQ(tp.data.long_.len == vl); if (vl && tp.data.long_.len == vl) EQ(memcmp(tp.data.long_.name, var, vl) == 0); } else if (ttype == 1) EQ(tp.data.id == tid); else { EQ((uint8_t)tp.data.short_name[0] == sn[0]); EQ((uint8_t)tp.data.short_name[1] == sn[1]); }
      break;
    case T_SUBACK: rc = MQTTSNDeserialize_suback(&q, &t, &p, &d, b, n); EQ(rc == 1); EQ(q == qos); EQ(t == tid); EQ(p == pid); EQ(d == rcode); break;
    case T_UNSUBACK: rc = MQTTSNDeserialize_unsuback(&p, b, n); EQ(rc == 1); EQ(p == pid); break;
    case T_PINGREQ: rc = MQTTSNDeserialize_pingreq(&s, b, n); EQ(rc == 1); EQ(streq(&s)); break;
    case T_PINGRESP: rc = MQTTSNDeserialize_pingresp(b, n); EQ(rc == 1); break;
    case T_DISCONNECT: rc = MQTTSNDeserialize_disconnect(&i, b, n); EQ(rc == 1); EQ(i == (dur > 0 ? dur : -1)); break;
    case T_WILLTOPICRESP: rc = MQTTSNDeserialize_willtopicresp(&i, b, n); EQ(rc == 1); EQ(i == rcode); break;
    case T_WILLMSGRESP: rc = MQTTSNDeserialize_willmsgresp(&i, b, n); EQ(rc == 1); EQ(i == rcode); break;
  }
  (void)u; sym_observe("rc", (uint64_t)(int64_t)rc); }
void sym_main(void) {
  uint8_t ref[1300]; int rl, rc, i, mode = sym_param("mode", 2);
  msg = sym_param("msg", T_PUBLISH); mkargs(); rl = refenc(ref);
  if (mode == 3) {
    /* every capacity, including one that is too small: nothing outside the buffer is touched */
    int cap = (int)sym_range(0, (uint32_t)rl + 2, "capacity"); uint8_t* raw = malloc(1300); int in = 1;
    for (i = 0; i < 1300; i++) raw[i] = 0xc7;
    rc = ser(raw + 8, cap);
    for (i = 0; i < 8; i++) in &= raw[i] == 0xc7;
    for (i = 8; i < 8 + rl + 16; i++) in &= (raw[i] == 0xc7) | (i < 8 + cap);
    sym_assert(in, "a serializer wrote outside the buffer it was given");
    if (cap < rl) { sym_assert(rc <= 0, "a serializer reported success in a buffer that is too small"); sym_reach("too small"); }
    else { sym_assert(rc == rl, "the returned length is not the length of the message"); sym_reach("fits"); }
    sym_observe("rc", (uint64_t)(int64_t)rc); free(raw); sym_reach("end"); return;
  }
  uint8_t* b = malloc(rl); rc = ser(b, rl);
  sym_observe("rc", (uint64_t)(int64_t)rc);
  if (mode == 2) {
    sym_assert(rc == rl, "wire format: the returned length differs from the specified encoding");
    for (i = 0; i < rl; i++) sym_assert(b[i] == ref[i], "wire format: a byte differs from the specified encoding");
    for (i = 0; i < rl; i++) sym_observe("byte", b[i]);
  } else {
    sym_assert(rc > 0, "round trip: the message cannot be serialized");
    if (rc > 0) {
      sym_assert(MQTTSNPacket_read_nb(b, rc) == msg, "round trip: the framed packet is not recognised");
      roundtrip(b, rc);
    }
  }
  free(b); sym_reach("end"); }
