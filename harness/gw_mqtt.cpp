// MQTT packets the gateway builds and takes apart. what = packet; n0,n1 payload/topic length range
#include "sym.h"
#include "MQTTGWPacket.h"
#include "MQTTSNGWDefines.h"
#include "mqttref.h"
#include <stdio.h>
#include <stdlib.h>
using namespace MQTTSNGW;
#define A(c, l) sym_assert((c), l)
static uint8_t ref[70000]; static MB m = {ref, 0, sizeof ref};
static char* cs(const char* nm, int n) { char* p = (char*)malloc(n + 1); sym_bytes(p, n, nm); p[n] = 0; for (int i = 0; i < n; i++) sym_assume(p[i] != 0); return p; }
static char lb[(SIZE_OF_LOG_PACKET + 5) * 3];
static void same(MQTTGWPacket* p, const char* l) {
  int n = p->getPacketLength(); A(n == m.n, "the length of an MQTT packet is wrong"); if (n != m.n) sym_exit();
  uint8_t* b = (uint8_t*)malloc(n); int r = p->getPacketData(b); A(r == n, "the number of bytes of an MQTT packet is wrong"); A(memcmp(b, ref, n) == 0, l); free(b);
  if (sym_param("print", 1)) { char* t = p->print(lb); int k = n > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : n, ok = 1; for (int i = 0; i < (sym_param("print", 1) == 2 ? 4 : k); i++) { int hi = ref[i] >> 4, lo = ref[i] & 15; ok &= (t[3 * i] == ' ') & (t[3 * i + 1] == (char)(hi + '0' + 7 * (hi > 9))) & (t[3 * i + 2] == (char)(lo + '0' + 7 * (lo > 9))); } ok &= t[3 * k] == 0; A(ok, "the printed packet is not its bytes in hexadecimal"); } }
static void copied(MQTTGWPacket* p, const char* l) { MQTTGWPacket* q = new MQTTGWPacket(); q->setAck(PUBACK, 77); *q = *p; same(q, l); delete p; A(q->getPacketLength() == m.n, l); same(q, l); delete q; }
void sym_main(void) {
  int what = sym_param("what", 3), n0 = sym_param("n0", 0), n1 = sym_param("n1", 4); MQTTGWPacket* p = new MQTTGWPacket(); if (sym_param("dirty", 1)) p->setAck(PUBREL, 0x1234);
  if (what == CONNECT) {
    Connect c = MQTTPacket_Connect_Initializer; c.header.bits.type = CONNECT; c.flags.all = sym_u8("flags"); c.keepAliveTimer = sym_u16("keepalive"); c.version = (unsigned char)sym_pick(3, 4, "version");
    int nc = (int)sym_pick(n0, n1, "clientlen"); c.clientID = cs("client", nc);
    int will = c.flags.all >> 2 & 1, pw = c.flags.all >> 6 & 1, un = c.flags.all >> 7 & 1; will = (int)sym_concretize(will); pw = (int)sym_concretize(pw); un = (int)sym_concretize(un);
    int nt = will ? (int)sym_pick(1, 2, "willtopiclen") : 0, nm = will ? (int)sym_pick(0, 2, "willmsglen") : 0, nu = un ? (int)sym_pick(0, 2, "userlen") : 0, np = pw ? (int)sym_pick(0, 2, "passlen") : 0;
    c.willTopic = cs("willtopic", nt); c.willMsg = cs("willmsg", nm); char* u = cs("user", nu); char* w = cs("pass", np);
    A(p->setCONNECT(&c, (unsigned char*)u, (unsigned char*)w) == 1, "a CONNECT was not built");
    int rem = (c.version == 4 ? 2 + 4 : 2 + 6) + 1 + 1 + 2 + 2 + nc + (will ? 4 + nt + nm : 0) + (un ? 2 + nu : 0) + (pw ? 2 + np : 0);
    mhead(&m, 1, 0, rem); if (c.version == 4) mstr(&m, "MQTT", 4); else mstr(&m, "MQIsdp", 6); m8(&m, c.version); m8(&m, c.flags.all); m16(&m, c.keepAliveTimer); mstr(&m, c.clientID, nc);
    if (will) { mstr(&m, c.willTopic, nt); mstr(&m, c.willMsg, nm); } if (un) mstr(&m, u, nu); if (pw) mstr(&m, w, np);
    A(p->getType() == CONNECT, "the packet type is wrong"); same(p, "the bytes of a CONNECT are not those of MQTT"); copied(p, "copying a packet changed it");
  } else if (what == PUBLISH) {
    Publish b = MQTTPacket_Publish_Initializer; int dup = sym_bool("dup"), qos = (int)sym_pick(0, 2, "qos"), ret = sym_bool("retain"); b.header.byte = (char)(dup << 3 | qos << 1 | ret); b.header.bits.type = PUBLISH;
    b.msgId = sym_u16("msgid"); int t1 = sym_param("t1", 3), t0 = sym_param("t0", 0); b.topiclen = (int)sym_pick(t0, t1, "topiclen"); b.payloadlen = (int)sym_pick(n0, n1, "payloadlen");
    b.topic = (char*)malloc(b.topiclen); sym_bytes(b.topic, b.topiclen, "topic"); b.payload = (char*)malloc(b.payloadlen); sym_bytes(b.payload, b.payloadlen, "payload");
    A(p->setPUBLISH(&b) == 1, "a PUBLISH was not built");
    mhead(&m, 3, dup << 3 | qos << 1 | ret, 2 + b.topiclen + (qos ? 2 : 0) + b.payloadlen); mstr(&m, b.topic, b.topiclen); int at = m.n; if (qos) m16(&m, b.msgId); mraw(&m, b.payload, b.payloadlen);
    same(p, "the bytes of a PUBLISH are not those of MQTT");
    Publish g; memset(&g, 0x5a, sizeof g); A(p->getPUBLISH(&g) == 1, "a PUBLISH was not taken apart");
    A(g.topiclen == b.topiclen && g.payloadlen == b.payloadlen, "a PUBLISH changed a length"); if (g.topiclen != b.topiclen || g.payloadlen != b.payloadlen) sym_exit();
    A(memcmp(g.topic, b.topic, g.topiclen) == 0, "a PUBLISH changed its topic"); A(memcmp(g.payload, b.payload, g.payloadlen) == 0, "a PUBLISH changed its payload"); A(g.msgId == (qos ? b.msgId : 0), "a PUBLISH changed its message id");
    A(g.header.bits.qos == qos && g.header.bits.dup == dup && g.header.bits.retain == ret, "a PUBLISH changed its flags"); A(p->getMsgId() == (qos ? b.msgId : 0), "the message id is wrong");
    int id = sym_u16("newid"); p->setMsgId(id); if (qos) { ref[at] = (uint8_t)(id >> 8); ref[at + 1] = (uint8_t)id; } same(p, "setting the message id of a PUBLISH changed something else"); sym_observe("id", p->getMsgId());
    char mb[8]; p->getMsgId(mb); A(strlen(mb) <= 5, "the printed message id is too long"); copied(p, "copying a packet changed it");
  } else if (what == SUBSCRIBE || what == UNSUBSCRIBE) {
    int id = sym_u16("msgid"), q = (int)sym_range(0, 2, "qos"), l = (int)sym_pick(n0, n1, "topiclen"); char* t = cs("topic", l);
    if (what == SUBSCRIBE) { A(p->setSUBSCRIBE(t, (unsigned char)q, (unsigned short)id) == 1, "a SUBSCRIBE was not built"); } else A(p->setUNSUBSCRIBE(t, (unsigned short)id) == 1, "an UNSUBSCRIBE was not built");
    mhead(&m, what, 2, 4 + l + (what == SUBSCRIBE)); m16(&m, id); mstr(&m, t, l); if (what == SUBSCRIBE) m8(&m, q);
    same(p, "the bytes of a SUBSCRIBE or UNSUBSCRIBE are not those of MQTT"); UTF8String s = p->getTopic(); A(s.len == l && memcmp(s.data, t, l) == 0, "the topic filter of a SUBSCRIBE or UNSUBSCRIBE changed"); A(p->getMsgId() == id, "the message id is wrong");
    int nid = sym_u16("newid"); p->setMsgId(nid); int at = m.n - (4 + l + (what == SUBSCRIBE)); ref[at] = (uint8_t)(nid >> 8); ref[at + 1] = (uint8_t)nid; same(p, "setting the message id changed something else"); copied(p, "copying a packet changed it");
  } else if (what == PINGREQ || what == DISCONNECT) { p->setHeader((unsigned char)what); mhead(&m, what, 0, 0); same(p, "the bytes of a packet without body are not those of MQTT"); A(p->getType() == what, "the packet type is wrong"); A(p->getMsgId() == 0, "the message id is wrong"); copied(p, "copying a packet changed it");
  } else {
    int id = sym_u16("msgid"); A(p->setAck((unsigned char)what, (unsigned short)id) == 1, "an acknowledgement was not built"); mhead(&m, what, what == PUBREL ? 2 : 0, 2); m16(&m, id);
    same(p, "the bytes of an acknowledgement are not those of MQTT"); Ack a; A(p->getAck(&a) == 1 && a.msgId == id, "an acknowledgement changed its message id"); A(p->getMsgId() == id, "the message id is wrong"); A(p->getType() == what, "the packet type is wrong");
    int nid = sym_u16("newid"); p->setMsgId(nid); ref[2] = (uint8_t)(nid >> 8); ref[3] = (uint8_t)nid; same(p, "setting the message id changed something else"); copied(p, "copying a packet changed it"); }
  sym_reach("end"); }
