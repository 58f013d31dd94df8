// MQTT-SN packets as the gateway holds them. what = 0 a received datagram, otherwise the message type to build; n0,n1 length of the variable part
#include "sym.h"
#include "MQTTSNGateway.h"
#include "MQTTSNGWPacket.h"
#include "MQTTSNGWDefines.h"
#include "snref.h"
#include <stdlib.h>
#define A(c, l) sym_assert((c), l)
static uint8_t dg[1100]; static int dn, reads; static uint8_t sent[70000]; static int sn_ = -1, sends;
namespace MQTTSNGW {
int SensorNetwork::read(uint8_t* buf, uint16_t len) { reads++; A(len >= 1, "no room to receive a packet"); int n = dn < len ? dn : len; memcpy(buf, dg, n); return n; }
int SensorNetwork::unicast(const uint8_t* p, uint16_t len, SensorNetAddress* to) { memcpy(sent, p, len); sn_ = len; sends++; return len; }
int SensorNetwork::broadcast(const uint8_t* p, uint16_t len) { memcpy(sent, p, len); sn_ = len; sends++; return len; }
}
using namespace MQTTSNGW;
static char lb[SIZE_OF_LOG_PACKET * 3 + 1];
static int idpos(int type, int p) {
  switch (type) { case T_PUBLISH: return p + 4; case T_PUBACK: case T_REGISTER: case T_REGACK: return p + 3; case T_SUBACK: return p + 4; case T_SUBSCRIBE: case T_UNSUBSCRIBE: return p + 2; case T_PUBREC: case T_PUBREL: case T_PUBCOMP: case T_UNSUBACK: return p + 1; } return 0; }
static void name(MQTTSNPacket* q) { const char* nm = q->getName(); sym_observe("name", nm && nm[0] ? nm[0] : 0); }
static int hex(int v) { return v + '0' + 7 * (v > 9); }
static void look(MQTTSNPacket* q, const uint8_t* b, int n) {
  int p = n > 0 && sym_concretize(b[0] == 1) ? 3 : 1, ok = n > p, type = ok ? b[p] : 0; A(q->getType() == type, "the type of a MQTT-SN packet is wrong"); 
  int fl = ok && n > p + 1 && (type == T_PUBLISH || type == T_SUBSCRIBE || type == T_UNSUBSCRIBE);
  A(q->isQoSMinusPUBLISH() == (fl && type == T_PUBLISH && (b[p + 1] & 0x60) == 0x60), "a QoS -1 PUBLISH is not told from others");
  if (type == T_PUBLISH || type == T_SUBSCRIBE) A(q->isDuplicate() == (fl && (b[p + 1] & 0x80)), "the DUP flag is wrong");
  int ip = ok ? idpos(type, p) : 0; if (ip && ip + 1 >= n) ip = 0;
  int id = ip ? b[ip] << 8 | b[ip + 1] : 0; A(q->getMsgId() == id, "the message id of a MQTT-SN packet is wrong");
  char* m = (char*)malloc(6); A(q->getMsgId(m) == m, "no message id was printed");
  if (ip) { int dup = type == T_PUBLISH && (b[p + 1] & 0x80); dup = (int)sym_concretize(dup != 0); int zero = (int)sym_concretize(id == 0 && !dup);
    if (!zero) A((m[0] == (dup ? '+' : ' ')) & (m[1] == hex(b[ip] >> 4)) & (m[2] == hex(b[ip] & 15)) & (m[3] == hex(b[ip + 1] >> 4)) & (m[4] == hex(b[ip + 1] & 15)) & (m[5] == 0), "the printed message id is wrong"); else A(strcmp(m, "    ") == 0, "the printed message id is wrong"); }
  else A(strcmp(m, "    ") == 0, "the printed message id is wrong");
  free(m);
  if (n <= 16) { q->print(lb); int good = 1; for (int i = 0; i < n; i++) good &= (lb[3 * i] == ' ') & (lb[3 * i + 1] == hex(b[i] >> 4)) & (lb[3 * i + 2] == hex(b[i] & 15)); A(good && lb[3 * n] == 0, "the printed packet is not its bytes in hexadecimal"); } else q->print(lb);
  uint16_t nid = sym_u16("newid"); uint8_t* r = (uint8_t*)malloc(n + 1); memcpy(r, b, n); if (ip) { r[ip] = (uint8_t)(nid >> 8); r[ip + 1] = (uint8_t)nid; sym_reach("has id"); } else sym_reach("no id");
  MQTTSNPacket* c = new MQTTSNPacket(*q); q->setMsgId(nid); A(q->getPacketLength() == n && memcmp(q->getPacketData(), r, n) == 0, "setting the message id changed something else"); A(c->getPacketLength() == n && memcmp(c->getPacketData(), b, n) == 0, "a copied packet shares its bytes with the original"); delete c;
  SensorNetwork* net = (SensorNetwork*)malloc(sizeof(SensorNetwork)); int bc = (int)sym_pick(0, 1, "broadcast"); if (bc) q->broadcast(net); else q->unicast(net, 0); A(sends == 1 && sn_ == n && memcmp(sent, r, n) == 0, "the packet sent is not the packet held"); free(r); free(net); }
static void getters(MQTTSNPacket* q) {
  uint8_t a8 = 0, b8 = 0, c8 = 0; uint16_t a = 0, b = 0; int i = 0, pl = 0; uint8_t* pay = 0; MQTTSNString s = MQTTSNString_initializer; MQTTSN_topicid t; memset(&t, 0, sizeof t); MQTTSNPacket_connectData cd; memset(&cd, 0, sizeof cd);
  int w = (int)sym_pick(0, 15, "getter"), r = 0; struct { uint8_t before[4]; uint8_t v; uint8_t after[8]; } g; memset(&g, 0x77, sizeof g);
  switch (w) { case 0: r = q->getSERCHGW(&a8); break; case 1: r = q->getCONNECT(&cd); break; case 2: r = q->getCONNACK(&g.v); break; case 3: r = q->getWILLTOPIC(&i, &b8, &s); break; case 4: r = q->getWILLMSG(&s); break; case 5: r = q->getREGISTER(&a, &b, &s); break;
    case 6: r = q->getREGACK(&a, &b, &c8); break; case 7: r = q->getPUBLISH(&a8, &i, &b8, &a, &t, &pay, &pl); break; case 8: r = q->getPUBACK(&a, &b, &c8); break; case 9: r = q->getACK(&a); break; case 10: r = q->getSUBSCRIBE(&a8, &i, &a, &t); break; case 11: r = q->getUNSUBSCRIBE(&a, &t); break;
    case 12: r = q->getPINGREQ(); break; case 13: r = q->getDISCONNECT(&a); break; case 14: r = q->getWILLTOPICUPD(&g.v, &b8, &s); break; default: r = q->getWILLMSGUPD(&s); }
  A(g.before[3] == 0x77 && g.after[0] == 0x77 && g.after[3] == 0x77, "a field was written beyond its variable"); sym_observe("r", (uint32_t)r); if (w == 2 && r == 1) { A(g.v == dg[dg[0] == 1 ? 4 : 2], "the return code of a CONNACK is wrong"); A(q->isAccepted() == (g.v == 0), "an accepted CONNACK is not told from a refused one"); sym_reach("connack"); }
  A(memcmp(q->getPacketData(), dg, q->getPacketLength()) == 0, "reading a packet changed it"); }
void sym_main(void) {
  int what = sym_param("what", 0), n0 = sym_param("n0", 0), n1 = sym_param("n1", 10); MQTTSNPacket* q = new MQTTSNPacket();
  if (what == 0) {
    dn = (int)sym_pick(n0, n1, "len"); sym_bytes(dg, dn, "datagram"); SensorNetwork* net = (SensorNetwork*)malloc(sizeof(SensorNetwork)); int rc = q->recv(net);
    if (dn < 2) { A(rc < 2, "a datagram too short to be a packet was taken as one"); sym_reach("too short"); }
    else { A(rc == dn && q->getPacketLength() == dn && memcmp(q->getPacketData(), dg, dn) == 0, "the packet held is not the datagram received"); int k = (int)sym_pick(0, 2, "read"); if (k == 2) name(q); else if (k) getters(q); else look(q, dg, dn); }
    free(net); delete q; sym_reach("end"); return; }
  W w; w.n = 0; w8(&w, what); uint8_t out[1300]; static uint8_t var[1200]; int vl = 0, i, r = 0; uint16_t tid = sym_u16("tid"), mid = sym_u16("mid"); uint8_t c = sym_u8("code");
  if (what == T_REGISTER || what == T_PUBLISH || what == T_PINGREQ || what == T_CONNECT) { vl = (int)sym_pick(n0, n1, "varlen"); sym_bytes(var, vl, "var"); }
  MQTTSNString s = MQTTSNString_initializer; s.lenstring.data = (char*)var; s.lenstring.len = vl;
  switch (what) {
    case T_ADVERTISE: r = q->setADVERTISE(c, tid); w8(&w, c); w16(&w, tid); break;
    case T_GWINFO: r = q->setGWINFO(c); w8(&w, c); break;
    case T_CONNACK: r = q->setCONNACK(c); w8(&w, c); A(q->isAccepted() == (c == 0), "an accepted CONNACK is not told from a refused one"); break;
    case T_WILLTOPICREQ: r = q->setWILLTOPICREQ(); break;
    case T_WILLMSGREQ: r = q->setWILLMSGREQ(); break;
    case T_REGISTER: r = q->setREGISTER(tid, mid, &s); w16(&w, tid); w16(&w, mid); wb(&w, var, vl); break;
    case T_REGACK: r = q->setREGACK(tid, mid, c); w16(&w, tid); w16(&w, mid); w8(&w, c); break;
    case T_PUBLISH: { MQTTSN_topicid t; memset(&t, 0, sizeof t); int ty = (int)sym_pick(0, 2, "topictype"), dup = sym_bool("dup"), ret = sym_bool("retain"), qos = (int)sym_range(0, 2, "qos"); t.type = (MQTTSN_topicTypes)ty; if (ty == 2) { t.data.short_name[0] = (char)(tid >> 8); t.data.short_name[1] = (char)tid; } else t.data.id = tid;
      r = q->setPUBLISH((uint8_t)dup, qos, (uint8_t)ret, mid, t, var, (uint16_t)vl); w8(&w, (dup ? F_DUP : 0) | F_QOS(qos) | (ret ? F_RETAIN : 0) | ty); w16(&w, tid); w16(&w, mid); if (vl <= 1180) wb(&w, var, vl); break; }
    case T_PUBACK: r = q->setPUBACK(tid, mid, c); w16(&w, tid); w16(&w, mid); w8(&w, c); break;
    case T_PUBREC: r = q->setPUBREC(mid); w16(&w, mid); break;
    case T_PUBREL: r = q->setPUBREL(mid); w16(&w, mid); break;
    case T_PUBCOMP: r = q->setPUBCOMP(mid); w16(&w, mid); break;
    case T_SUBACK: { int qos = (int)sym_range(0, 2, "qos"); r = q->setSUBACK(qos, tid, mid, c); w8(&w, F_QOS(qos)); w16(&w, tid); w16(&w, mid); w8(&w, c); break; }
    case T_UNSUBACK: r = q->setUNSUBACK(mid); w16(&w, mid); break;
    case T_PINGRESP: r = q->setPINGRESP(); break;
    case T_DISCONNECT: r = q->setDISCONNECT(tid); tid = (uint16_t)sym_concretize(tid == 0) ? 0 : tid; if (sym_concretize(tid != 0)) w16(&w, tid); break;
    case T_WILLTOPICRESP: r = q->setWILLTOPICRESP(c); w8(&w, c); break;
    case T_WILLMSGRESP: r = q->setWILLMSGRESP(c); w8(&w, c); break;
    case T_PINGREQ: r = q->setPINGREQ(&s); wb(&w, var, vl); break;
    case T_CONNECT: { MQTTSNPacket_connectData o = MQTTSNPacket_connectData_initializer; o.clientID = s; o.cleansession = sym_bool("clean"); o.willFlag = sym_bool("will"); o.duration = mid; r = q->setCONNECT(&o); w8(&w, (o.cleansession ? F_CLEAN : 0) | (o.willFlag ? F_WILL : 0)); w8(&w, 1); w16(&w, mid); wb(&w, var, vl); break; }
  }
  int n = wfinish(&w, out);
  if (n > MQTTSNGW_MAX_PACKET_SIZE) { A(r <= 0 && q->getPacketLength() == 0, "a packet that does not fit was built nevertheless"); sym_reach("too long"); }
  else { A(r == n && q->getPacketLength() == n, "the length of a MQTT-SN packet is wrong"); if (q->getPacketLength() != n) sym_exit(); A(memcmp(q->getPacketData(), out, n) == 0, "the bytes of a MQTT-SN packet are not those of the specification"); name(q); look(q, out, n); }
  delete q; sym_reach("end"); }
