// MQTT packets taken from the broker connection. what = 0 arbitrary bytes in arbitrary pieces, 1 long packet in pieces; tls = 1 through the TLS layer
#include "sym.h"
#include "MQTTGWPacket.h"
#include "MQTTSNGWDefines.h"
#include "mqttref.h"
#include <stdlib.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <netdb.h>
using namespace MQTTSNGW;
#define A(c, l) sym_assert((c), l)
#include "tlsstub.h"
static uint8_t st[140000]; static int sl, sp, calls, maxpieces, retries, over; static int ending;
static int piece(int len) {
  int av = sl - sp; if (av > len) av = len; if (len <= 0) return 0; if (av == 0) { over = 1; return ending ? -1 : 0; }
  int n = av; if (av > 1 && calls < maxpieces) { calls++; n = av <= 8 ? (int)sym_pick(1, av, "piece") : (int)(sym_pick(0, 2, "piece") == 0 ? 1 : sym_pick(0, 1, "half") ? av / 2 : av); }
  return n; }
static ssize_t take(void* b, int len) { int n = piece(len); if (n > 0) { memcpy(b, st + sp, n); sp += n; } return n; }
extern "C" {
ssize_t recv(int fd, void* b, size_t len, int fl) { A(len <= 0x7fffffff, "an impossible number of bytes was requested"); return take(b, (int)len); }
static int lasterr;
int SSL_read(SSL* s, void* b, int len) { A(len > 0, "a non-positive number of bytes was requested"); if (retries < sym_param("retries", 1) && sym_pick(0, 1, "wouldBlock")) { retries++; lasterr = SSL_ERROR_WANT_READ; return -1; }
  int n = (int)take(b, len); lasterr = n > 0 ? SSL_ERROR_NONE : n == 0 ? SSL_ERROR_ZERO_RETURN : SSL_ERROR_SSL; return n; }
int SSL_get_error(const SSL* s, int r) { return lasterr; }
int SSL_pending(const SSL* s) { return sl > sp; }
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) { return 1; }
int shutdown(int fd, int how) { return 0; }
int getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo** r) { static struct addrinfo ai; *r = &ai; return 0; }
void freeaddrinfo(struct addrinfo*) {}
const char* gai_strerror(int) { return ""; }
int socket(int, int, int) { return 5; }
int setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int connect(int, const struct sockaddr*, socklen_t) { return 0; }
}
static char lb[(SIZE_OF_LOG_PACKET + 5) * 3];
static void getters(MQTTGWPacket* p, int h, const uint8_t* d, int rem) {
  int type = h >> 4 & 15, qos = h >> 1 & 3; Publish pub; memset(&pub, 0x5a, sizeof pub); Ack a; Connack c; unsigned short id = 0; unsigned char rc = 0; char mb[8];
  A(p->getType() == type, "the packet type is wrong");
  int r = p->getPUBLISH(&pub), ok = type == 3 && rem >= 2 + (qos ? 2 : 0);
  if (ok) ok = 2 + (d[0] << 8 | d[1]) + (qos ? 2 : 0) <= rem;
  if (r) { A(ok, "a malformed PUBLISH was accepted"); if (!ok) sym_exit(); int tl = d[0] << 8 | d[1]; A(pub.topiclen == tl, "the topic of a PUBLISH is wrong"); tl = (int)sym_concretize(tl); A(pub.payloadlen == rem - tl - 2 - (qos ? 2 : 0), "the payload length of a PUBLISH is wrong"); if (pub.payloadlen != rem - tl - 2 - (qos ? 2 : 0)) sym_exit();
    A(memcmp(pub.topic, d + 2, tl) == 0, "the topic of a PUBLISH is wrong"); A(memcmp(pub.payload, d + rem - pub.payloadlen, pub.payloadlen) == 0, "the payload of a PUBLISH is wrong"); A(pub.msgId == (qos ? d[2 + tl] << 8 | d[3 + tl] : 0), "the message id of a PUBLISH is wrong");
    A(pub.header.bits.qos == qos && pub.header.bits.dup == (h >> 3 & 1) && pub.header.bits.retain == (h & 1), "the flags of a PUBLISH are wrong"); sym_reach("publish"); }
  else A(!ok, "a well-formed PUBLISH was rejected");
  r = p->getAck(&a); ok = (type == 4 || type == 5 || type == 6 || type == 7 || type == 11) && rem >= 2; A((r == 1) == ok && (r == 0) == !ok, "an acknowledgement is accepted exactly when it holds a message id"); if (r && ok) { A(a.msgId == (d[0] << 8 | d[1]), "the message id of an acknowledgement is wrong"); sym_reach("ack"); }
  r = p->getCONNACK(&c); ok = type == 2 && rem >= 2; A((r == 1) == ok && (r == 0) == !ok, "a CONNACK is accepted exactly when it holds a return code"); if (r && ok) { A((uint8_t)c.rc == d[1] && c.flags.all == d[0], "the return code of a CONNACK is wrong"); sym_reach("connack"); }
  r = p->getSUBACK(&id, &rc); ok = type == 9 && rem >= 3; A((r == 1) == ok && (r == 0) == !ok, "a SUBACK is accepted exactly when it holds a message id and a return code"); if (r && ok) { A(id == (d[0] << 8 | d[1]) && rc == d[2], "the content of a SUBACK is wrong"); sym_reach("suback"); }
  r = p->getMsgId(); if (type >= 4 && type <= 11 && rem >= 2) A(r == (d[0] << 8 | d[1]), "the message id is wrong"); if (type == 3 && qos == 0) A(r == 0, "the message id is wrong");
  p->getMsgId(mb); A(strlen(mb) <= 5, "the printed message id is too long"); UTF8String s = p->getTopic(); if (s.data) { int l = s.len, sum = 0; A(l <= rem - 4, "a topic filter reaches outside the packet"); sum = l > 0 ? s.data[0] + s.data[l - 1] : 0; sym_observe("topic", (uint8_t)sum); }
  int n = p->getPacketLength(); uint8_t* b = (uint8_t*)malloc(n); p->getPacketData(b); A((b[0] == h) & (memcmp(b + n - rem, d, rem) == 0), "a packet passed on differs from the one received"); free(b); p->print(lb); }
void sym_main(void) {
  int what = sym_param("what", 0), tls = sym_param("tls", 0), i; maxpieces = sym_param("pieces", 2); ending = (int)sym_pick(0, 1, "connectionError");
  Network* net = new Network(); if (tls) tls_connect(net); else A(net->connect("broker", "1883"), "no connection though all is well"); MQTTGWPacket* p = new MQTTGWPacket(); int rc;
  if (what == 0) {
    sl = (int)sym_pick(0, sym_param("n", 6), "bytes"); sym_bytes(st, sl, "stream");
    /* where the first packet ends */
    int ok = sl >= 2, rem = 0, hl = 1; for (i = 0; ok && i < 3; i++) { if (1 + i >= sl) { ok = 0; break; } int more = (int)sym_concretize(st[1 + i] >> 7); rem += (st[1 + i] & 127) << (7 * i); hl++; if (!more) break; if (i == 2) { ok = -1; break; } }
    if (ok == 1) { sym_assume(rem <= sym_param("maxrem", 8)); rem = (int)sym_concretize(rem); if (hl + rem > sl) ok = 0; }
    else if (ok == 0 && sl > 2) sym_assume(rem <= sym_param("maxrem", 8));
    rc = p->recv(net);
    if (ok == 1) { A(rc == hl + rem, "a complete packet was not received"); A(sp == hl + rem, "bytes of the next packet were consumed"); if (rc == hl + rem && sp == rc) { getters(p, st[0], st + hl, rem); sym_reach("received"); } }
    else if (ok == 0) { A(rc <= 0, "an incomplete packet was taken as received"); A(ending ? rc < 0 : tls ? rc <= 0 : rc == 0, "the end of the connection was not told from an error"); sym_reach("cut off"); }
    else { A(rc < 0, "a remaining length of more than three bytes was accepted"); sym_reach("too long"); }
  } else {
    int rem = sym_param("rem", 70000); MB m = {st, 0, sizeof st}; mhead(&m, 3, 0, rem); int hl = m.n; for (i = 0; i < rem; i++) m8(&m, i * 7 + (i >> 8)); st[hl] = 0; st[hl + 1] = 1; sl = hl + rem; rc = p->recv(net); A(rc == sl && sp == sl, "a complete packet was not received"); if (rc == sl) getters(p, st[0], st + hl, rem); sym_reach("received"); }
  sym_observe("rc", (uint32_t)rc); delete p; sym_reach("end"); }
