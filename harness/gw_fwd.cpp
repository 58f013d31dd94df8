// Clients behind forwarders. what = 0 sessions that move, 1 large packets, 2 arbitrary encapsulated bytes, 3 the encapsulation itself
#define GWFIX_CONF "#list\nfwd1,10.0.0.8:1008,forwarder\nother,10.0.0.20:1020\nfwd2, 10.0.0.9:1009 , forwarder\n"
#include "gwfix.h"
#include "MQTTSNGWEncapsulatedPacket.h"
static uint8_t nid[3][4]; static int nl[3];
/* places: 0..5 = forwarder 8 or 9 with node id 0..2; 6, 7 = directly from address 1 or 2 */
static void raw_at(int p, const uint8_t* b, int n) { if (p >= 6) { uint8_t* e = (uint8_t*)malloc(n ? n : 1); memcpy(e, b, n); from_client(p - 5, e, n); free(e); return; } int k = p % 3, h = nl[k] + 3; uint8_t* e = (uint8_t*)malloc(h + n); e[0] = h; e[1] = T_ENCAP; e[2] = sym_u8("ctrl"); memcpy(e + 3, nid[k], nl[k]); memcpy(e + h, b, n); from_client(8 + p / 3, e, h + n); free(e); }
static void say_at(int p, const W* w) { uint8_t* o = (uint8_t*)malloc(w->n + 4); int n = wfinish(w, o); raw_at(p, o, n); free(o); }
static void to_at(int p, const W* w, const char* what) { if (p >= 6) { to_client(p - 5, w, what); return; }
  uint8_t* o = (uint8_t*)malloc(w->n + 4); int n = wfinish(w, o), k = p % 3, h = nl[k] + 3; SensorNetAddress t = addr_of(8 + p / 3); if (ic >= nc) { A(0, what); free(o); return; } Dgram* d = &outc[ic++];
  A(!d->bcast && d->ip == t.getIpAddress() && d->port == t.getPortNo(), "a packet for a forwarded client goes to another node than its forwarder"); A(d->n == h + n && d->b[0] == h && d->b[1] == T_ENCAP && memcmp(d->b + 3, nid[k], nl[k]) == 0, "a packet for a forwarded client does not carry its wireless node id"); A(d->n == h + n && memcmp(d->b + h, o, n) == 0, what); free(o); }
static const char* ids[2] = { "abc", "abcd" };
static Client* join_at(int p, int i, int clean) {
  W w = wconnect(ids[i], clean ? F_CLEAN : 0, 60); say_at(p, &w); MQTTSNString s = MQTTSNString_initializer; s.cstring = (char*)ids[i]; Client* c = gw->getClientList()->getClient(&s); if (!c) { A(0, "CONNECT through a forwarder is not accepted"); sym_exit(); }
  MB m = mconnect(ids[i], clean, 60); to_broker(c, &m, "CONNECT is not passed on to the broker"); quiet("more than CONNECT is sent when a client connects"); m = mconnack(0); say_b(c, &m); W r = w1(T_CONNACK); w8(&r, 0); to_at(p, &r, "CONNACK is not passed on to the client where it is"); quiet("more than CONNACK is sent"); A(c->isActive(), "the client is not active after CONNACK"); forget(); return c; }
static void nodes(int n, int max) { for (int k = 0; k < n; k++) { nl[k] = sym_pick(sym_param("idmin", 0), max, "idlen"); if (nl[k] < 0 || nl[k] > 4) sym_exit(); sym_bytes(nid[k], nl[k], "nodeid"); for (int j = 0; j < k; j++) if (nl[j] == nl[k]) sym_assume(memcmp(nid[j], nid[k], nl[k]) != 0); } }
void sym_main(void) {
  int what = sym_param("what", 0); MB m; W w; start(0, 1);
  if (what == 0) {
    int k = sym_param("k", 3), loc[2] = { -1, -1 }; Client* c[2] = { 0, 0 }; nodes(3, sym_param("idlen", 1)); static const int pl[6] = { 0, 1, 3, 5, 6, 7 };
    for (int s = 0; s < k; s++) { int op = sym_pick(0, s ? 3 : 0, "op"), p = pl[sym_pick(0, 5, "place")], at = loc[0] == p ? 0 : loc[1] == p ? 1 : -1;
      switch (op) {
      case 0: { int i = sym_pick(0, s ? 1 : 0, "client"); if (at >= 0 && at != i) { loc[at] = -1; c[at] = 0; sym_reach("other client"); } if (c[i] && loc[i] >= 0) { w = wdisconnect(-1); say_at(loc[i], &w); forget(); } if (loc[i] >= 6 && p < 6) sym_reach("behind"); if (loc[i] >= 0 && loc[i] < 6 && p >= 6) sym_reach("direct"); if (loc[i] >= 0 && loc[i] < 6 && p < 6 && p != loc[i]) sym_reach("moved"); int was = loc[i]; loc[i] = p; c[i] = join_at(p, i, 1);
        if (was >= 0 && was < 6 && was != p && loc[!i] != was) { w = w1(T_PINGREQ); say_at(was, &w); quiet("the former place of a client is still taken for it"); } break; }
      case 1: w = w1(T_PINGREQ); if (p >= 6 && at < 0) sym_exit(); say_at(p, &w); if (at >= 0) { m = mshort(12, 0); to_broker(c[at], &m, "PINGREQ is not passed on on the connection of its client"); quiet("more than PINGREQ is sent"); m = mshort(13, 0); say_b(c[at], &m); w = w1(T_PINGRESP); to_at(p, &w, "PINGREQ of a forwarded client is not answered"); sym_reach("ping"); } else sym_reach("unknown"); quiet("a node nobody knows is answered"); break;
      case 2: { int i = sym_pick(0, 1, "client"); if (!c[i]) sym_exit(); uint8_t v = sym_u8("value"); m = mpublish(0, 0, 0, "ab", 2, 0, &v, 1); say_b(c[i], &m); w = wpublish(2, 'a', 'b', 0, &v, 1); to_at(loc[i], &w, "a message is not delivered where its client is"); quiet("more than the message is sent"); break; }
      case 3: { if (at < 0) sym_exit(); uint8_t v = sym_u8("value"); w = wpublish(2, 'a', 'b', 0, &v, 1); say_at(p, &w); m = mpublish(0, 0, 0, "ab", 2, 0, &v, 1); to_broker(c[at], &m, "a PUBLISH of a forwarded client does not reach the broker on its connection"); quiet("more than the PUBLISH is sent"); break; }
      } forget(); }
    /* somebody who is no forwarder */
    w = w1(T_PINGREQ); { uint8_t* e = (uint8_t*)malloc(5 + nl[0]); e[0] = 3 + nl[0]; e[1] = T_ENCAP; e[2] = 0; memcpy(e + 3, nid[0], nl[0]); e[3 + nl[0]] = 2; e[4 + nl[0]] = T_PINGREQ; from_client(5, e, 5 + nl[0]); free(e); quiet("an encapsulated message of a node which is no forwarder is accepted"); }
  } else if (what == 1) {
    int n = sym_pick(sym_param("n0", 1000), sym_param("n1", 1016), "size"); nl[0] = sym_pick(0, 4, "idlen"); sym_bytes(nid[0], nl[0], "nodeid"); Client* c = join_at(0, 0, 1); uint8_t* v = sym_bytes_new(n, "payload");
    m = mpublish(0, 0, 0, "ab", 2, 0, v, n); say_b(c, &m); w = wpublish(2, 'a', 'b', 0, v, n); if (w.n + 3 <= 1024) to_at(0, &w, "a large message is not delivered through a forwarder"); else sym_reach("too long"); quiet("more than the message is sent"); forget();
  } else if (what == 2) {
    int n = sym_pick(2, sym_param("n", 8), "size"), bc = 1; nl[0] = sym_pick(0, 2, "idlen"); sym_bytes(nid[0], nl[0], "nodeid"); Client* c = join_at(0, 0, 1); uint8_t* e = sym_bytes_new(n, "datagram"); sym_assume(e[1] == T_ENCAP && e[0] != 1); sym_assume(e[0] == n || sym_param("lie", 1)); (void)bc;
    int live = sym_live_heap(); int h = sym_concretize(e[0]); e[0] = h; int ok = h >= 3 && h + 2 <= n && h - 3 == nl[0] && memcmp(e + 3, nid[0], nl[0]) == 0 && n - h == 2; uint8_t ty = ok ? e[h + 1] : 0; int ping = ok && e[h] == 2 && ty == T_PINGREQ, disc = ok && e[h] == 2 && ty == T_DISCONNECT;
    if (ok && !ping && !disc) sym_exit(); if (h >= 3 && h + 2 < n) sym_exit();
    from_client(8, e, n);
    if (ping) { m = mshort(12, 0); to_broker(c, &m, "PINGREQ is not passed on"); sym_reach("ping"); A(c->isActive(), "PINGREQ ends the session"); }
    else if (disc) { w = wdisconnect(-1); to_at(0, &w, "DISCONNECT of a forwarded client is not answered"); m = mshort(14, 0); to_broker(c, &m, "DISCONNECT is not passed on"); sym_reach("bye"); A(c->isDisconnect(), "DISCONNECT does not end the session"); }
    else { A(c->isActive(), "an encapsulated message which is not of the client changes its session"); sym_reach("discarded"); }
    quiet("an invalid encapsulated message is answered or passed on"); forget(); A(sym_live_heap() == live, "memory is lost with an encapsulated message");
  } else {
    int k = sym_pick(sym_param("k0", 0), sym_param("k1", 3), "idlen"), n = sym_pick(sym_param("n0", 2), sym_param("n1", 4), "size"); uint8_t* id = sym_bytes_new(k, "nodeid"), *b = sym_bytes_new(n, "packet"); int live = sym_live_heap();
    { MQTTSNPacket* p = new MQTTSNPacket(); p->desirialize(b, n); WirelessNodeId w1; w1.setId(id, k); MQTTSNGWEncapsulatedPacket e(p); e.setWirelessNodeId(&w1); uint8_t* o = (uint8_t*)malloc(k + 3 + n); int l = e.serialize(o); A(l == k + 3 + n && o[0] == k + 3 && o[1] == T_ENCAP && memcmp(o + 3, id, k) == 0 && memcmp(o + k + 3, b, n) == 0, "an encapsulated packet is not header, node id and packet"); char* pb = (char*)malloc(SIZE_OF_LOG_PACKET * 3); e.print(pb); free(pb);
      nc = ic = 0; SensorNetAddress s = addr_of(8); e.unicast(gw->getSensorNetwork(), &s); A(nc == 1 && outc[0].n == l && memcmp(outc[0].b, o, l) == 0 && outc[0].ip == s.getIpAddress(), "an encapsulated packet is not sent as it is built"); forget();
      MQTTSNGWEncapsulatedPacket d; A(d.desirialize(o, l) == k + 3, "an encapsulated packet is not recognised"); A(*d.getWirelessNodeId() == w1, "the node id does not survive encapsulation"); A(d.getMQTTSNPacket()->getPacketLength() == n && memcmp(d.getMQTTSNPacket()->getPacketData(), b, n) == 0, "the packet does not survive encapsulation");
      if (k) { uint8_t* id2 = sym_bytes_new(k, "otherid"); sym_assume(memcmp(id, id2, k) != 0); WirelessNodeId w2; w2.setId(id2, k); A(!(w2 == w1), "two different node ids are taken for the same"); w2.setId(id, k - 1); A(!(w2 == w1) && !(w1 == w2), "two different node ids are taken for the same"); free(id2); }
      int cut = sym_range(0, k + 2, "cut"); A(d.desirialize(o, cut) == 0 && d.getMQTTSNPacket() == 0, "a cut off header is accepted"); free(o); delete p; }
    A(sym_live_heap() == live, "memory is lost by encapsulation"); }
  sym_reach("end"); }
