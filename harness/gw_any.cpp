// Arbitrary bytes from a node (what=0) or from the broker (what=1) in every state of a session: what comes out is well formed, goes where it belongs, and nobody else is disturbed.
// st: 0 unknown node, 1 disconnected, 2 connecting, 3 active, 4 asleep, 5 awake, 6 will topic awaited, 7 will message awaited, 8 topic announced, 9 forwarded
#define GWFIX_CONF "fwd1,10.0.0.8:1008,forwarder\nq1,10.0.0.6:1006,QoS-1\n"
#include "gwfix.h"
static int agg, qm1, fwd; static const uint8_t NID = 0x5a;
static int str_at(const Bpkt* o, int* p, int end) { if (*p + 2 > end) return -1; int n = sym_concretize(o->b[*p] << 8 | o->b[*p + 1]); *p += 2; if (*p + n > end) return -1; *p += n; return n; }
static int wf_mqtt(const Bpkt* o) {
  if (o->n < 2) return 0; int rem = 0, p = 1, sh = 0; for (;;) { if (p >= o->n || p > 4) return 0; int c = o->b[p++]; rem |= (c & 127) << sh; sh += 7; if (!(c & 128)) break; } if (p > 2 && o->b[p - 1] == 0) return 0; if (rem != o->n - p) return 0;
  int t = sym_concretize(o->b[0] >> 4), f = o->b[0] & 15, e = o->n;
  switch (t) {
  case 1: { if (f || str_at(o, &p, e) != 4 || memcmp(o->b + p - 4, "MQTT", 4) || p + 4 > e || o->b[p] != 4) return 0; int fl = sym_concretize(o->b[p + 1]); p += 4; if (fl & 1) return 0; if (str_at(o, &p, e) < 0) return 0; if (fl & 4) { if ((fl & 0x18) == 0x18) return 0; if (str_at(o, &p, e) < 0 || str_at(o, &p, e) < 0) return 0; } else if (fl & 0x38) return 0; if (fl & 0x80) if (str_at(o, &p, e) < 0) return 0; if (fl & 0x40) if (str_at(o, &p, e) < 0) return 0; return p == e; }
  case 3: { int q = sym_concretize(f >> 1 & 3); if (q == 3) return 0; if (str_at(o, &p, e) < 1) return 0; if (q) { if (p + 2 > e || (o->b[p] | o->b[p + 1]) == 0) return 0; } else if (f & 8) return 2; return 1; }
  case 4: case 5: case 7: return f == 0 && rem == 2;
  case 6: return f == 2 && rem == 2;
  case 8: { if (f != 2 || p + 2 > e || (o->b[p] | o->b[p + 1]) == 0) return 0; p += 2; if (str_at(o, &p, e) < 1 || p + 1 != e || o->b[p] > 2) return 0; return 1; }
  case 10: { if (f != 2 || p + 2 > e || (o->b[p] | o->b[p + 1]) == 0) return 0; p += 2; return str_at(o, &p, e) >= 1 && p == e; }
  case 12: case 14: return f == 0 && rem == 0;
  default: return 0; } }
/* what the broker is to blame for is not held against the gateway */
static int strict = 1;
static int wf_sn(const uint8_t* b, int n) {
  int h = 1; if (n < 2) return 0; if (b[0] == 1) { if (n < 256 || (b[1] << 8 | b[2]) != n) return 0; h = 3; } else if (b[0] != n) return 0; const uint8_t* d = b + h + 1; int l = n - h - 1;
  switch (sym_concretize(b[h])) {
  case T_CONNACK: case T_WILLTOPICRESP: case T_WILLMSGRESP: return l == 1;
  case T_WILLTOPICREQ: case T_WILLMSGREQ: case T_PINGRESP: return l == 0;
  case T_REGISTER: return l >= 4 + strict && (d[0] | d[1]) != 0;
  case T_REGACK: case T_PUBACK: return l == 5;
  case T_PUBLISH: return l >= 5 && (!strict || ((d[0] & 3) != 3 && (d[0] & 0x60) != 0x60));
  case T_PUBREC: case T_PUBREL: case T_PUBCOMP: case T_UNSUBACK: return l == 2;
  case T_SUBACK: return l == 6;
  case T_DISCONNECT: return l == 0 || l == 2;
  default: return 0; } }
static Client* aggc; static int node;
static void check_out(Client* c, int gwinfo) {
  for (int i = 0; i < nb; i++) { Bpkt* o = &outb[i]; Network* own = agg ? aggc->getNetwork() : c ? c->getNetwork() : 0; A(o->net == own || (qm1 && !c), "something is sent on the broker connection of somebody else"); int r = wf_mqtt(o); A(r != 0, "a malformed packet is sent to the broker"); (void)r; }
  for (int i = 0; i < nc; i++) { Dgram* d = &outc[i]; if (d->bcast) { A(gwinfo && d->n == 3 && d->b[0] == 3 && d->b[1] == T_GWINFO, "something is broadcast"); continue; }
    SensorNetAddress s = addr_of(fwd ? 8 : node); A(d->ip == s.getIpAddress() && d->port == s.getPortNo(), "something is sent to somebody else"); if (fwd) { A(d->n > 4 && d->b[0] == 4 && d->b[1] == T_ENCAP && d->b[2] == 0 && d->b[3] == NID && wf_sn(d->b + 4, d->n - 4), "a malformed message is sent to a client"); } else A(wf_sn(d->b, d->n), "a malformed message is sent to a client"); } }
static void probe(int a, Client* c, int cn) { uint8_t v = sym_u8("value"); W w = wpublish(2, 'o', 'k', 0, &v, 1); uint8_t o[16]; int n = wfinish(&w, o); uint8_t* e;
  if (cn && fwd) { e = (uint8_t*)malloc(4 + n); e[0] = 4; e[1] = T_ENCAP; e[2] = 0; e[3] = NID; memcpy(e + 4, o, n); from_client(8, e, n + 4); } else { e = (uint8_t*)malloc(n); memcpy(e, o, n); from_client(a, e, n); } free(e);
  MB m = mpublish(0, 0, 0, "ok", 2, 0, &v, 1); to_broker(agg ? aggc : c, &m, cn ? "the session of the client is broken" : "another client is disturbed"); quiet("more than the PUBLISH is sent"); forget(); }
static void sayx(const W* w) { uint8_t o[64]; int n = wfinish(w, o); uint8_t* e; if (fwd) { e = (uint8_t*)malloc(4 + n); e[0] = 4; e[1] = T_ENCAP; e[2] = 0; e[3] = NID; memcpy(e + 4, o, n); from_client(8, e, n + 4); } else { e = (uint8_t*)malloc(n); memcpy(e, o, n); from_client(1, e, n); } free(e); }
static Client* me(void) { MQTTSNString s = MQTTSNString_initializer; s.cstring = (char*)"abc"; return gw->getClientList()->getClient(&s); }
static Client* other(void) { W w = wconnect("another client", F_CLEAN, 60); say(3, &w); Client* c = by_addr(3); if (!agg) { MB m = mconnack(0); say_b(c, &m); } A(c->isActive(), "another client cannot connect"); forget(); return c; }
static void in_state(int st) {
  W w; MB m; uint8_t v = 7;
  if (st == 0) return;
  w = wconnect("abc", st == 6 || st == 7 ? F_WILL | F_CLEAN : 0, 60); sayx(&w);
  if (st == 6) return; if (st == 7) { w = w1(T_WILLTOPIC); w8(&w, 0); wb(&w, "wt", 2); sayx(&w); return; }
  Client* c = me(); if (st == 2) return; if (!agg) { m = mconnack(0); say_b(c, &m); } A(c->isActive(), "the client cannot connect"); Client* b = agg ? aggc : c;
  w = wregister(0, 9, "x/y", 3); sayx(&w); w = w1(T_SUBSCRIBE); w8(&w, F_QOS(1)); w16(&w, 11); wb(&w, "a/#", 3); sayx(&w); if (!agg) { m = mb(); mhead(&m, 9, 0, 3); m16(&m, 11); m8(&m, 1); say_b(b, &m); }
  w = wpublish(F_QOS(1) | 2, 's', 't', 12, &v, 1); sayx(&w); w = wpublish(F_QOS(2) | 2, 's', 't', 13, &v, 1); sayx(&w);
  if (st == 3) return;
  if (st == 1) { w = wdisconnect(-1); sayx(&w); return; }
  if (st == 8) { m = mpublish(0, 1, 0, "a/b", 3, 21, &v, 1); say_b(b, &m); return; }
  w = wdisconnect(50); sayx(&w); if (st == 4 || st == 5) { m = mpublish(0, 1, 0, "a/b", 3, 22, &v, 1); say_b(b, &m); } if (st == 5) { w = w1(T_PINGREQ); sayx(&w); } }
static Client* by_fwd(void) { SensorNetAddress a = addr_of(8); Forwarder* f = gw->getAdapterManager()->getForwarderList()->getForwarder(&a); WirelessNodeId id; uint8_t i = NID; id.setId(&i, 1); A(f != 0, "the forwarder is unknown"); return f->getClient(&id); }
void sym_main(void) {
  int what = sym_param("what", 0), st = sym_param("st", 3), k = sym_param("k", 1), lo = sym_param("t0", 0), hi = sym_param("t1", 255); agg = sym_param("agg", 0); qm1 = sym_param("qm1", 0); fwd = sym_param("fwd", 0); node = 1; strict = !what; start(agg, fwd, qm1);
  if (agg) { tick(1, 2000); aggc = ((Adapter*)gw->getAdapterManager()->getAggregater())->getClient(); MB m = mconnack(0); say_b(aggc, &m); A(aggc->isActive(), "the aggregater cannot connect"); forget(); }
  Client* x = other(); in_state(st); forget(); Client* c = st ? me() : 0;
  for (int r = 0; r < k; r++) {
    int p = fwd && !what ? 4 : 0, n = sym_pick(sym_param("n0", 0), sym_param("n", 8), "size"); uint8_t* b = sym_bytes_new(n + p, "bytes"); if (p) { b[0] = 4; b[1] = T_ENCAP; b[2] = 0; b[3] = NID; } int was = c ? c->isActive() : 0;
    if (what == 0) {
      int ty = n < 2 ? -1 : b[p] == 1 ? n > 3 ? b[p + 3] : -1 : b[p + 1];
      sym_assume(ty < 0 || (ty >= lo && ty <= hi));
      if (ty == T_CONNECT && n >= 20 && memcmp(b + 6, "another client", 14) == 0) sym_exit();
      from_client(fwd ? 8 : 1, b, n + p);
      if (c == 0) { c = fwd ? by_fwd() : by_addr(1); if (c) { A(ty == T_CONNECT, "a node which has not connected becomes a client"); sym_reach("new client"); } else { A(nb == 0, "something of a node nobody knows is passed on"); for (int i = 0; i < nc; i++) A(outc[i].bcast, "a node nobody knows is answered"); } }
      if (c && ty == T_CONNECT) { Client* p = fwd ? by_fwd() : by_addr(1); if (p) { if (p != c) sym_reach("another client"); c = p; } }
      check_out(c, ty == T_SEARCHGW); if (nb) sym_reach("passed on"); if (nc) sym_reach("answered"); if (!nb && !nc) sym_reach("ignored");
      if (was && ty != T_CONNECT && ty != T_DISCONNECT) A(c->isActive(), "a message which is no CONNECT or DISCONNECT ends the session");
    } else {
      Client* t = agg ? aggc : c; if (t == 0 || !t->getNetwork()->isValid()) break; if (n) sym_assume(b[0] >= lo && b[0] <= hi);
      if (sym_param("one", 0) && n > 1) sym_assume(b[1] == n - 2);
      for (int i = 0; i + 1 < n;) { sym_assume(b[i + 1] <= n); b[i + 1] = sym_concretize(b[i + 1]); i += 2 + b[i + 1]; } if (r == k - 1 && sym_pick(0, 1, "then") == 1) br_end = 1; from_broker(t, b, n);
      if (!agg) check_out(c, 0); else for (int i = 0; i < nb; i++) A(outb[i].net == t->getNetwork() && wf_mqtt(&outb[i]), "a malformed packet is sent to the broker, or to another");
      if (nc) sym_reach("answered"); else sym_reach("ignored"); }
    forget(); free(b); }
  if (c && c->isActive() && (!agg || aggc->isActive())) { if (what == 0 || c->getNetwork()->isValid()) probe(1, c, 1); sym_reach("usable"); }
  if (!agg || aggc->isActive()) probe(3, x, 0); sym_reach("end"); }
