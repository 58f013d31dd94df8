// The aggregating gateway: all clients share one connection. what = 0 the connection, 1 PUBLISH of two clients, 2 subscriptions and delivery, 3 a sleeping client, 4 QoS 2
#include "gwfix.h"
static Client *ag, *c[3];
static MB aconnect(void) { return mconnect("gw_Aggregater", 0, 900); }
static void up(void) { tick(1, 2000); if (ib >= nb) { A(0, "the aggregater does not connect"); sym_exit(); } ag = ((Adapter*)gw->getAdapterManager()->getAggregater())->getClient(); Bpkt* o = &outb[ib]; A(o->net == ag->getNetwork() && o->n > 12 && o->b[0] == 0x10, "the aggregater does not connect"); ib++; quiet("more than CONNECT is sent"); MB m = mconnack(0); say_b(ag, &m); quiet("CONNACK of the aggregater is passed on to somebody"); A(ag->isActive(), "the aggregater is not active after CONNACK"); forget(); }
static Client* ajoin(int a, const char* id, int clean) { W w = wconnect(id, clean ? F_CLEAN : 0, 60); say(a, &w); w = w1(T_CONNACK); w8(&w, 0); to_client(a, &w, "CONNECT of a client is not answered by the aggregating gateway"); quiet("CONNECT of a client reaches the broker"); forget(); Client* x = by_addr(a); A(x->isActive(), "the client is not active after CONNACK"); return x; }
/* the id the broker gets, at offset o of the packet */
static int bid(int o) { return ib < nb && outb[ib].n >= o + 2 ? outb[ib].b[o] << 8 | outb[ib].b[o + 1] : 0; }
static const char* flt[6] = { "a/b", "a/#", "+/b", "ab", "#", "x/y" }; static const char* top[5] = { "a/b", "c/b", "ab", "x/y", "a/c" };
static const int hit[6][5] = { { 1, 0, 0, 0, 0 }, { 1, 0, 0, 0, 1 }, { 1, 1, 0, 0, 0 }, { 0, 0, 1, 0, 0 }, { 1, 1, 1, 1, 1 }, { 0, 0, 0, 1, 0 } };
static int subid[3][6], has[3][6], known[3][5];
static void asub(int i, int f, int mid, int rc = 1) { int sh = strlen(flt[f]) == 2; W w = w1(T_SUBSCRIBE); w8(&w, F_QOS(1) | (sh ? 2 : 0)); w16(&w, mid); wb(&w, flt[f], strlen(flt[f])); say(i + 1, &w); int b = bid(2); A(b != 0 && b != 0xffff, "a SUBSCRIBE has no message id"); MB m = mb(); int n = strlen(flt[f]); mhead(&m, 8, 2, 5 + n); m16(&m, b); mstr(&m, flt[f], n); m8(&m, 1); to_broker(ag, &m, "a SUBSCRIBE does not reach the broker"); quiet("more than SUBSCRIBE is sent"); forget();
  m = mb(); mhead(&m, 9, 0, 3); m16(&m, b); m8(&m, rc); say_b(ag, &m); if (nc != 1 || outc[0].n != 8) { A(0, "SUBACK does not reach the client"); sym_exit(); } subid[i][f] = outc[0].b[3] << 8 | outc[0].b[4]; int wild = f == 1 || f == 2 || f == 4; if (wild) A(subid[i][f] == 0, "a wildcard has a topic id"); w = wsuback(rc == 1, subid[i][f], mid, rc == 1 ? 0 : 2); to_client(i + 1, &w, "SUBACK does not reach the client which subscribed"); quiet("SUBACK reaches somebody else"); forget(); if (rc == 1) has[i][f] = 1; if (f == 0) known[i][0] = subid[i][f]; if (f == 5) known[i][3] = subid[i][f]; }
static int wants(int i, int t) { int r = 0; for (int f = 0; f < 6; f++) r |= has[i][f] && hit[f][t]; return r; }
/* a message of topic t: every client which wants it gets it once, the others nothing */
static uint8_t lastv; static int lastmid;
static void spread(int t, int q, int nclients, const char* what) {
  uint8_t v = sym_u8("value"); int mid = q ? sym_u16("msgid") : 0; lastv = v; lastmid = mid; if (q) sym_assume(mid != 0); int n = strlen(top[t]); MB m = mpublish(0, q, 0, top[t], n, mid, &v, 1); say_b(ag, &m);
  if (q) { m = mack(q == 1 ? 4 : 5, 0, mid); to_broker(ag, &m, "a message of the broker is not acknowledged"); }
  quiet_b("a message of the broker is acknowledged more than once"); int got = 0; int reg[3] = { 0, 0, 0 }, rm[3];
  for (int k = 0; k < nc; k++) { int i = -1; for (int j = 0; j < nclients; j++) { SensorNetAddress s = addr_of(j + 1); if (outc[k].ip == s.getIpAddress() && outc[k].port == s.getPortNo()) i = j; } if (i < 0 || got >> i & 1 || !wants(i, t)) { A(0, what); continue; } got |= 1 << i;
    int keep = ic; ic = k; W w;
    if (n == 2) { w = wpublish(F_QOS(q) | 2, top[t][0], top[t][1], mid, &v, 1); to_client(i + 1, &w, what); }
    else if (known[i][t]) { w = wpublish(F_QOS(q), known[i][t] >> 8, known[i][t] & 255, mid, &v, 1); to_client(i + 1, &w, what); }
    else { Dgram* d = &outc[k]; if (d->n != 6 + n || d->b[1] != T_REGISTER) { A(0, "a message of a new topic is not announced with REGISTER"); sym_exit(); } reg[i] = d->b[2] << 8 | d->b[3]; rm[i] = d->b[4] << 8 | d->b[5]; w = wregister(reg[i], rm[i], top[t], n); to_client(i + 1, &w, "REGISTER does not announce the topic of the message"); }
    ic = keep; }
  for (int i = 0; i < nclients; i++) if (wants(i, t)) A(got >> i & 1, "a client which subscribed does not get the message");
  forget(); for (int i = 0; i < nclients; i++) if (reg[i]) { W w = wack(T_REGACK, reg[i], rm[i], 0); say(i + 1, &w); w = wpublish(F_QOS(q), reg[i] >> 8, reg[i] & 255, mid, &v, 1); to_client(i + 1, &w, "the message is not delivered after REGACK"); quiet("more than the message is sent"); forget(); known[i][t] = reg[i]; }
  if (q == 2) { m = mack(6, 2, mid); say_b(ag, &m); m = mack(7, 0, mid); to_broker(ag, &m, "PUBREL of the broker is not answered"); quiet("more than PUBCOMP is sent"); forget(); }
  if (q == 1) for (int i = 0; i < nclients; i++) if (got >> i & 1) { W w = wack(T_PUBACK, 1, mid, 0); say(i + 1, &w); quiet("the PUBACK of an aggregated client is sent to the broker again"); }
  if (q == 2) for (int i = 0; i < nclients; i++) if (got >> i & 1) { W w = wid(T_PUBREC, mid); say(i + 1, &w); w = wid(T_PUBREL, mid); to_client(i + 1, &w, "PUBREC of an aggregated client is not answered with PUBREL"); quiet("PUBREC of an aggregated client is sent to the broker again"); w = wid(T_PUBCOMP, mid); say(i + 1, &w); quiet("PUBCOMP of an aggregated client is passed on"); forget(); } }
void sym_main(void) {
  int what = sym_param("what", 0); MB m; W w; start(1);
  if (what == 0) {
    int k = sym_param("k", 4); ag = ((Adapter*)gw->getAdapterManager()->getAggregater())->getClient(); enum { D, C, U } st = D; int want = 0; (void)want; int open_ = 0;
    for (int i = 0; i < k; i++) { int op = sym_pick(0, 5, "op");
      switch (op) {
      case 0: tick(1, 2000); if (st == D) { A(nb == 1 && outb[0].n > 12 && outb[0].b[0] == 0x10 && outb[0].net == ag->getNetwork(), "the aggregater does not connect to the broker"); ib = nb; st = C; open_ = 1; sym_reach("connects"); } break;
      case 1: if (st != C) sym_exit(); m = mconnack(0); say_b(ag, &m); st = U; break;
      case 2: if (!open_) sym_exit(); br_end = sym_pick(1, st == C ? 1 : 2, "closed"); from_broker(ag, 0, 0); st = D; open_ = 0; sym_reach("closed"); break;
      case 3: { int a = sym_pick(1, 2, "client"); if (by_addr(a) && !by_addr(a)->isDisconnect()) sym_exit(); c[a] = ajoin(a, a == 1 ? "abc" : "abcd", 1); break; }
      case 4: { int a = sym_pick(1, 2, "client"); if (!by_addr(a) || by_addr(a)->isDisconnect()) sym_exit(); w = wdisconnect(-1); say(a, &w); to_client(a, &w, "DISCONNECT is not answered"); A(by_addr(a)->isDisconnect(), "the client is not disconnected"); sym_reach("left"); break; }
      case 5: { int a = sym_pick(1, 2, "client"); if (!by_addr(a) || by_addr(a)->isDisconnect()) sym_exit(); w = w1(T_PINGREQ); say(a, &w); w = w1(T_PINGRESP); to_client(a, &w, "PINGREQ is not answered"); sym_reach("ping"); break; }
      }
      quiet("something else is sent"); forget(); A(ag->isActive() == (st == U) && ag->isConnecting() == (st == C) && ag->isDisconnect() == (st == D), "the state of the aggregater is wrong"); A(ag->getNetwork()->isValid() == !!open_, "the connection is not open exactly while it is needed"); }
    sym_reach("end"); sym_exit(); }
  up(); c[0] = ajoin(1, "abc", sym_pick(0, 1, "clean")); c[1] = ajoin(2, "abcd", 1);
  if (what == 1) {
    int n = sym_param("k", 2), bids[4], who[4], mids[4], tid[4]; static const char* nm[2] = { "p/q", "r/s" }; int id[2]; for (int i = 0; i < 2; i++) id[i] = reg(i + 1, 5, nm[i]); uint8_t v[4];
    int m1 = sym_u16("msgid"), m2 = sym_u16("msgid"); sym_assume(m1 && m2 && m1 != m2);
    for (int i = 0; i < n; i++) { who[i] = sym_pick(0, 1, "client"); mids[i] = sym_pick(0, 1, "which id") ? m2 : m1; int sh = sym_pick(0, 1, "short"); v[i] = sym_u8("value"); tid[i] = sh ? 's' << 8 | 't' : id[who[i]]; const char* t = sh ? "st" : nm[who[i]];
      int again = -1; for (int j = 0; j < i; j++) if (who[j] == who[i] && mids[j] == mids[i]) again = j;
      w = wpublish(F_QOS(1) | (sh ? 2 : 0), tid[i] >> 8, tid[i] & 255, mids[i], v + i, 1); say(who[i] + 1, &w); int b = bid(4 + strlen(t)); A(b != 0 && b != 0xffff, "a PUBLISH has no message id"); bids[i] = b; for (int j = 0; j < i; j++) A((bids[j] == b) == (j == again || (again >= 0 && bids[j] == bids[again])), "two messages share an id at the broker, or one sent again gets a new one");
      m = mpublish(0, 1, 0, t, strlen(t), b, v + i, 1); to_broker(ag, &m, "a PUBLISH of an aggregated client does not reach the broker"); quiet("more than the PUBLISH is sent"); forget(); if (again >= 0) sym_exit(); }
    int first = sym_pick(0, n - 1, "first answered");
    for (int k = 0; k < n; k++) { int i = (first + k) % n; m = mack(4, 0, bids[i]); say_b(ag, &m); w = wack(T_PUBACK, tid[i], mids[i], 0); to_client(who[i] + 1, &w, "PUBACK does not come back to its client with topic and message id of the message"); quiet("more than PUBACK is sent"); forget(); m = mack(4, 0, bids[i]); say_b(ag, &m); quiet("a second PUBACK is passed on"); }
    int o = sym_u16("otherid"); m = mack(4, 0, o); say_b(ag, &m); quiet("a PUBACK for no message is passed on");
  } else if (what == 2) {
    int k = sym_param("k", 2), mid = 10, nm = sym_param("filters", 6) - 1; c[2] = ajoin(3, "xyz", 1);
    for (int s = 0; s < k; s++) { int op = sym_pick(0, s ? 4 : 0, "op"), i = sym_pick(0, s ? 2 : 1, "client"), f = sym_pick(0, nm, "filter"); if (op == 3) sym_assume(i == 0 && f == 0); if (op == 2) sym_assume(f == 0); if (op == 4) sym_assume(i != 2);
      if (op == 0) { asub(i, f, ++mid); }
      else if (op == 1) { int sh = strlen(flt[f]) == 2, n = strlen(flt[f]); if (!has[i][f]) sym_exit(); w = w1(T_UNSUBSCRIBE); w8(&w, sh ? 2 : 0); w16(&w, ++mid); wb(&w, flt[f], n); say(i + 1, &w); has[i][f] = 0; int others = 0; for (int j = 0; j < 3; j++) others |= has[j][f];
        if (!others) { int b = bid(2); A(b != 0 && b != 0xffff, "an UNSUBSCRIBE has no message id"); m = mb(); mhead(&m, 10, 2, 4 + n); m16(&m, b); mstr(&m, flt[f], n); to_broker(ag, &m, "the UNSUBSCRIBE of the last client does not reach the broker"); quiet("more than UNSUBSCRIBE is sent"); forget(); m = mack(11, 0, b); say_b(ag, &m); sym_reach("last"); } else sym_reach("not last");
        w = wid(T_UNSUBACK, mid); to_client(i + 1, &w, "UNSUBSCRIBE is not answered"); quiet("UNSUBSCRIBE ends the subscription of other clients"); forget(); }
      else if (op == 2) { w = wdisconnect(-1); say(i + 1, &w); forget(); ajoin(i + 1, i == 0 ? "abc" : i == 1 ? "abcd" : "xyz", 1); for (int j = 0; j < 6; j++) has[i][j] = 0; for (int j = 0; j < 5; j++) known[i][j] = 0; sym_reach("clean"); }
      else if (op == 4) { asub(i, f, ++mid, 0x80); sym_reach("refused"); }
      else { spread(sym_pick(0, 4, "topic"), 0, 3, "a message reaches a client which has not subscribed it, or twice"); } }
    spread(sym_pick(0, 4, "topic"), sym_pick(0, sym_param("qos", 2), "qos"), 3, "a message reaches a client which has not subscribed it, or twice");
  } else if (what == 3) {
    int f = sym_pick(0, 5, "filter"), q = sym_pick(0, 2, "qos"), n = sym_pick(1, sym_param("k", 2), "messages"), t[4], mid[4]; uint8_t v[4]; asub(0, f, 11); asub(1, f, 12); w = wdisconnect(50); say(1, &w); w = wdisconnect(-1); to_client(1, &w, "DISCONNECT is not answered"); quiet("a client going to sleep is noticed by the broker"); forget(); A(c[0]->isSleep(), "the client is not asleep");
    for (int i = 0; i < n; i++) { t[i] = sym_pick(0, 4, "topic"); if (!hit[f][t[i]]) sym_exit(); has[0][f] = 0; spread(t[i], q, 2, "a message reaches a sleeping client"); has[0][f] = 1; v[i] = lastv; mid[i] = lastmid; }
    int by = sym_pick(0, 1, "wakes by CONNECT"), nl = 0, later[4], rid[4], rmid[4];
    if (by) { w = wconnect("abc", 0, 60); say(1, &w); w = w1(T_CONNACK); w8(&w, 0); to_client(1, &w, "CONNECT of a sleeping client is not answered"); A(c[0]->isActive(), "a client which wakes up by CONNECT is not active"); sym_reach("CONNECT"); } else { w = w1(T_PINGREQ); say(1, &w); }
    for (int i = 0; i < n; i++) { const char* s = top[t[i]]; int tn = strlen(s);
      if (tn == 2) { w = wpublish(F_QOS(q) | 2, s[0], s[1], mid[i], &v[i], 1); to_client(1, &w, "the stored messages are not delivered in order, as they are"); continue; }
      if (!known[0][t[i]]) { Dgram* d = &outc[ic]; if (ic >= nc || d->n != 6 + tn || d->b[1] != T_REGISTER) { A(0, "a stored message of a new topic is not announced with REGISTER"); sym_exit(); } rid[nl] = d->b[2] << 8 | d->b[3]; rmid[nl] = d->b[4] << 8 | d->b[5]; w = wregister(rid[nl], rmid[nl], s, tn); to_client(1, &w, "REGISTER does not announce the topic of the message"); A(rid[nl] && rid[nl] != 0xffff, "a topic gets a reserved id"); known[0][t[i]] = rid[nl]; later[nl++] = i; continue; }
      w = wpublish(F_QOS(q), known[0][t[i]] >> 8, known[0][t[i]] & 255, mid[i], &v[i], 1); to_client(1, &w, "the stored messages are not delivered in order, as they are"); }
    for (int i = 0; i < nl; i++) { quiet(by ? "more than the stored messages is sent" : "PINGRESP is sent before the stored messages are delivered"); forget(); w = wack(T_REGACK, rid[i], rmid[i], 0); say(1, &w); int j = later[i]; w = wpublish(F_QOS(q), rid[i] >> 8, rid[i] & 255, mid[j], &v[j], 1); to_client(1, &w, "a stored message is not delivered after REGACK"); sym_reach("registered"); }
    if (!by) { w = w1(T_PINGRESP); to_client(1, &w, "PINGRESP does not end the delivery"); A(c[0]->isSleep(), "the client does not sleep again after PINGRESP"); sym_reach("asleep again"); }
    quiet("more than the stored messages and the answer is sent"); sym_reach("delivered"); forget();
    if (!by) { has[0][f] = 0; spread(t[0], q, 2, "a message reaches a sleeping client"); has[0][f] = 1; w = w1(T_PINGREQ); say(1, &w); const char* s = top[t[0]]; int id = known[0][t[0]]; w = strlen(s) == 2 ? wpublish(F_QOS(q) | 2, s[0], s[1], lastmid, &lastv, 1) : wpublish(F_QOS(q), id >> 8, id & 255, lastmid, &lastv, 1); to_client(1, &w, "a message stored in the second sleep is not delivered"); w = w1(T_PINGRESP); to_client(1, &w, "PINGRESP does not end the delivery"); quiet("a stored message is delivered twice"); }
  } else {
    int i = sym_pick(0, 1, "client"), mid = sym_u16("msgid"), o = sym_u16("other"); sym_assume(mid && o && o != mid); uint8_t v = sym_u8("value"); int bb = 0; { w = wpublish(F_QOS(2) | 2, 'q', 'r', mid, &v, 1); say(2 - i, &w); bb = bid(6); A(nb == 1, "a PUBLISH does not reach the broker"); forget(); }
    w = wpublish(F_QOS(2) | 2, 's', 't', mid, &v, 1); say(i + 1, &w); int b = bid(6); m = mpublish(0, 2, 0, "st", 2, b, &v, 1); to_broker(ag, &m, "a PUBLISH of an aggregated client does not reach the broker"); quiet("more than the PUBLISH is sent"); A(b != bb && b != 0 && bb != 0 && b != 0xffff && bb != 0xffff, "two messages share an id at the broker"); forget();
    m = mack(5, 0, b); say_b(ag, &m); w = wid(T_PUBREC, mid); to_client(i + 1, &w, "PUBREC does not come back to its client"); quiet("more than PUBREC is sent"); forget(); if (sym_pick(0, 1, "again")) { m = mack(5, 0, b); say_b(ag, &m); to_client(i + 1, &w, "PUBREC sent again does not come back to its client"); forget(); }
    w = wid(T_PUBREL, mid); say(i + 1, &w); m = mack(6, 2, b); to_broker(ag, &m, "PUBREL does not reach the broker under the id of its message"); quiet("more than PUBREL is sent"); forget();
    m = mack(7, 0, b); say_b(ag, &m); w = wid(T_PUBCOMP, mid); to_client(i + 1, &w, "PUBCOMP does not come back to its client"); quiet("more than PUBCOMP is sent"); forget();
    w = wid(T_PUBREL, mid); say(i + 1, &w); w = wid(T_PUBCOMP, mid); to_client(i + 1, &w, "PUBREL sent again is not answered"); quiet("a PUBREL of a complete message reaches the broker"); forget();
    m = mack(5, 0, bb); say_b(ag, &m); w = wid(T_PUBREC, mid); to_client(2 - i, &w, "PUBREC does not come back to its client"); quiet("more than PUBREC is sent");
  }
  sym_reach("end"); }
