// PUBLISH of the broker on its way to a client. what = 0 one message of any kind to an active client, 1 messages near the size limits, 2 acknowledgements, 3 a sleeping client, 4 more messages than are stored, 5 messages waiting for two REGACKs
#include "gwfix.h"
static Client *c, *other; static int n1, clean; static uint8_t pay[1100]; static int pn;
struct Msg { int tn, kind, id, qos, dup, ret, mid, pn; uint8_t p[4]; char t[8]; };   /* kind: 0 short, 1 id of a registered name, 2 predefined, 3 to be registered, 4 not wanted */
static int regid, regmid, cp;
static void world(int sub) {
  start(); gw->getTopics()->add("g/p", 40); other = join(2, "other"); other->getTopics()->add("other", 41); reg(2, 9, "zzz"); reg(2, 10, "yyy"); reg(2, 11, "xxx");
  clean = sym_pick(0, 1, "clean"); c = join(1, "abc", clean); cp = clean ? 41 : 0x1234; c->getTopics()->add("c/p", cp); n1 = reg(1, 9, "a/b");
  if (sub) { W w = w1(T_SUBSCRIBE); w8(&w, F_QOS(1)); w16(&w, 77); wb(&w, "x/#", 3); say(1, &w); MB m = mb(); mhead(&m, 9, 0, 3); m16(&m, 77); m8(&m, 1); say_b(c, &m); A(nb == 1 && nc == 1, "SUBSCRIBE and SUBACK are not passed on"); forget(); } }
static Msg any(int i, int qlo, int qhi, int maxk) {
  static const char* nm[5] = { "ab", "a/b", "c/p", "x/y", "w" }; Msg m; m.kind = sym_pick(0, maxk, "topic"); strcpy(m.t, nm[m.kind]); m.tn = strlen(m.t); if (m.kind == 0) { sym_bytes(m.t, 2, "short"); sym_assume(m.t[0] && m.t[1]); }
  m.qos = sym_pick(qlo, qhi, "qos"); m.dup = sym_bool("dup"); if (!m.qos) sym_assume(!m.dup); m.ret = sym_bool("retain"); m.mid = sym_u16("msgid"); if (m.qos) sym_assume(m.mid != 0); else m.mid = 0; m.pn = 2; m.p[0] = i; m.p[1] = sym_u8("payload"); m.id = m.kind == 1 ? n1 : m.kind == 2 ? cp : 0;
  if (m.kind == 4 && !clean) m.kind = 3; return m; }
static MB mmsg(const Msg* m) { MB o = mpublish(0, m->qos, 0, m->t, m->tn, m->mid, m->p, m->pn); o.b[0] |= m->dup << 3 | m->ret; return o; }
static W wmsg(const Msg* m) { const uint8_t* t = (const uint8_t*)m->t; int fl = F_QOS(m->qos) | m->ret << 4 | m->dup << 7; return m->kind == 0 ? wpublish(fl | 2, t[0], t[1], m->mid, m->p, m->pn) : wpublish(fl | (m->kind == 2), m->id >> 8, m->id & 255, m->mid, m->p, m->pn); }
/* REGISTER of a name: keeps the ids */
static void wants_register(const char* t, int tn) {
  if (ic >= nc) { A(0, "a message of an unknown topic is not announced with REGISTER"); sym_exit(); } Dgram* d = &outc[ic]; A(d->n == 6 + tn && d->b[1] == T_REGISTER, "a message of an unknown topic is not announced with REGISTER"); if (d->n != 6 + tn) sym_exit();
  regid = d->b[2] << 8 | d->b[3]; regmid = d->b[4] << 8 | d->b[5]; A(regid != 0 && regid != 0xffff && regid != n1, "REGISTER gives a topic id which is reserved or in use"); A(regmid != 0, "REGISTER has no message id"); W w = wregister(regid, regmid, t, tn); to_client(1, &w, "REGISTER does not announce the topic of the message"); }
static void acked(const Msg* m, const char* what) { if (m->qos) { MB a = mack(m->qos == 1 ? 4 : 5, 0, m->mid); to_broker(c, &a, what); } }
void sym_main(void) {
  int what = sym_param("what", 0); MB m; W w;
  if (what == 0) {
    world(1); Msg g = any(0, 0, 2, 4); int mx = sym_param("n", 3);
    if (sym_pick(0, 1, "any name")) { g.tn = sym_pick(1, mx, "name length"); sym_bytes(g.t, g.tn, "name"); for (int i = 0; i < g.tn; i++) sym_assume(g.t[i] && g.t[i] != '+' && g.t[i] != '#'); int k = g.tn == 2 ? 0 : g.tn == 3 && sym_concretize(!memcmp(g.t, "a/b", 3)) ? 1 : g.tn == 3 && sym_concretize(!memcmp(g.t, "c/p", 3)) ? 2 : (g.tn == 1 ? sym_concretize(g.t[0] == 'x') : sym_concretize(g.t[0] == 'x' && g.t[1] == '/')) || !clean ? 3 : 4; g.kind = k; g.id = k == 1 ? n1 : k == 2 ? cp : 0; if (k != 0 && g.tn == 3) sym_assume(memcmp(g.t, "g/p", 3) != 0); }
    m = mmsg(&g); say_b(c, &m);
    if (g.kind == 4) { quiet_c("a message the client has not subscribed is delivered"); acked(&g, "a message the client has not subscribed is not acknowledged"); quiet("more than the acknowledgement is sent"); sym_reach("not wanted"); sym_exit(); }
    if (g.kind == 3) { wants_register(g.t, g.tn); quiet("more than REGISTER is sent before REGACK"); forget(); g.id = regid; g.kind = 1;
      if (sym_pick(0, 1, "stray")) { int o = sym_u16("otherid"); sym_assume(o != regmid); w = wack(T_REGACK, regid, o, 0); say(1, &w); quiet("REGACK for no REGISTER makes a message appear"); }
      w = wack(T_REGACK, regid, regmid, 0); say(1, &w); w = wmsg(&g); to_client(1, &w, "the message is not delivered after REGACK"); quiet("more than the message is sent after REGACK"); forget();
      w = wack(T_REGACK, regid, regmid, 0); say(1, &w); quiet("a second REGACK makes a message appear again"); sym_reach("registered");
      uint8_t v = sym_u8("value"); m = mpublish(0, 0, 0, g.t, g.tn, 0, &v, 1); say_b(c, &m); w = wpublish(0, regid >> 8, regid & 255, 0, &v, 1); to_client(1, &w, "a later message of the topic does not come with the same topic id"); quiet("more than the message is sent"); }
    else { w = wmsg(&g); to_client(1, &w, "a message does not reach the client as it is"); quiet("more than the message is sent"); sym_reach("delivered"); }
  } else if (what == 1) {
    world(0); pn = sym_pick(sym_param("n0", 0), sym_param("n1", 4), "payload length"); sym_bytes(pay, pn, "payload"); int q = sym_pick(0, 2, "qos"); uint16_t mid = q ? 9 : 0; m = mpublish(0, q, 0, "a/b", 3, mid, pay, pn); say_b(c, &m);
    int total = pn + 7 <= 255 ? pn + 7 : pn + 9;
    if (total <= 1024) { w = wpublish(F_QOS(q), n1 >> 8, n1 & 255, mid, pay, pn); to_client(1, &w, "a message does not reach the client as it is"); quiet("more than the message is sent"); sym_reach("delivered"); }
    else { quiet("a message which is too long for the sensor network is sent"); sym_reach("too long"); }
    forget(); uint8_t v = 5; m = mpublish(0, 0, 0, "a/b", 3, 0, &v, 1); say_b(c, &m); w = wpublish(0, n1 >> 8, n1 & 255, 0, &v, 1); to_client(1, &w, "the next message is not delivered"); quiet("more than the message is sent");
  } else if (what == 2) {
    world(0); Msg g = any(0, 1, 2, 2); m = mmsg(&g); say_b(c, &m); w = wmsg(&g); to_client(1, &w, "a message does not reach the client as it is"); quiet("more than the message is sent"); forget(); int mid = g.mid;
    if (g.qos == 1) { int rc = sym_u8("rc"); int tid = sym_u16("topic id"); w = wack(T_PUBACK, tid, mid, rc); say(1, &w); if (sym_concretize(rc == 0)) { m = mack(4, 0, mid); to_broker(c, &m, "PUBACK of the client does not reach the broker"); sym_reach("acknowledged"); } else sym_reach("rejected"); quiet("PUBACK of the client makes something else happen"); }
    else { w = wid(T_PUBREC, mid); say(1, &w); m = mack(5, 0, mid); to_broker(c, &m, "PUBREC of the client does not reach the broker"); quiet("more than PUBREC is sent"); forget();
      int asleep = sym_pick(0, 2, "asleep"); if (asleep) { w = wdisconnect(60); say(1, &w); forget(); }
      if (asleep == 2) { w = w1(T_PINGREQ); say(1, &w); forget(); m = mack(6, 2, mid); say_b(c, &m); w = wid(T_PUBREL, mid); to_client(1, &w, "PUBREL of the broker does not reach a client which is awake"); quiet("more than PUBREL is sent"); sym_reach("awake"); sym_exit(); }
      m = mack(6, 2, mid); say_b(c, &m); if (asleep) { m = mack(7, 0, mid); to_broker(c, &m, "PUBREL for a sleeping client is not answered"); quiet("more than PUBCOMP is sent"); sym_reach("asleep"); }
      else { w = wid(T_PUBREL, mid); to_client(1, &w, "PUBREL of the broker does not reach the client"); quiet("more than PUBREL is sent"); w = wid(T_PUBCOMP, mid); say(1, &w); m = mack(7, 0, mid); to_broker(c, &m, "PUBCOMP of the client does not reach the broker"); quiet("more than PUBCOMP is sent"); sym_reach("qos 2"); } }
  } else if (what == 3) {
    world(1); int k = sym_pick(1, sym_param("k", 2), "messages"); Msg g[4]; w = wdisconnect(60); say(1, &w); w = wdisconnect(-1); to_client(1, &w, "DISCONNECT is not answered"); quiet("a client going to sleep is noticed by the broker"); forget();
    for (int i = 0; i < k; i++) { g[i] = any(i, 0, 2, sym_param("kinds", 4)); m = mmsg(&g[i]); say_b(c, &m); quiet_c("something is sent to a sleeping client"); acked(&g[i], "a message for a sleeping client is not acknowledged"); quiet("more than the acknowledgement is sent"); forget(); }
    int how = sym_pick(0, 2, "wakes up"); if (how == 2) { w = wconnect("abc", clean ? F_CLEAN : 0, 60); say(1, &w); w = w1(T_CONNACK); w8(&w, 0); to_client(1, &w, "CONNECT of a sleeping client is not answered"); } else { w = w1(T_PINGREQ); if (how) wb(&w, "abc", 3); say(1, &w); }
    int waits = 0, id4 = 0, id3 = 0, mids[4], first[4]; Msg later[4]; int nl = 0;
    for (int i = 0; i < k; i++) {
      if (g[i].kind == 4) { acked(&g[i], "a message the client has not subscribed is lost"); continue; }
      if (g[i].kind == 3) { int x = g[i].t[0] == 'x', id = x ? id3 : id4; if (!id) { wants_register(g[i].t, g[i].tn); id = regid; if (x) id3 = id; else id4 = id; g[i].id = id; g[i].kind = 1; mids[nl] = regmid; later[nl++] = g[i]; waits++; continue; } g[i].id = id; g[i].kind = 1; }
      w = wmsg(&g[i]); to_client(1, &w, "the stored messages are not delivered in order, as they are"); }
    if (waits) { quiet("PINGREQ is passed on before the stored messages are delivered"); for (int i = 0; i < nl; i++) { forget(); w = wack(T_REGACK, later[i].id, mids[i], 0); say(1, &w); w = wmsg(&later[i]); to_client(1, &w, "a stored message is not delivered after REGACK"); if (i < nl - 1) quiet("PINGREQ is passed on before the stored messages are delivered"); else sym_reach("registered"); } }
    if (how < 2) { m = mshort(12, 0); to_broker(c, &m, "PINGREQ is not passed on after the stored messages"); quiet("more than PINGREQ is sent"); forget(); A(c->isAwake(), "the client is not awake"); m = mshort(13, 0); say_b(c, &m); w = w1(T_PINGRESP); to_client(1, &w, "PINGRESP does not end the delivery"); quiet("more than PINGRESP is sent"); A(c->isSleep(), "the client does not sleep again after PINGRESP"); sym_reach("asleep again"); forget();
      uint8_t v = 9; m = mpublish(0, 0, 0, "a/b", 3, 0, &v, 1); say_b(c, &m); quiet("something is sent to a sleeping client"); w = w1(T_PINGREQ); say(1, &w); w = wpublish(0, n1 >> 8, n1 & 255, 0, &v, 1); to_client(1, &w, "a message stored in the second sleep is not delivered"); m = mshort(12, 0); to_broker(c, &m, "PINGREQ is not passed on after the stored messages"); quiet("a stored message is delivered twice"); }
    else { quiet("more than the stored messages is sent"); A(c->isActive(), "the client is not active after CONNECT"); sym_reach("connected"); (void)first; }
  } else if (what == 4) {
    world(0); w = wdisconnect(60); say(1, &w); forget(); int k = sym_param("k", 24), kept = 0; uint8_t v[32];
    for (int i = 0; i < k; i++) { v[i] = sym_u8("value"); m = mpublish(0, 1, 0, "a/b", 3, 100 + i, &v[i], 1); say_b(c, &m); quiet_c("something is sent to a sleeping client"); if (nb) { A(i == kept, "a message is stored after one was refused"); kept++; m = mack(4, 0, 100 + i); to_broker(c, &m, "a stored message is not acknowledged"); } quiet("more than the acknowledgement is sent"); forget(); }
    A(kept >= 20, "less than 20 messages are stored"); A(kept < k, "the number of stored messages is not bounded"); w = w1(T_PINGREQ); say(1, &w);
    for (int i = 0; i < kept; i++) { w = wpublish(F_QOS(1), n1 >> 8, n1 & 255, 100 + i, &v[i], 1); to_client(1, &w, "the stored messages are not delivered in order, as they are"); } m = mshort(12, 0); to_broker(c, &m, "PINGREQ is not passed on after the stored messages"); quiet("a message which was not acknowledged is delivered");
    forget(); m = mshort(13, 0); say_b(c, &m); forget(); m = mpublish(0, 1, 0, "a/b", 3, 200, v, 1); say_b(c, &m); m = mack(4, 0, 200); to_broker(c, &m, "there is no room for messages again after they were delivered"); quiet("more than the acknowledgement is sent");
  } else {
    world(1); static const char* nm[3] = { "x/y", "x/z", "x/long" }; int mids[3], ids[3], q[3], bm[3]; uint8_t v[3]; sym_bytes(v, 3, "values");
    for (int i = 0; i < 3; i++) { q[i] = sym_pick(0, 2, "qos"); bm[i] = q[i] ? sym_u16("msgid") : 0; if (q[i]) sym_assume(bm[i] != 0); for (int j = 0; j < i; j++) if (q[i] && q[j]) sym_assume(bm[i] != bm[j]); m = mpublish(0, q[i], 0, nm[i], strlen(nm[i]), bm[i], &v[i], 1); say_b(c, &m); wants_register(nm[i], strlen(nm[i])); quiet("more than REGISTER is sent"); forget(); mids[i] = regmid; ids[i] = regid; for (int j = 0; j < i; j++) { A(ids[j] != ids[i], "two topics get the same id"); A(mids[j] != mids[i], "two REGISTERs have the same message id"); } }
    int o = sym_pick(0, 5, "order"); static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    for (int i = 0; i < 3; i++) { int j = perm[o][i]; w = wack(T_REGACK, ids[j], mids[j], 0); say(1, &w); w = wpublish(F_QOS(q[j]), ids[j] >> 8, ids[j] & 255, bm[j], &v[j], 1); to_client(1, &w, "REGACK does not release the message of its topic"); quiet("REGACK releases more than the message of its topic"); forget(); }
  }
  sym_reach("end"); }
