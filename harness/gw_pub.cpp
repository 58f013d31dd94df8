// PUBLISH of a client on its way to the broker, and the acknowledgements on their way back. what = 0 one PUBLISH of any kind, 1 the handshake of a QoS 1 or 2 message, 2 QoS 0 and -1 with a topic name
#include "gwfix.h"
static Client *c, *other; static int n1, n2; static uint8_t pay[8]; static int pn;
static void world(void) {
  start(); gw->getTopics()->add("g/p", 40); other = join(2, "other"); other->getTopics()->add("other", 41); reg(2, 9, "zzz"); reg(2, 10, "yyy"); reg(2, 11, "xxx");
  c = join(1, "abc", sym_pick(0, 1, "clean")); c->getTopics()->add("c/p", 41); n1 = reg(1, 9, "a/bcd"); n2 = reg(1, 10, "long/topic/name"); }
static const char* find(int type, int id) {
  if (type == 0) return sym_concretize(id == n1) ? "a/bcd" : sym_concretize(id == n2) ? "long/topic/name" : 0;
  if (type == 1) return sym_concretize(id == 41) ? "c/p" : sym_concretize(id == 40) ? "g/p" : 0;
  return 0; }
void sym_main(void) {
  int what = sym_param("what", 0); world(); MB m; W w;
  if (what == 0) {
    int q = sym_pick(0, 3, "qos"), type = sym_pick(0, 3, "type"); uint8_t fl = sym_u8("flags"); sym_assume((fl & 0x60) == q << 5); sym_assume((fl & 3) == type); if (q == 0 || q == 3) sym_assume(!(fl & F_DUP));
    uint8_t t[2]; sym_bytes(t, 2, "topic"); int mid = sym_u16("msgid"); pn = sym_pick(0, sym_param("n", 3), "payload length"); sym_bytes(pay, pn, "payload"); int id = t[0] << 8 | t[1];
    if (q == 3 && type == 0) sym_exit();                                  /* what = 2 */
    w = wpublish(fl, t[0], t[1], mid, pay, pn); say(1, &w);
    int z = sym_concretize(mid == 0), req = q == 1 || q == 2; const char* nm = type == 2 ? "" : find(type, id);
    if (type == 3) { quiet_b("a PUBLISH with a reserved topic type is passed on"); sym_reach("reserved"); }
    else if (req && z) { quiet_b("a QoS 1 or 2 PUBLISH without message id is passed on"); sym_reach("no id"); }
    else if (!nm && !req) { quiet("a QoS 0 or -1 PUBLISH with an unknown topic id is answered or passed on"); sym_reach("unknown"); }
    else if (!nm) { W r = wack(T_PUBACK, id, mid, 2); to_client(1, &r, "a PUBLISH with an unknown topic id is not refused"); quiet("a PUBLISH with an unknown topic id is passed on"); sym_reach("refused"); }
    else if (!req && !z && type != 2 && ib == nb) quiet_c("a QoS 0 PUBLISH is answered");                       /* a QoS 0 message with an id: dropped or passed on */
    else { uint8_t rt = (fl & F_RETAIN) != 0, dp = (fl & F_DUP) != 0; int tn = type == 2 ? 2 : strlen(nm); int hq = q == 3 ? 0 : q; m = mpublish(0, hq, 0, type == 2 ? (const char*)t : nm, tn, mid, pay, pn); m.b[0] |= rt | dp << 3; to_broker(c, &m, "a PUBLISH of a client does not reach the broker as it is"); quiet("more than the PUBLISH is sent"); sym_reach("passed on"); }
  } else if (what == 1) {
    int q = sym_pick(1, 2, "qos"), k = sym_pick(0, 3, "kind"), mid = sym_u16("msgid"), id; sym_assume(mid != 0); uint8_t t[2]; sym_bytes(t, 2, "short"); sym_bytes(pay, 1, "payload"); id = k == 0 ? n1 : k == 1 ? 41 : k == 2 ? 40 : t[0] << 8 | t[1];
    const char* nm = k == 0 ? "a/bcd" : k == 1 ? "c/p" : k == 2 ? "g/p" : (const char*)t; int tn = k == 3 ? 2 : strlen(nm);
    uint8_t fl = F_QOS(q) | (k == 3 ? 2 : k ? 1 : 0); w = wpublish(fl, id >> 8, id & 255, mid, pay, 1); say(1, &w); m = mpublish(0, q, 0, nm, tn, mid, pay, 1); to_broker(c, &m, "a PUBLISH of a client does not reach the broker as it is"); quiet("more than the PUBLISH is sent"); forget();
    int o = sym_u16("otherid"); sym_assume(o != mid);
    if (sym_pick(0, 1, "stray")) { m = mack(q == 1 ? 4 : 4, 0, o); say_b(c, &m); quiet("a PUBACK of the broker for no message is passed on"); }
    if (sym_pick(0, 1, "again")) { w = wpublish(fl | F_DUP, id >> 8, id & 255, mid, pay, 1); say(1, &w); m = mpublish(1, q, 0, nm, tn, mid, pay, 1); to_broker(c, &m, "a PUBLISH which is sent again does not reach the broker"); forget(); }
    if (q == 1) { m = mack(4, 0, mid); say_b(c, &m); W r = wack(T_PUBACK, id, mid, 0); to_client(1, &r, "PUBACK does not come back with the topic and the id of the message"); quiet("more than PUBACK is sent"); forget(); m = mack(4, 0, mid); say_b(c, &m); quiet("a second PUBACK is passed on"); sym_reach("qos 1"); }
    else { m = mack(5, 0, mid); say_b(c, &m); w = wid(T_PUBREC, mid); to_client(1, &w, "PUBREC of the broker does not reach the client"); quiet("more than PUBREC is sent"); w = wid(T_PUBREL, mid); say(1, &w); m = mack(6, 2, mid); to_broker(c, &m, "PUBREL of the client does not reach the broker"); quiet("more than PUBREL is sent");
      m = mack(7, 0, mid); say_b(c, &m); w = wid(T_PUBCOMP, mid); to_client(1, &w, "PUBCOMP of the broker does not reach the client"); quiet("more than PUBCOMP is sent"); sym_reach("qos 2"); }
  } else if (what == 3) {
    int id[2], mid[2], rc = 0; uint8_t v[2]; sym_bytes(v, 2, "values"); for (int i = 0; i < 2; i++) { mid[i] = sym_u16("msgid"); sym_assume(mid[i] != 0); } sym_assume(mid[0] != mid[1]); int q[2] = { (int)sym_pick(1, 2, "qos"), (int)sym_pick(1, 2, "qos") };
    for (int i = 0; i < 2; i++) { int k = sym_pick(0, 3, "kind"); id[i] = k == 0 ? n1 : k == 1 ? n2 : k == 2 ? 41 : 's' << 8 | 't'; const char* nm = k == 0 ? "a/bcd" : k == 1 ? "long/topic/name" : k == 2 ? "c/p" : "st"; w = wpublish(F_QOS(q[i]) | (k == 2 ? 1 : k == 3 ? 2 : 0), id[i] >> 8, id[i] & 255, mid[i], v + i, 1); say(1, &w); m = mpublish(0, q[i], 0, nm, strlen(nm), mid[i], v + i, 1); to_broker(c, &m, "a PUBLISH of a client does not reach the broker as it is"); quiet("more than the PUBLISH is sent"); forget(); }
    int first = sym_pick(0, 1, "first"); (void)rc; for (int j = 0; j < 2; j++) { int i = j ^ first; m = mack(q[i] == 1 ? 4 : 5, 0, mid[i]); say_b(c, &m); w = q[i] == 1 ? wack(T_PUBACK, id[i], mid[i], 0) : wid(T_PUBREC, mid[i]); to_client(1, &w, "an acknowledgement does not come back with the topic and the id of its message"); quiet("more than the acknowledgement is sent"); forget(); }
    for (int i = 0; i < 2; i++) if (q[i] == 1) { m = mack(4, 0, mid[i]); say_b(c, &m); quiet("a second PUBACK is passed on"); }
  } else {
    int q = sym_pick(0, 1, "minus one") ? 3 : 0, len = sym_pick(0, 5, "name length"), bn = sym_pick(0, 6, "rest"); uint8_t body[8]; sym_bytes(body, bn, "rest"); int rt = sym_pick(0, 1, "retain"); if (q == 0) sym_exit();
    w = wpublish(F_QOS(3) | (rt ? F_RETAIN : 0), 0, len, 0, body, bn); say(1, &w);
    if (len == 0 || len > bn) { quiet("a QoS -1 PUBLISH without the topic name it announces is passed on"); sym_reach("refused"); }
    else { m = mpublish(0, 0, rt, body, len, 0, body + len, bn - len); to_broker(c, &m, "a QoS -1 PUBLISH with a topic name does not reach the broker"); quiet("more than the PUBLISH is sent"); sym_reach("passed on"); }
  }
  sym_reach("end"); }
