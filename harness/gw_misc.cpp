// what = 0 SEARCHGW and other broadcasts, 1 ADVERTISE in time, 2 REGISTER, 3 what becomes of registered topics when the client connects again
#include "gwfix.h"
void sym_main(void) {
  int what = sym_param("what", 0); MB m; W w; start();
  if (what == 0) {
    int gid = sym_u8("gateway id"); gw->getGWParams()->gatewayId = gid; int known = sym_pick(0, 2, "known"); Client* c = 0; if (known) { c = join(1, "abc"); if (known == 2) { w = wdisconnect(60); say(1, &w); forget(); } }
    int t = sym_pick(0, 2, "type"), n = sym_pick(0, 3, "length"); uint8_t b[4]; sym_bytes(b, n, "body"); w = w1(t); wb(&w, b, n); say(1, &w);
    if (t == T_SEARCHGW && (n == 1 || nc)) { w = w1(T_GWINFO); w8(&w, gid); to_all(&w, "SEARCHGW is not answered with the GWINFO of this gateway"); sym_reach("GWINFO"); }
    quiet("something else is sent"); forget(); if (known == 1) { uint8_t v = 7; w = wpublish(2, 'x', 'y', 0, &v, 1); say(1, &w); m = mpublish(0, 0, 0, "xy", 2, 0, &v, 1); to_broker(c, &m, "SEARCHGW disturbs the client"); }
  } else if (what == 1) {
    int n = sym_param("ticks", 4), want = 0; uint16_t P = sym_u16("period"); sym_assume(P > 0); uint32_t e = 0; tick_s = sym_u16("seconds"); sym_assume(tick_s >= 1 && tick_s <= sym_param("max", 4000)); gw->getGWParams()->keepAlive = P; gw->getGWParams()->gatewayId = 0x5a;
    for (int i = 0; i < n; i++) { e += tick_s; sym_assume(e != P); if (sym_concretize(e > P)) { want++; e = 0; } }
    tick(n, 0); A(nc == want, "ADVERTISE is not sent once in its period"); for (int i = 0; i < want; i++) { w = w1(T_ADVERTISE); w8(&w, 0x5a); w16(&w, P); to_all(&w, "ADVERTISE does not tell gateway and period"); sym_reach("ADVERTISE"); } quiet("something else is sent");
  } else if (what == 2) {
    Client* c = join(1, "abc", sym_pick(0, 1, "clean")); c->getTopics()->add("c/p", 41); int n1 = reg(1, 5, "a/b"); int st = sym_pick(0, 2, "state"); if (st) { w = wdisconnect(60); say(1, &w); if (st == 2) { w = w1(T_PINGREQ); say(1, &w); } forget(); }
    int n = sym_pick(1, sym_param("n", 3), "name length"), tid = sym_u16("topic id"), mid = sym_u16("msgid"); char t[8]; sym_bytes(t, n, "name"); for (int i = 0; i < n; i++) sym_assume(t[i] && t[i] != '+' && t[i] != '#'); int same = n == 3 && sym_concretize(!memcmp(t, "a/b", 3)); if (n == 3) sym_assume(memcmp(t, "c/p", 3) != 0);
    w = wregister(tid, mid, t, n); say(1, &w); if (st == 1) { quiet("REGISTER of a sleeping client is answered"); sym_reach("asleep"); sym_exit(); }
    if (nc != 1 || outc[0].n != 7) { A(0, "REGISTER is not answered with REGACK"); sym_exit(); } int id = outc[0].b[2] << 8 | outc[0].b[3]; w = wack(T_REGACK, id, mid, 0); to_client(1, &w, "REGACK does not accept the REGISTER with its message id"); quiet("more than REGACK is sent"); forget(); A(id != 0 && id != 0xffff, "REGACK gives a reserved topic id"); A((id == n1) == same, "REGACK gives the topic id of another name, or a second one to the same name");
    if (st == 2) sym_exit(); uint8_t v = sym_u8("value"); w = wpublish(0, id >> 8, id & 255, 0, &v, 1); say(1, &w); m = mpublish(0, 0, 0, t, n, 0, &v, 1); to_broker(c, &m, "a PUBLISH with the topic id of REGACK is not published under the name"); quiet("more than the PUBLISH is sent"); sym_reach("used"); forget();
    w = wregister(tid, mid, t, n); say(1, &w); w = wack(T_REGACK, id, mid, 0); to_client(1, &w, "the same name is not given the same topic id again"); quiet("more than REGACK is sent");
  } else {
    Client* o = join(2, "other"); int no = reg(2, 3, "o/o"); Client* c = join(1, "abc", sym_pick(0, 1, "clean")); c->getTopics()->add("c/p", 41); int id = reg(1, 5, "a/b"); int how = sym_pick(0, 2, "before"); if (how == 1) { w = wdisconnect(-1); say(1, &w); } else if (how == 2) { br_end = 1; from_broker(c, 0, 0); } forget();
    int cl = sym_pick(0, 1, "clean"); c = join(1, "abc", cl); uint8_t v = sym_u8("value"); w = wpublish(0, id >> 8, id & 255, 0, &v, 1); say(1, &w);
    if (!cl) { m = mpublish(0, 0, 0, "a/b", 3, 0, &v, 1); to_broker(c, &m, "a topic registered in the session is forgotten"); sym_reach("kept"); } else sym_reach("forgotten"); quiet("a topic id of an ended session is still used"); forget();
    w = wpublish(1, 0, 41, 0, &v, 1); say(1, &w); m = mpublish(0, 0, 0, "c/p", 3, 0, &v, 1); to_broker(c, &m, "a predefined topic is forgotten"); forget();
    w = wpublish(0, no >> 8, no & 255, 0, &v, 1); say(2, &w); m = mpublish(0, 0, 0, "o/o", 3, 0, &v, 1); to_broker(o, &m, "a topic of another client is forgotten");
  }
  sym_reach("end"); }
