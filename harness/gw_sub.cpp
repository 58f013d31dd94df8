// SUBSCRIBE and UNSUBSCRIBE of a client and their answers. what = 0 SUBSCRIBE of any kind, 1 UNSUBSCRIBE, 2 two requests at once, answered in any order, 3 no room for another topic
#include "gwfix.h"
static Client *c, *other; static int n1, n2; static char name[8]; static int nlen;
static W wsubscribe(int fl, int mid, const void* t, int n) { W w = w1(T_SUBSCRIBE); w8(&w, fl); w16(&w, mid); wb(&w, t, n); return w; }
static W wunsubscribe(int fl, int mid, const void* t, int n) { W w = w1(T_UNSUBSCRIBE); w8(&w, fl); w16(&w, mid); wb(&w, t, n); return w; }
static MB msubscribe(int mid, const char* t, int n, int qos) { MB m = mb(); mhead(&m, 8, 2, 2 + 2 + n + 1); m16(&m, mid); mstr(&m, t, n); m8(&m, qos); return m; }
static MB munsubscribe(int mid, const char* t, int n) { MB m = mb(); mhead(&m, 10, 2, 2 + 2 + n); m16(&m, mid); mstr(&m, t, n); return m; }
static MB msuback(int mid, int rc) { MB m = mb(); mhead(&m, 9, 0, 3); m16(&m, mid); m8(&m, rc); return m; }
static void world(void) {
  start(); gw->getTopics()->add("g/p", 40); other = join(2, "other"); other->getTopics()->add("other", 41); reg(2, 9, "zzz"); reg(2, 10, "yyy"); reg(2, 11, "xxx");
  c = join(1, "abc", sym_pick(0, 1, "clean")); c->getTopics()->add("c/p", 41); n1 = reg(1, 9, "a/b"); n2 = reg(1, 10, "long/topic/name"); }
static int same(const char* s) { return nlen == (int)strlen(s) && sym_concretize(memcmp(name, s, nlen) == 0); }
static int wild(void) { int w = 0; for (int i = 0; i < nlen; i++) w |= name[i] == '+' || name[i] == '#'; return sym_concretize(w); }
static void pickname(const char* what, int max) { nlen = sym_pick(1, max, what); sym_bytes(name, nlen, what); for (int i = 0; i < nlen; i++) sym_assume(name[i] != 0); }
void sym_main(void) {
  int what = sym_param("what", 0), max = sym_param("n", 3); world(); MB m; W w;
  if (what == 0) {
    int type = sym_pick(0, 3, "type"), qos = sym_pick(0, 2, "qos"), mid = sym_u16("msgid"), tid = 0, kind = 0; uint8_t fl = sym_u8("flags"); sym_assume((fl & 0x63) == (F_QOS(qos) | type)); uint8_t t[2]; const char* full = 0; int fn = 0;
    if (type == 0) { if (sym_pick(0, 1, "known")) { memcpy(name, "a/b", 3); nlen = 3; } else pickname("name", max);
      sym_assume(!(nlen == 3 && name[0] == 'c' && name[1] == '/' && name[2] == 'p')); full = name; fn = nlen; w = wsubscribe(fl, mid, name, nlen); kind = same("a/b") ? 1 : wild() ? 2 : 3; if (kind == 1) tid = n1; }
    else { sym_bytes(t, 2, "topic"); if (type == 2) { sym_assume(t[0] && t[1]); full = (char*)t; fn = 2; } else { int id = t[0] << 8 | t[1]; if (type == 1 && sym_concretize(id == 41)) { full = "c/p"; fn = 3; } else if (type == 1 && sym_concretize(id == 40)) { full = "g/p"; fn = 3; } }
      tid = t[0] << 8 | t[1]; w = wsubscribe(fl, mid, t, 2); }
    say(1, &w); int z = sym_concretize(mid == 0);
    if (z) { quiet("a SUBSCRIBE without message id is answered or passed on"); sym_reach("no id"); sym_exit(); }
    if (!full) { w = wsuback(qos, type == 3 ? 0 : tid, mid, 2); to_client(1, &w, "a SUBSCRIBE to an unknown topic is not refused"); quiet("a SUBSCRIBE to an unknown topic is passed on"); sym_reach("refused"); sym_exit(); }
    m = msubscribe(mid, full, fn, qos); to_broker(c, &m, "a SUBSCRIBE does not reach the broker as it is"); quiet("more than SUBSCRIBE is sent"); forget();
    if (sym_pick(0, 1, "stray")) { int o = sym_u16("otherid"); sym_assume(o != mid); m = msuback(o, sym_u8("rc2")); say_b(c, &m); quiet("a SUBACK for no SUBSCRIBE is passed on"); }
    int rc = sym_pick(0, 3, "rc"); m = msuback(mid, rc == 3 ? 0x80 : rc); say_b(c, &m);
    if (kind == 2) tid = 0;
    if (kind == 3) { A(nc == 1 && outc[0].n == 8 && outc[0].b[1] == T_SUBACK, "SUBACK of the broker does not reach the client"); if (nc == 1 && outc[0].n == 8) { tid = outc[0].b[3] << 8 | outc[0].b[4]; A(tid != 0 && tid != 0xffff && tid != n1 && tid != n2, "SUBACK gives a topic id which is reserved or in use"); } }
    w = wsuback(rc == 3 ? 0 : rc, tid, mid, rc == 3 ? 2 : 0); to_client(1, &w, "SUBACK of the broker does not reach the client as it is"); quiet("more than SUBACK is sent"); forget();
    m = msuback(mid, rc); say_b(c, &m); quiet("a second SUBACK is passed on"); sym_reach(kind == 1 ? "known name" : kind == 2 ? "wildcard" : kind == 3 ? "new name" : "id");
    if (kind != 2 && rc != 3) {                                                /* the id of SUBACK is the one messages come with, whatever became of the subscription at the broker */
      uint8_t v = sym_u8("value"); m = mpublish(0, 0, 0, full, fn, 0, &v, 1); say_b(c, &m);
      if (fn == 2 && type == 0) w = wpublish(2, name[0], name[1], 0, &v, 1); else w = wpublish(type, tid >> 8, tid & 255, 0, &v, 1);
      to_client(1, &w, "a message of a subscribed topic does not come with the topic id of the SUBACK"); quiet("more than the message is sent"); sym_reach("message"); }
  } else if (what == 1) {
    int type = sym_pick(0, 3, "type"), mid = sym_u16("msgid"); uint8_t fl = sym_u8("flags"); sym_assume((fl & 3) == type); uint8_t t[2]; const char* full = 0; int fn = 0;
    if (type == 0) { if (sym_pick(0, 1, "known")) { memcpy(name, "a/b", 3); nlen = 3; } else pickname("name", max); sym_assume(!(nlen == 3 && name[0] == 'c' && name[1] == '/' && name[2] == 'p')); if (same("a/b")) { full = name; fn = 3; } w = wunsubscribe(fl, mid, name, nlen); }
    else { sym_bytes(t, 2, "topic"); int id = t[0] << 8 | t[1]; if (type == 2) { sym_assume(t[0] && t[1]); full = (char*)t; fn = 2; } else if (type == 1 && sym_concretize(id == 41)) { full = "c/p"; fn = 3; } if (type == 1) sym_assume(id != 40); w = wunsubscribe(fl, mid, t, 2); }
    say(1, &w); int z = sym_concretize(mid == 0);
    if (z) { quiet("an UNSUBSCRIBE without message id is answered or passed on"); sym_reach("no id"); sym_exit(); }
    if (!full) { if (type != 3 || ic < nc) { w = wid(T_UNSUBACK, mid); to_client(1, &w, "UNSUBSCRIBE of a topic which is not subscribed is not answered"); } quiet("UNSUBSCRIBE of an unknown topic is passed on"); sym_reach("unknown"); sym_exit(); }
    m = munsubscribe(mid, full, fn); to_broker(c, &m, "an UNSUBSCRIBE does not reach the broker as it is"); quiet("more than UNSUBSCRIBE is sent"); forget();
    m = mack(11, 0, mid); say_b(c, &m); w = wid(T_UNSUBACK, mid); to_client(1, &w, "UNSUBACK of the broker does not reach the client"); quiet("more than UNSUBACK is sent"); sym_reach("passed on");
  } else if (what == 2) {
    int id1 = sym_u16("id1"), id2 = sym_u16("id2"); sym_assume(id1 && id2 && id1 != id2); int k1 = sym_pick(0, 3, "kind1"), k2 = sym_pick(0, 3, "kind2"), q1 = sym_pick(0, 2, "qos1"); static const char* nm[4] = { "a/b", "x/#", "c/p", "ab" };
    for (int i = 0; i < 2; i++) { int k = i ? k2 : k1, mid = i ? id2 : id1, q = i ? 1 : q1; uint8_t p[2] = { 0, 41 }; w = k == 2 ? wsubscribe(F_QOS(q) | 1, mid, p, 2) : wsubscribe(F_QOS(q) | (k == 3 ? 2 : 0), mid, nm[k], strlen(nm[k])); say(1, &w); m = msubscribe(mid, nm[k], strlen(nm[k]), q); to_broker(c, &m, "a SUBSCRIBE does not reach the broker as it is"); quiet("more than SUBSCRIBE is sent"); forget(); }
    int first = sym_pick(0, 1, "first answered"), rc[2] = { (int)sym_pick(0, 3, "rc1"), (int)sym_pick(0, 3, "rc2") };
    for (int i = 0; i < 2; i++) { int j = i ^ first, k = j ? k2 : k1, mid = j ? id2 : id1, r = rc[j]; m = msuback(mid, r == 3 ? 0x80 : r); say_b(c, &m); w = wsuback(r == 3 ? 0 : r, k == 0 ? n1 : k == 1 ? 0 : k == 2 ? 41 : 'a' << 8 | 'b', mid, r == 3 ? 2 : 0); to_client(1, &w, "SUBACK does not answer the SUBSCRIBE with its message id"); quiet("more than SUBACK is sent"); forget(); }
    if (sym_pick(0, 1, "other client")) { m = msuback(id1, 0); say_b(other, &m); quiet("a SUBACK for another client is passed on"); }
  } else {
    int used = c->getTopics()->getCount(), full = 0; for (int i = used; i < 70 && !full; i++) { char t[4] = { 'f', (char)(48 + i / 10), (char)(48 + i % 10), 0 }; W v = wregister(0, 50, t, 3); say(1, &v); full = nc != 1 || outc[0].n != 7 || outc[0].b[6] != 0; if (full) { v = wack(T_REGACK, 0, 50, 1); to_client(1, &v, "REGISTER is not refused when there is no room"); quiet("more than REGACK is sent"); } forget(); }
    A(full, "the number of topics of a client is not bounded"); int mid = sym_u16("msgid"), qos = sym_pick(0, 2, "qos"); sym_assume(mid != 0);
    if (sym_pick(0, 1, "known")) { w = wsubscribe(F_QOS(qos), mid, "a/b", 3); say(1, &w); m = msubscribe(mid, "a/b", 3, qos); to_broker(c, &m, "a SUBSCRIBE to a known topic is not passed on when there is no room for another"); quiet("more than SUBSCRIBE is sent"); sym_reach("known"); }
    else { pickname("name", max); sym_assume(!(nlen == 3 && ((name[0] == 'c' && name[1] == '/' && name[2] == 'p') || (name[0] == 'a' && name[1] == '/' && name[2] == 'b') || name[0] == 'f'))); w = wsubscribe(F_QOS(qos), mid, name, nlen); say(1, &w); w = wsuback(qos, 0, mid, 2); to_client(1, &w, "a SUBSCRIBE is not refused when there is no room for the topic"); quiet("a SUBSCRIBE is passed on though there is no room for the topic"); sym_reach("no room"); }
  }
  sym_reach("end"); }
