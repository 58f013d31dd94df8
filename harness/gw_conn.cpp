// Connecting a client. what = 0 CONNECT with or without will, all fields, 1 the will dialogue in any order, k messages, 2 will messages and updates of a connected client, 3 a client that moves to another address
#include "gwfix.h"
static Client* c;
static char* text(int n, const char* nm) { char* s = (char*)calloc(n + 1, 1); sym_bytes(s, n, nm); for (int i = 0; i < n; i++) sym_assume(s[i] != 0); return s; }
static MB mcon(int ver, const char* id, int fl, int ka, const char* wt, const char* wm, const char* u, const char* p) {
  MB m = mb(); int n = (ver == 4 ? 6 : 8) + 4 + 2 + strlen(id); if (fl & 4) n += 4 + strlen(wt) + strlen(wm); if (u) n += 2 + strlen(u); if (p) n += 2 + strlen(p);
  mhead(&m, 1, 0, n); if (ver == 4) mstr(&m, "MQTT", 4); else mstr(&m, "MQIsdp", 6); m8(&m, ver); m8(&m, fl | (u ? 0x80 : 0) | (p ? 0x40 : 0)); m16(&m, ka); mstr(&m, id, strlen(id)); if (fl & 4) { mstr(&m, wt, strlen(wt)); mstr(&m, wm, strlen(wm)); } if (u) mstr(&m, u, strlen(u)); if (p) mstr(&m, p, strlen(p)); return m; }
static W wcon(const char* id, int fl, int dur) { return wconnect(id, fl, dur); }
static W wwilltopic(int q, int r, const char* t, int n) { W w = w1(T_WILLTOPIC); w8(&w, F_QOS(q) | (r ? F_RETAIN : 0)); wb(&w, t, n); return w; }
static W wwillmsg(const char* t, int n) { W w = w1(T_WILLMSG); wb(&w, t, n); return w; }
void sym_main(void) {
  int what = sym_param("what", 0); MB m; W w; start(); GatewayParams* gp = gw->getGWParams();
  if (what == 0) {
    int ver = 4, cred = sym_pick(0, 2, "credentials"); if (cred) gp->loginId = text(2, "login"); if (cred == 2) gp->password = text(3, "password"); if (sym_pick(0, 1, "version 3.1")) ver = 3; gp->mqttVersion = ver;
    int will = sym_pick(0, 1, "will"), clean = sym_pick(0, 1, "clean"), n = sym_pick(1, sym_param("n", 4), "id length"); char* id = text(n, "client id"); uint16_t ka = sym_u16("duration"); const char *wt = 0, *wm = 0; int q = 0, r = 0;
    int again = sym_pick(0, 1, "again"); char* old = 0;
    if (again) { /* an earlier connection with a will must not leave anything behind */ old = text(1, "old id"); old = id; w = wcon(old, F_WILL, 5); say(1, &w); w = wwilltopic(2, 1, "oldtopic", 8); say(1, &w); w = wwillmsg("oldmsg", 6); say(1, &w); A(nb == 1, "CONNECT with a will is not passed on"); c = by_addr(1); m = mconnack(0); say_b(c, &m); w = wdisconnect(-1); say(1, &w); forget(); }
    w = wcon(id, (clean ? F_CLEAN : 0) | (will ? F_WILL : 0), ka); say(1, &w); c = by_addr(1); A(c, "a client which connects is not known"); A(strcmp(c->getClientId(), id) == 0, "the client id is not kept");
    if (will) { quiet_b("CONNECT is passed on before the will is known"); w = w1(T_WILLTOPICREQ); to_client(1, &w, "the client is not asked for the will topic"); quiet("more than WILLTOPICREQ is sent"); int tn = sym_pick(1, 3, "will topic length"), mn = sym_pick(0, 3, "will message length"); q = sym_pick(0, 2, "will qos"); r = sym_bool("will retain"); wt = text(tn, "will topic"); wm = text(mn, "will message");
      w = wwilltopic(q, 0, wt, tn); w.b[1] |= r << 4; say(1, &w); w = w1(T_WILLMSGREQ); to_client(1, &w, "the client is not asked for the will message"); quiet("more than WILLMSGREQ is sent"); w = wwillmsg(wm, mn); say(1, &w); sym_reach("will"); }
    else sym_reach("no will");
    m = mcon(ver, id, clean << 1 | will << 2 | q << 3 | r << 5, ka, wt, wm, gp->loginId, gp->password); to_broker(c, &m, "CONNECT does not reach the broker with the data of the client"); quiet("more than CONNECT is sent"); forget();
    m = mconnack(0); say_b(c, &m); w = w1(T_CONNACK); w8(&w, 0); to_client(1, &w, "CONNACK is not passed on to the client"); quiet("more than CONNACK is sent"); A(c->isActive(), "the client is not active after CONNACK");
  } else if (what == 1) {
    int k = sym_param("k", 4), st = 0, known = 0; uint8_t v = 0; char wt[2] = { 0, 0 }, wm[2] = { 0, 0 }; int q = 0, r = 0;              /* 0 not connected, 1 WILLTOPIC awaited, 2 WILLMSG awaited */
    for (int i = 0; i < k; i++) { int op = sym_pick(0, 5, "message"); quiet("something is sent that should not be"); forget();
      switch (op) {
      case 0: w = wcon("abc", F_WILL | F_CLEAN, 60); say(1, &w); c = by_addr(1); known = 1; st = 1; w = w1(T_WILLTOPICREQ); to_client(1, &w, "the client is not asked for the will topic"); break;
      case 1: wt[0] = 'a' + i; q = i % 3; r = i & 1; w = wwilltopic(q, r, wt, 1); say(1, &w); if (!known) break; if (st == 0) { w = wdisconnect(-1); to_client(1, &w, "a message of a client which is not connected is not answered with DISCONNECT"); } else { st = 2; w = w1(T_WILLMSGREQ); to_client(1, &w, "the client is not asked for the will message"); } break;
      case 2: { char x[2] = { (char)('A' + i), 0 }; w = wwillmsg(x, 1); say(1, &w); if (!known) break; if (st == 0) { w = wdisconnect(-1); to_client(1, &w, "a message of a client which is not connected is not answered with DISCONNECT"); } else if (st == 2) { wm[0] = x[0]; m = mcon(4, "abc", 6 | q << 3 | r << 5, 60, wt, wm, 0, 0); to_broker(c, &m, "CONNECT does not reach the broker with the will of the client"); quiet("more than CONNECT is sent"); sym_reach("connected"); sym_exit(); } break; }
      case 3: w = w1(T_PINGREQ); say(1, &w); if (known) { w = wdisconnect(-1); to_client(1, &w, "a message of a client which is not connected is not answered with DISCONNECT"); } break;
      case 4: w = wpublish(2, 'x', 'y', 0, &v, 1); say(1, &w); if (known) { w = wdisconnect(-1); to_client(1, &w, "a message of a client which is not connected is not answered with DISCONNECT"); } break;
      case 5: if (!sym_pick(0, 1, "end here")) sym_exit(); w = wcon("abc", F_CLEAN, 61); say(1, &w); c = by_addr(1); m = mconnect("abc", 1, 61); to_broker(c, &m, "CONNECT without will does not reach the broker"); quiet("more than CONNECT is sent"); sym_reach("without will"); sym_exit(); break;
      } }
    quiet("something is sent that should not be");
  } else if (what == 2) {
    int cl = sym_pick(0, 1, "clean"); c = join(1, "abc", cl); int op = sym_pick(0, 3, "message"), q = sym_pick(0, 2, "qos"), n = sym_pick(1, 3, "length"); char* t = text(n, "text");
    if (op == 0) { w = wwilltopic(q, 0, t, n); say(1, &w); quiet("a WILLTOPIC nobody asked for is answered or passed on"); sym_reach("ignored"); } else if (op == 1) { w = wwillmsg(t, n); say(1, &w); quiet("a WILLMSG nobody asked for is answered or passed on"); }
    else if (op == 2) { w = w1(T_WILLTOPICUPD); w8(&w, F_QOS(q)); wb(&w, t, n); say(1, &w); w = w1(T_WILLTOPICRESP); w8(&w, 3); to_client(1, &w, "WILLTOPICUPD is not answered with not supported"); quiet("more is sent"); sym_reach("update"); }
    else { w = w1(T_WILLMSGUPD); wb(&w, t, n); say(1, &w); w = w1(T_WILLMSGRESP); w8(&w, 3); to_client(1, &w, "WILLMSGUPD is not answered with not supported"); quiet("more is sent"); }
    forget(); uint8_t v = sym_u8("value"); w = wpublish(2, 'x', 'y', 0, &v, 1); say(1, &w); m = mpublish(0, 0, 0, "xy", 2, 0, &v, 1); to_broker(c, &m, "the client is not connected any more");
  } else {
    Client* o = join(2, "other", 0); c = join(1, "abc", 0); int id = reg(1, 3, "a/b"); int how = sym_pick(0, 2, "before"); if (how == 1) { w = wdisconnect(-1); say(1, &w); forget(); } else if (how == 2) { w = wdisconnect(60); say(1, &w); forget(); }
    uint16_t ka = sym_u16("duration"); w = wconnect("abc", 0, ka); say(5, &w); A(by_addr(5) == c && by_addr(1) == 0, "a client which moved is not known at its new address alone");
    if (how == 2) { W r = w1(T_CONNACK); w8(&r, 0); to_client(5, &r, "CONNACK does not reach the new address"); } else { m = mconnect("abc", 0, ka); to_broker(c, &m, "CONNECT from the new address is not passed on"); m = mconnack(0); say_b(c, &m); W r = w1(T_CONNACK); w8(&r, 0); to_client(5, &r, "CONNACK does not reach the new address"); }
    quiet("more than CONNECT and CONNACK is sent"); forget();
    uint8_t v = sym_u8("value"); m = mpublish(0, 0, 0, "a/b", 3, 0, &v, 1); say_b(c, &m); w = wpublish(0, id >> 8, id & 255, 0, &v, 1); to_client(5, &w, "a message does not reach the new address with the topic id of the session"); quiet("more than the message is sent"); forget();
    w = wpublish(2, 'x', 'y', 0, &v, 1); say(1, &w); quiet("a message from the old address is answered or passed on"); say(2, &w); m = mpublish(0, 0, 0, "xy", 2, 0, &v, 1); to_broker(o, &m, "another client is disturbed"); quiet("more than the message is sent");
  }
  sym_reach("end"); }
