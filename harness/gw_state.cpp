// The connection state of a client, step by step: k steps after the state given by from (0 new, 1 active, 2 asleep), every step any message of the client or event of the broker
#include "gwfix.h"
enum { D, C, AC, S, W_ };                 /* disconnected, connecting, active, asleep, awake */
static Client* c; static int st, open_, stored[8], ns; static uint16_t ka;
static void bye(int b) { if (b) { MB m = mshort(14, 0); to_broker(c, &m, "DISCONNECT of the client does not reach the broker"); } W w = wdisconnect(-1); to_client(1, &w, "DISCONNECT is not answered with DISCONNECT"); }
static void pub(int v) { W w = wpublish(2, 'x', 'y', 0, &v, 1); to_client(1, &w, "a message for the client is not delivered, or not in order"); }
static void deliver(void) { for (int i = 0; i < ns; i++) pub(stored[i]); ns = 0; }
static void mustbe(void) { quiet("something is sent that should not be"); A(c->isDisconnect() == (st == D) && c->isConnecting() == (st == C) && c->isActive() == (st == AC) && c->isSleep() == (st == S) && c->isAwake() == (st == W_), "the state of the client is wrong"); A(c->getNetwork()->isValid() == !!open_, "the connection to the broker is not open exactly while it is needed"); forget(); }
void sym_main(void) {
  int from = sym_param("from", 0), k = sym_param("k", 3); start();
  if (from) { c = join(1, "abc"); st = AC; open_ = 1; if (from > 1) { W w = wdisconnect(60); say(1, &w); bye(0); st = S; mustbe(); } }
  else { W w = w1(sym_pick(T_SEARCHGW + 1, 29, "first")); sym_assume(w.b[0] != T_CONNECT); wb(&w, "abcdef", 6); say(1, &w); quiet("a message of a node which never connected is answered or passed on"); A(!by_addr(1), "a client is made of something else than CONNECT");
    ka = sym_u16("duration"); W w2 = wconnect("abc", F_CLEAN, ka); say(1, &w2); c = by_addr(1); A(c, "a client which connects is not known"); MB m = mconnect("abc", 1, ka); to_broker(c, &m, "CONNECT is not passed on to the broker"); st = C; open_ = 1; mustbe(); }
  for (int i = 0; i < k; i++) {
    int op = sym_pick(0, 9, "op"); MB m; W w;
    switch (op) {
    case 0: { int cl = 1; ka = sym_u16("duration"); w = wconnect("abc", cl ? F_CLEAN : 0, ka); say(1, &w);
      if (st == S || st == W_) { W r = w1(T_CONNACK); w8(&r, 0); to_client(1, &r, "CONNECT of a sleeping client is not answered with CONNACK"); deliver(); st = AC; }
      else { int stale = ns; m = mconnect("abc", cl, ka); to_broker(c, &m, "CONNECT is not passed on to the broker"); st = C; open_ = 1; (void)stale; } sym_reach("connect"); break; }
    case 1: if (st != C) { sym_exit(); } else { int rc = sym_u8("rc"); m = mconnack(rc); say_b(c, &m); int z = sym_concretize(rc > 5 ? 9 : rc); if (z == 9) { A(ic < nc && outc[ic].n == 3 && outc[ic].b[1] == T_CONNACK && outc[ic].b[2] != 0, "a refused CONNECT is not answered with CONNACK"); ic++; st = D; }
        else { W r = w1(T_CONNACK); w8(&r, z == 0 ? 0 : z == 3 ? 1 : 3); to_client(1, &r, "CONNACK is not translated"); st = z ? D : AC; } sym_reach("connack"); } break;
    case 2: { w = wdisconnect(-1); say(1, &w); if (st == D) bye(0); else { bye(1); open_ = 0; st = D; } sym_reach("disconnect"); break; }
    case 3: { int d = sym_u16("sleep"); w = wdisconnect(d); say(1, &w); int z = sym_concretize(d == 0); if (st == D) bye(0); else if (z) { bye(1); open_ = 0; st = D; } else if (st == C) { sym_exit(); } else { bye(0); st = S; sym_reach("sleep"); } break; }
    case 4: { w = w1(T_PINGREQ); say(1, &w); if (st == D) bye(0); else { if (st == S) st = W_; if (st == W_) deliver(); m = mshort(12, 0); to_broker(c, &m, "PINGREQ is not passed on to the broker"); } break; }
    case 5: if (!open_ || st == D || st == C) { sym_exit(); } else { m = mshort(13, 0); say_b(c, &m); w = w1(T_PINGRESP); to_client(1, &w, "PINGRESP is not passed on to the client"); if (st == W_) { st = S; sym_reach("asleep again"); } } break;
    case 6: if (!open_ || st == D || st == C) { sym_exit(); } else { uint8_t v = sym_u8("value"); m = mpublish(0, 0, 0, "xy", 2, 0, &v, 1); say_b(c, &m); if (st == S) stored[ns++] = v; else pub(v); } break;
    case 7: { uint8_t v = sym_u8("value"); w = wpublish(2, 'x', 'y', 0, &v, 1); say(1, &w); if (st == D) bye(0); else if (st == AC) { m = mpublish(0, 0, 0, "xy", 2, 0, &v, 1); to_broker(c, &m, "PUBLISH of an active client is not passed on"); } else sym_exit(); break; }
    case 8: if (!open_) { sym_exit(); } else { int how = sym_pick(1, 2, "closed"); if (how == 2 && (st == C || st == D)) sym_exit(); br_end = how; from_broker(c, 0, 0); st = D; open_ = 0; sym_reach("closed by the broker"); } break;
    case 9: if (st != AC) { sym_exit(); } else { send_ok = 0; w = w1(T_PINGREQ); say(1, &w); send_ok = 1; st = D; open_ = 0; sym_reach("broker cannot be reached"); } break;
    }
    if (st == D && ns) sym_exit();                                       /* what becomes of stored messages after the session is not specified here */
    mustbe();
  }
  sym_reach("end"); }
