// A TLS connection to the broker, used by the sending and the receiving task at the same time
#define YIELD sym_yield()
#include "tlsgw.h"
static Client* cl; static uint8_t msg[16]; static int msgn;
static void sender(void*) { stop_event(gw->getBrokerSendQue()); bst->run(); }
static void receiver(void*) { brt->run(); }
void sym_main(void) {
  cl = secure(); uint8_t p[2]; sym_bytes(p, 2, "payload"); connects = closes = 0; int cl0 = closes;
  MB m = mpublish(0, 0, 0, "t0", 2, 0, p, 2); memcpy(msg, m.b, m.n); msgn = m.n; W w = wpublish(2, 't', '1', 0, p, 2); uint8_t o[32]; int n = wfinish(&w, o); recv_only(1, o, n); pht->run(); A(gw->getBrokerSendQue()->size() == 1, "PUBLISH is not passed on");
  br_client = cl; br_in = msg; br_n = msgn; stopping = 0; int t1 = sym_thread(sender, 0), t2 = sym_thread(receiver, 0); sym_join(t1); sym_join(t2); if (br_pos < br_n) { stopping = 0; brt->run(); } stopping = 0; br_client = 0;
  A(connects == 0 && closes == cl0, "sending and receiving at the same time breaks the connection"); A(cl->isActive() && cl->getNetwork()->isValid(), "sending and receiving at the same time ends the session");
  MB x = mpublish(0, 0, 0, "t1", 2, 0, p, 2); A(wrote == 1 && wn == x.n && memcmp(wb_, x.b, x.n) == 0, "a message is not sent while another is received"); settle(); W r = wpublish(2, 't', '0', 0, p, 2); to_client(1, &r, "a message is not received while another is sent"); sym_reach("end"); }
