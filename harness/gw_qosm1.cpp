// Publishing without a connection (QoS -1) over the connection of the gateway's own. what = 0 the connection, 1 PUBLISH, 2 anything else from such a client
#define GWFIX_CONF "#list\nq1,10.0.0.1:1001,QoS-1\nother,10.0.0.20:1020\nq2, 10.0.0.2:1002 , QoS-1\n"
#include "gwfix.h"
static Client* px; static int agg;
/* with the aggregater both connect */
static int conn(const char* what) { MB m = mconnect("gw_QoS-1", 1, 900); for (int i = ib; i < nb; i++) if (outb[i].net == px->getNetwork()) { ib = i; to_broker(px, &m, what); ib = nb; return 1; } A(0, what); return 0; }
static void up(void) { tick(1, 2000); conn("the gateway does not connect for its QoS -1 clients"); MB m = mconnack(0); say_b(px, &m); quiet("CONNACK for the QoS -1 clients is passed on to somebody"); A(px->isActive(), "the connection for the QoS -1 clients is not up after CONNACK"); forget(); }
static void other(Client* c) { uint8_t v = sym_u8("value"); W w = wpublish(2, 'o', 'k', 0, &v, 1); say(3, &w); MB m = mpublish(0, 0, 0, "ok", 2, 0, &v, 1); to_broker(c, &m, "a client which is connected is disturbed"); quiet("more than its PUBLISH is sent"); forget(); }
/* how a history may begin: answered pings; pings given up, then a new connection */
static const int begins[2][16] = { { 0, 0, 1, 0, 0, 2, 3, 0, 2, 3, 0, 2, 3, 0, 2, 3 }, { 0, 0, 1, 0, 0, 2, 0, 1, 0, 1, 0, 1, 0, 0, 1, 0 } }; static int bpos;
static int pick(int begin, int lo, int hi, const char* n) { return begin && bpos < 16 ? begins[begin - 1][bpos++] : sym_pick(lo, hi, n); }
void sym_main(void) {
  int what = sym_param("what", 0); MB m; W w; agg = sym_param("agg", 0); start(agg, 0, 1); px = ((Adapter*)gw->getAdapterManager()->getQoSm1Proxy())->getClient(); gw->getGWParams()->keepAlive = 65535; Client* c = agg ? 0 : join(3, "abc");
  if (what == 0) {
    int k = sym_param("k", 4), begin = sym_param("begin", 0), max = sym_param("max", 1000); enum { D, C, U } st = D; uint32_t now = 0, t0 = 0, ta = 0; int waiting = 0, tw = 0, retry = 0; (void)tw;
    for (int i = 0; i < k; i++) { int op = pick(begin, 0, 4, "op"); if (begin && bpos < 16) k++;
      switch (op) {
      case 0: { static const int ds[3] = { 3, 11, 901 }; uint32_t dt = sym_param("pick", 0) ? ds[pick(begin, 0, 2, "seconds")] : sym_range(1, max, "seconds"); tick_s = dt; now += dt; sym_assume(st != C || now - t0 != 10); sym_assume(st != U || now - ta != 900); sym_assume(st != U || !waiting || now - t0 != 10); tick(1, 0); tick_s = 0;
        if (st == D || (st == C && now - t0 > 10)) { if (st == C) sym_reach("connects again"); m = mconnect("gw_QoS-1", 1, 900); to_broker(px, &m, "the gateway does not connect for its QoS -1 clients"); st = C; t0 = now; ta = now; }
        else if (st == U && (now - ta > 900 || (waiting && now - t0 > 10))) { if (waiting) sym_reach("pings again"); m = mshort(12, 0); to_broker(px, &m, "no PINGREQ when the connection is idle or PINGREQ is not answered"); waiting = 1; t0 = ta = now; if (++retry > 3) { st = D; sym_reach("gives up"); } else sym_reach("pings"); }
        break; }
      case 1: if (st != C) sym_exit(); { int rc = pick(begin, 0, 1, "rc"); m = mconnack(rc ? 5 : 0); say_b(px, &m); if (rc) { st = D; sym_reach("refused"); } else { st = U; t0 = 0; waiting = 0; retry = 0; ta = now; } } break;
      case 2: if (st == D) sym_exit(); br_end = sym_pick(1, st == C ? 1 : 2, "closed"); from_broker(px, 0, 0); st = D; sym_reach("closed"); break;
      case 3: if (st != U) sym_exit(); m = mshort(13, 0); say_b(px, &m); if (waiting) sym_reach("answered"); waiting = 0; retry = 0; ta = now; break;
      case 4: { if (st == C) sym_exit(); uint8_t v = sym_u8("value"); w = wpublish(F_QOS(3) | 2, 'a', 'b', 0, &v, 1); say(1, &w); if (st == U) { m = mpublish(0, 0, 0, "ab", 2, 0, &v, 1); to_broker(px, &m, "a PUBLISH with QoS -1 does not reach the broker"); ta = now; sym_reach("publish"); } break; }
      }
      quiet("something else is sent"); forget(); A(px->isActive() == (st == U) && px->isConnecting() == (st == C) && px->isDisconnect() == (st == D), "the state of the connection for the QoS -1 clients is wrong"); }
    other(c);
  } else if (what == 1) {
    up(); int from = sym_pick(1, 2, "from"), q1 = sym_pick(0, 1, "name"), n = sym_pick(1, sym_param("n", 3), "len"), pn = sym_pick(0, sym_param("pn", 3), "size"), ret = sym_pick(0, 1, "retain"), mid = sym_u16("msgid"); if (!q1) n = 2; uint8_t* t = sym_bytes_new(n, "topic"), *v = sym_bytes_new(pn, "payload"); for (int i = 0; i < n; i++) sym_assume(t[i] != 0 && t[i] != '+' && t[i] != '#');
    int live = sym_live_heap();
    if (q1) { w = w1(T_PUBLISH); w8(&w, F_QOS(3) | (ret ? F_RETAIN : 0)); w16(&w, n); w16(&w, mid); wb(&w, t, n); wb(&w, v, pn); sym_reach("name"); } else w = wpublish(F_QOS(3) | (ret ? F_RETAIN : 0) | 2, t[0], t[1], mid, v, pn);
    say(from, &w); m = mpublish(0, 0, ret, t, n, 0, v, pn); to_broker(px, &m, "a PUBLISH with QoS -1 does not reach the broker with its topic, payload and retain flag"); quiet("more than the PUBLISH is sent"); forget(); A(sym_live_heap() == live, "memory is lost with a PUBLISH with QoS -1");
    if (c) other(c);
    /* a client nobody listed */
    say(4, &w); quiet("a PUBLISH with QoS -1 of a node which is not listed is accepted"); forget(); A(sym_live_heap() == live, "memory is lost with a PUBLISH with QoS -1 of a node which is not listed");
  } else {
    if (sym_pick(0, 1, "up")) up(); int st = px->isActive(); int n = sym_pick(0, sym_param("n", 8), "size"); uint8_t* b = sym_bytes_new(n, "datagram"); int live = sym_live_heap();
    int ty = n >= 2 ? b[0] == 1 ? n > 3 ? b[3] : -1 : b[1] : -1, fl = n >= 3 ? b[0] == 1 ? n > 4 ? b[4] : -1 : b[2] : -1, qm1 = ty == T_PUBLISH && fl >= 0 && (fl & 0x60) == 0x60;
    sym_assume(ty != T_SEARCHGW && !qm1); from_client(1, b, n); quiet("a message of a QoS -1 client which is no PUBLISH with QoS -1 is answered or passed on"); A(px->isActive() == st && px->isDisconnect() == !st, "a QoS -1 client changes the connection of the gateway"); A(sym_live_heap() == live, "memory is lost with a message of a QoS -1 client"); if (c) other(c); }
  sym_reach("end"); }
