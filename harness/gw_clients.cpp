// Which node is which client. what=0 nodes and ids in any history, what=1 only listed clients
static char lst[64];
#define GWFIX_CONF lst
#include "gwfix.h"
static char id[4][6]; static int up[4], loc[4], holder[5]; static Network* net[4]; static int nid;
static void mkid(int i, int max) { int l = sym_pick(1, max, "id length"); sym_bytes(id[i], l, "id"); for (int j = 0; j < l; j++) sym_assume(id[i][j] != 0); id[i][l] = 0; for (int j = 0; j < i; j++) if (strlen(id[j]) == (size_t)l) sym_assume(memcmp(id[j], id[i], l) != 0); }
static int answers(int a) { SensorNetAddress t = addr_of(a); int n = 0; for (int i = ic; i < nc; i++) n += outc[i].ip == t.getIpAddress() && outc[i].port == t.getPortNo(); return n; }
static void any(void) {
  int k = sym_param("k", 4), ids = sym_param("ids", 3), max = sym_pick(1, ids, "limit"), known = 0, an = 0, cn = -1, took[4] = {0, 0, 0, 0}; start(0, 0, 0, max); for (int i = 0; i < ids; i++) { mkid(i, sym_param("len", 2)); loc[i] = -1; } for (int a = 0; a < 5; a++) holder[a] = -1;
  for (int s = 0; s < k; s++) { int a = sym_pick(1, an < 3 ? an + 1 : 3, "node"), h = holder[a]; if (a > an) an = a;
    switch (sym_pick(0, s ? 3 : 0, "op")) {
      case 0: { int i = sym_pick(0, cn < ids - 1 ? cn + 1 : ids - 1, "client"); if (i > cn) cn = i; int clean = sym_pick(0, sym_param("cl", 0), "clean"); W w = wconnect(id[i], clean ? F_CLEAN : 0, 60); say(a, &w);
        if (!took[i]) { if (known == max) { quiet("a client too much is served"); A(gw->getClientList()->getClientCount() == max, "there are more clients than allowed"); sym_reach("full"); break; } took[i] = 1; known++; }
        if (h >= 0 && h != i) { loc[h] = -1; sym_reach("other client"); } if (loc[i] > 0 && loc[i] != a) { holder[loc[i]] = -1; sym_reach("moved"); } loc[i] = a; holder[a] = i;
        if (ib >= nb) { A(0, "CONNECT of a client does not reach the broker"); return; } while (ib + 1 < nb) ib++; Network* n = outb[ib].net; MB m = mconnect(id[i], clean, 60); Client* c = by_addr(a); A(c != 0, "a client which connects is not known at its address"); if (!c) return; to_broker(c, &m, "a client is connected under another id than its own"); quiet("more than CONNECT is sent");
        if (net[i]) A(net[i] == n, "a client gets the session of another"); else { for (int j = 0; j < ids; j++) A(net[j] != n, "a client gets the session of another"); net[i] = n; }
        m = mconnack(0); say_b(c, &m); W r = w1(T_CONNACK); w8(&r, 0); to_client(a, &r, "CONNACK does not reach the client which connects"); quiet("more than CONNACK is sent"); up[i] = 1; break; }
      case 1: { W w = w1(T_PINGREQ); say(a, &w); if (h >= 0 && up[h]) { MB m = mshort(12, 0); if (ib >= nb) { A(0, "PINGREQ is not passed on"); return; } A(outb[ib].net == net[h] && outb[ib].n == 2 && outb[ib].b[0] == 0xc0, "PINGREQ of a client goes to the broker as that of another"); ib++; quiet("more than PINGREQ is sent"); sym_reach("ping"); } else { quiet_b("something of a node nobody knows is passed on"); if (h < 0) quiet_c("a node nobody knows is answered"); } break; }
      case 2: { int i = sym_pick(0, ids - 1, "client"); if (!net[i] || !up[i]) break; Client* c = gw->getClientList()->getClient(0); while (c && c->getNetwork() != net[i]) c = c->getNextClient(); if (!c) { A(0, "a client is lost"); return; } uint8_t v = sym_u8("value"); MB m = mpublish(0, 0, 0, "ab", 2, 0, &v, 1); say_b(c, &m); W w = wpublish(2, 'a', 'b', 0, &v, 1);
        if (loc[i] > 0) { to_client(loc[i], &w, "a message is not delivered where its client is"); quiet("more than the message is sent"); sym_reach("delivered"); } else { for (int j = 1; j <= 3; j++) A(answers(j) == 0, "a message for a client goes to another"); sym_reach("nowhere"); } break; }
      default: { if (h < 0 || !up[h]) break; W w = wdisconnect(-1); say(a, &w); up[h] = 0; W r = wdisconnect(-1); to_client(a, &r, "DISCONNECT is not answered"); if (ib >= nb) { A(0, "DISCONNECT is not passed on"); return; } A(outb[ib].net == net[h] && outb[ib].n == 2 && outb[ib].b[0] == 0xe0, "DISCONNECT of a client ends the session of another"); ib++; quiet("more than DISCONNECT is sent"); } }
    forget(); }
  A(gw->getClientList()->getClientCount() == known, "the number of clients is wrong"); sym_reach("end"); }
/* a list of two clients, at nodes 1 and 2 */
static void listed(void) {
  for (int i = 0; i < 2; i++) { mkid(i, 2); for (int j = 0; id[i][j]; j++) sym_assume((id[i][j] >= 'a') & (id[i][j] <= 'z')); strcat(lst, id[i]); strcat(lst, i ? ",10.0.0.2:1002\n" : ",10.0.0.1:1001\n"); }
  mkid(2, 3); gw = 0; /* an id nobody has */ 
  start_auth = 1; start(0, 0, 0, 5); int k = sym_param("k", 2), upc[2] = {0, 0};
  for (int s = 0; s < k; s++) { int a = sym_pick(1, 3, "node"), i = sym_pick(0, 2, "client"); W w = wconnect(id[i], F_CLEAN, 60); say(a, &w); Client* c = i < 2 ? by_addr(i + 1) : 0; A(gw->getClientList()->getClientCount() == 2, "a client which is not listed becomes one");
    if (i == 2) { quiet("a client which is not listed is served"); sym_reach("not listed"); }
    else if (a == i + 1) { MB m = mconnect(id[i], 1, 60); to_broker(c, &m, "a listed client is not connected"); quiet("more than CONNECT is sent"); m = mconnack(0); say_b(c, &m); W r = w1(T_CONNACK); w8(&r, 0); to_client(a, &r, "a listed client gets no CONNACK"); quiet("more than CONNACK is sent"); upc[i] = 1; sym_reach("listed"); }
    else { for (int j = 1; j <= 3; j++) if (j != i + 1) A(answers(j) == 0, "a node which is not listed for a client is answered"); for (; ib < nb; ib++) A(c && outb[ib].net == c->getNetwork(), "a client gets the session of another"); sym_reach("elsewhere"); }
    forget(); int b = sym_pick(1, 3, "pinging node"); if (b == 3 || !upc[b - 1]) { W p = w1(T_PINGREQ); say(b, &p); if (b == 3) quiet("a node which is not listed is served"); } forget(); }
  sym_reach("end"); }
void sym_main(void) { if (sym_param("what", 0) == 0) any(); else listed(); }
