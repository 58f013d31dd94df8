// Two clients at the same time, k steps of either: nothing of one reaches the other, with the same message ids and topic ids in use by both
#include "gwfix.h"
static Client* c[2]; static int id[2], act[2], pend[2][3], sub[2][3]; static const char *nm[2] = { "a/b", "c/d" }; static const char* cid[2] = { "abc", "abcd" };
void sym_main(void) {
  int k = sym_param("k", 3); MB m; W w; start(); for (int i = 0; i < 2; i++) { c[i] = join(i + 1, cid[i]); id[i] = reg(i + 1, 5, nm[i]); act[i] = 1; } A(c[0] != c[1], "two clients are taken for one");
  for (int s = 0; s < k; s++) {
    int i = sym_pick(0, 1, "client"), op = sym_pick(0, 6, "op"); uint8_t v = sym_u8("value"); int a = i + 1, mid = sym_pick(1, 2, "msgid");
    if (!act[i] && op < 6) { w = w1(T_PINGREQ); say(a, &w); w = wdisconnect(-1); to_client(a, &w, "a client which is not connected is not told so"); quiet("something else is sent"); forget(); continue; }
    switch (op) {
    case 0: w = wpublish(F_QOS(1), id[i] >> 8, id[i] & 255, mid, &v, 1); say(a, &w); m = mpublish(0, 1, 0, nm[i], 3, mid, &v, 1); to_broker(c[i], &m, "a PUBLISH does not go out on the connection of its client under the name of its client's topic"); pend[i][mid] = id[i]; break;
    case 1: m = mack(4, 0, mid); say_b(c[i], &m); if (pend[i][mid]) { w = wack(T_PUBACK, pend[i][mid], mid, 0); to_client(a, &w, "a PUBACK does not reach the client whose message it is for"); pend[i][mid] = 0; sym_reach("puback"); } break;
    case 2: m = mpublish(0, 0, 0, nm[i], 3, 0, &v, 1); say_b(c[i], &m); w = wpublish(0, id[i] >> 8, id[i] & 255, 0, &v, 1); to_client(a, &w, "a message does not reach the client whose connection it came on"); break;
    case 3: { w = w1(T_SUBSCRIBE); w8(&w, F_QOS(1) | 2); w16(&w, mid); w8(&w, 'p'); w8(&w, 'q' + i); say(a, &w); m = mb(); mhead(&m, 8, 2, 7); m16(&m, mid); char t[2] = { 'p', (char)('q' + i) }; mstr(&m, t, 2); m8(&m, 1); to_broker(c[i], &m, "a SUBSCRIBE does not go out on the connection of its client"); sub[i][mid] = t[0] << 8 | t[1]; break; }
    case 4: m = mb(); mhead(&m, 9, 0, 3); m16(&m, mid); m8(&m, 1); say_b(c[i], &m); if (sub[i][mid]) { w = wsuback(1, sub[i][mid], mid, 0); to_client(a, &w, "a SUBACK does not reach the client whose SUBSCRIBE it is for"); sub[i][mid] = 0; sym_reach("suback"); } break;
    case 5: w = wdisconnect(-1); say(a, &w); m = mshort(14, 0); to_broker(c[i], &m, "DISCONNECT does not go out on the connection of its client"); to_client(a, &w, "DISCONNECT is not answered"); act[i] = 0; break;
    case 6: w = wconnect(cid[i], F_CLEAN, 10); say(a, &w); m = mconnect(cid[i], 1, 10); to_broker(c[i], &m, "CONNECT does not go out on the connection of its client"); m = mconnack(0); say_b(c[i], &m); w = w1(T_CONNACK); w8(&w, 0); to_client(a, &w, "CONNACK does not reach the client which connects"); quiet("something else is sent"); forget(); memset(pend[i], 0, sizeof pend[i]); memset(sub[i], 0, sizeof sub[i]); id[i] = reg(a, 5, nm[i]); act[i] = 1; sym_reach("again"); break;
    }
    quiet("something else is sent"); forget(); A(c[!i]->isActive() == !!act[!i] && c[!i]->getNetwork()->isValid() == !!act[!i], "one client changes the state of another");
    if (act[!i]) { int o = 2 - i; w = wpublish(2, 'x', 'y', 0, &v, 1); say(o, &w); m = mpublish(0, 0, 0, "xy", 2, 0, &v, 1); to_broker(c[!i], &m, "one client keeps another from publishing"); quiet("something else is sent"); forget(); }
  }
  sym_reach("end"); }
