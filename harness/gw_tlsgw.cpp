// Several messages of the broker in one TLS record are all delivered at once
#define YIELD
#include "tlsgw.h"
void sym_main(void) {
  Client* c = secure(); int k = sym_pick(1, sym_param("k", 3), "messages"); uint8_t b[128], pl[4][4]; int n = 0; int ids[4]; for (int i = 0; i < k; i++) { char nm[3] = {'a', (char)('0' + i), 0}; (void)nm; ids[i] = i; }
  for (int i = 0; i < k; i++) { int pn = sym_pick(0, 2, "length"); sym_bytes(pl[i], pn, "payload"); char t[2] = {'t', (char)('0' + i)}; MB m = mpublish(0, 0, 0, t, 2, 0, pl[i], pn); memcpy(b + n, m.b, m.n); n += m.n; ids[i] = pn; }
  uint8_t* e = (uint8_t*)malloc(n); memcpy(e, b, n); from_broker(c, e, n); free(e);
  for (int i = 0; i < k; i++) { W w = wpublish(2, 't', '0' + i, 0, pl[i], ids[i]); to_client(1, &w, "a message waits inside the TLS connection"); }
  quiet("more is sent than the messages"); A(c->isActive() && c->getNetwork()->isValid(), "the connection is lost"); sym_reach("end"); }
