/* Length field and framing. params: what = 0 length field over all lengths, 1 read (callback), 2 read_nb, 3 packet names */
#include "sym.h"
#include "MQTTSNPacket.h"
#include "snref.h"
#include <stdlib.h>
static uint8_t in[64]; static int got, asked;
static int getfn(unsigned char* b, int n) { asked = n; if (got > 0) memcpy(b, in, got); return got; }
void sym_main(void) {
  int what = sym_param("what", 0);
  if (what == 0) {
    uint8_t* b = malloc(3); int body = (int)sym_range(0, 65532, "body"), total, hl, v = -1, rc; b[0] = b[1] = b[2] = 0xee;
    total = MQTTSNPacket_len(body);
    sym_assert(total == (body + 1 <= 255 ? body + 1 : body + 3), "the length of a message is not minimal");
    hl = MQTTSNPacket_encode(b, total);
    sym_assert(hl + body == total, "the length field takes more or less room than was counted for it");
    sym_assert(total < 256 ? b[0] == total && b[1] == 0xee : b[0] == 1 && b[1] == total / 256 && b[2] == total % 256, "the length field is not encoded as specified");
    rc = MQTTSNPacket_decode(b, 3, &v);
    sym_assert(total == 1 || (rc == hl && v == total), "decoding the length field does not give back the length");
    sym_observe("total", total); sym_observe("hl", hl); sym_reach("end"); return;
  }
  if (what == 3) { int c = sym_int("code"); const char* s = MQTTSNPacket_name(c); uint64_t l = strlen(s); sym_assert(l > 2, "a message type has no name"); sym_observe("len", l); sym_reach("end"); return; }
  int n = (int)sym_pick(0, sym_param("n", 12), "received"), rc, exp = -1, hl = 1, decl = -1; uint8_t* b;
  sym_bytes(in, n, "packet"); got = n;
  if (n >= 1) { if (in[0] != 1) decl = in[0]; else if (n >= 3) { hl = 3; decl = in[1] * 256 + in[2]; } }
  if (decl == n && n > hl) exp = in[hl];
  if (what == 1) {
    int err = (int)sym_pick(0, 1, "transport error"); if (err) { got = -1; exp = -1; }
    b = malloc(n); rc = MQTTSNPacket_read(b, n, getfn); sym_assert(asked == n, "the reader asked the transport for another size than its buffer");
  } else { b = malloc(n); memcpy(b, in, n); rc = MQTTSNPacket_read_nb(b, n); }
  sym_assert(rc == exp, "a packet is recognised exactly when its declared length is the received length and it has a type");
  sym_observe("rc", (uint64_t)(int64_t)rc); if (rc >= 0) sym_reach("recognised"); else sym_reach("rejected"); free(b); }
