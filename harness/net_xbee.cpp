/* C35, XBee: API frames in both directions against a reference (Digi: frame types 0x10, 0x8B, 0x90, API modes 1 and 2) */
#include "serfix.h"
static SensorNetwork* net; static int mode;
static void start(void) {
  set("ApiMode", mode == 1 ? "1" : "2"); set("Baudrate", "38400"); set("SerialDevice", "/dev/snx");
  net = new SensorNetwork(); net->initialize(); rxfd = txfd = lastfd; A(lastfd == 9, "not one port is opened"); nout = 0; }
static int mk(uint8_t type, const uint8_t* d, int n, uint8_t* f) {      /* a frame of the given type */
  f[0] = 0x7e; f[1] = (n + 1) >> 8; f[2] = (n + 1) & 255; f[3] = type; uint8_t s = type; for (int i = 0; i < n; i++) { f[4 + i] = d[i]; s += d[i]; } f[4 + n] = 0xff - s; return n + 5; }
static uint8_t wire[4096]; static uint8_t st_id, st_rc; static int answer, sent_id;
static void status(void) {                                                 /* what arrives while the sender waits */
  if (!answer) return;
  int k = 1; for (int i = 0; i < 4; i++) { sent_id = out[k++]; if (mode == 2 && sent_id == 0x7d) sent_id = out[k++] ^ 0x20; }      /* behind start, length, type */
  uint8_t d[6] = { (uint8_t)(answer == 2 ? st_id : sent_id), 0, 1, 0, st_rc, 0 }, f[16];
  int n = esc(f, mk(0x8b, d, 6, f), wire, mode == 2); cur = npiece = 0; arrives(wire, n); uint8_t b2[8]; int r = net->read(b2, 8); A(r <= 0, "a transmit status is taken for a packet"); }
static void fill(uint8_t* p, int n) { for (int i = 0; i < n; i++) if (i > 1 && i < n - 2) p[i] = 0x80 + i % 100; else sym_assume(!special(p[i])); }      /* of a long packet only the ends are symbolic */
extern "C" void sym_main(void) {
  mode = sym_param("mode", 2); int what = sym_param("what", 0), n0 = sym_param("n0", 0), n1 = sym_param("n1", 4); start();
  if (what == 0) {                                                         /* a packet goes out as one frame, and the status tells whether it arrived */
    int n = sym_pick(n0, n1, "length"), bc = sym_bool("broadcast"); uint8_t* p = sym_bytes_new(n, "payload"); uint8_t a[10]; sym_bytes(a, 10, "address"); for (int i = 2; i < 10; i++) sym_assume(!special(a[i])); SensorNetAddress to; to.setAddress(a, a + 8);
    if (n > 8) fill(p, n);
    answer = sym_pick(0, 2, "answer"); st_id = sym_u8("id in the status"); st_rc = sym_u8("delivery"); waiting = status; sent_id = -1; if (answer && n <= 8) sym_reach("answered");
    int r = bc ? net->broadcast(p, n) : net->unicast(p, n, &to);
    uint8_t d[1100]; d[0] = 1; if (bc) { memset(d + 1, 0, 6); d[7] = d[8] = 0xff; d[9] = 0xff; d[10] = 0xfe; } else memcpy(d + 1, a, 10); d[11] = d[12] = 0; memcpy(d + 13, p, n);
    static uint8_t f[1200], w[2400]; int k = esc(f, mk(0x10, d, 13 + n, f), w, mode == 2); A(nout == k, "the frame has the wrong length"); A(memcmp(out, w, k) == 0, "the frame is wrong");
    A(waits == 1, "the status is not waited for");
    int ok = answer == 1 ? st_rc == 0 : answer == 2 ? st_id == 1 && st_rc == 0 : 0; A(r == (ok ? n : -1), "a packet is taken for delivered which is not, or the other way round"); sym_observe("r", r); }
  if (what == 1) {                                                         /* every packet gets a status: its frame id is never 0 */
    SensorNetAddress to; to.setBroadcastAddress(); uint8_t p[1] = { 7 }, last = 0; waiting = status; answer = 1;
    for (int i = 0; i < 300; i++) { nout = 0; int r = net->unicast(p, 1, &to); A(r == 1, "a delivered packet is taken for lost"); A(sent_id != 0, "a packet is sent without asking for its status"); A(sent_id != last, "two packets have the same frame id"); last = sent_id; } }
  if (what == 2) {                                                         /* anything arrives */
    int n = sym_pick(n0, n1, "length"); uint8_t* s = sym_bytes_new(n, "bytes"); if (n > 0) sym_assume(s[0] == 0x7e); if (sym_param("type", 0)) { sym_assume(n > 3 && s[1] == 0 && s[2] == n - 4 - (int)sym_pick(0, 1, "shorter") && s[3] == sym_param("type", 0)); for (int i = 4; i < 14 && i < n; i++) sym_assume(!special(s[i])); }
    arrives(s, n); int room = sym_pick(1, 4, "room"); uint8_t* b = (uint8_t*)malloc(room); int r = net->read(b, room);
    /* the reference: unescaped frames, one behind the other */
    int p = 0, got = 0, len = 0; uint8_t d[64]; const uint8_t* from = 0;
    for (;;) {
      while (p < n && s[p] != 0x7e) p++;
      if (p >= n) break;
      p++; uint8_t h[3]; int k = 0, bad = 0; uint8_t u[64], sum = 0; int want = -1, j = 0;
      while (!bad && (want < 0 || j < want + 1)) { if (p >= n) { bad = 1; break; } uint8_t c = s[p++]; if (mode == 2 && c == 0x7d) { if (p >= n) { bad = 1; break; } c = s[p++] ^ 0x20; }
        if (k < 2) { h[k++] = c; if (k == 2) { want = h[0] << 8 | h[1]; if (want > n) bad = 1; } } else { u[j++] = c; if (j <= want) sum += c; } }
      if (bad || 0xff - sum != u[want] || want < 1) break;
      if (u[0] == 0x90) { if (want >= 12 && want - 12 <= room) { got = want - 12; memcpy(d, u, want); from = d + 1; } break; }
    }
    if (from) { sym_reach("packet"); A(r == got, "a packet is lost or has the wrong length"); A(memcmp(b, d + 12, got) == 0, "a packet is changed"); SensorNetAddress x; x.setAddress(d + 1, d + 9); A(net->getSenderAddress()->isMatch(&x), "the sender is wrong"); }
    else { sym_reach("no packet"); A(r <= 0, "a packet is received which nobody sent"); } sym_observe("r", r); }
  if (what == 3) {                                                         /* long packets, and the next one */
    int n = sym_pick(n0, n1, "length"); static uint8_t f[3000], w[6000], w2[64], d[3000]; sym_bytes(d, 11, "head"); sym_bytes(d + 11, n, "payload"); if (n > 8) fill(d + 11, n); for (int i = 0; i < n + 11; i++) sym_assume(!special(d[i]));
    int k = mk(0x90, d, 11 + n, f); sym_assume(!special(f[k - 1])); k = esc(f, k, w, mode == 2);
    int cut = sym_param("cut", 0) ? (int)sym_pick(1, k - 1, "interrupted behind") : k; arrives(w, cut); if (cut < k) arrives(w + cut, k - cut);
    uint8_t* b = (uint8_t*)malloc(1024); int r = net->read(b, 1024);
    if (cut < k) { sym_reach("interrupted"); A(r <= 0, "a packet is received which was interrupted"); r = net->read(b, 1024); A(r <= 0, "the rest of an interrupted packet is taken for a packet"); }
    else if (n <= 1024) { A(r == n, "a packet is lost or has the wrong length"); A(memcmp(b, d + 11, n) == 0, "a packet is changed"); } else { sym_reach("too long"); A(r <= 0, "a packet is received which is too long"); }
    uint8_t g[12] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0, 0x55 }; int q = esc(f, mk(0x90, g, 12, f), w2, mode == 2); cur = npiece = 0; arrives(w2, q); r = net->read(b, 1024); A(r == 1 && b[0] == 0x55, "the next packet is lost"); }
  if (what == 4) {                                                         /* addresses of the client list: 16 hexadecimal digits */
    int n = sym_pick(15, 17, "digits"), sy = sym_pick(0, n - 1, "position"); string t = "0013A200406b7cDF1"; t.resize(n); char c = sym_u8("character"); sym_assume(c != 0); t[sy] = c;
    SensorNetAddress x, y; int r = x.setAddress(&t); int ok = n == 16; uint8_t v[18]; for (int i = 0; i < n; i++) { char q = t[i]; int k = q >= '0' && q <= '9' ? q - '0' : q >= 'a' && q <= 'f' ? q - 'a' + 10 : q >= 'A' && q <= 'F' ? q - 'A' + 10 : -1; if (k < 0) ok = 0; v[i] = k; }
    if (!ok) { sym_reach("no address"); A(r != 0, "a text is taken for an address which is none"); sym_exit(); }
    sym_reach("address"); A(r == 0, "an address is refused"); uint8_t a[8], s[2]; for (int i = 0; i < 8; i++) a[i] = v[2 * i] << 4 | v[2 * i + 1]; sym_bytes(s, 2, "network address");
    y.setAddress(a, s); A(x.isMatch(&y), "the listed node is not found by its address"); a[sym_pick(0, 7, "other")] ^= 1; y.setAddress(a, s); A(!x.isMatch(&y), "another node is taken for the listed one"); }
  sym_reach("end"); }
