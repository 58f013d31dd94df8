/* C35, LoRaLink: frames in both directions against a reference (7E, length, source or destination, RSSI, SNR, type, payload, checksum; always escaped) */
#include "serfix.h"
static SensorNetwork* net;
static void start(void) { set("BaudrateLoRaLink", "115200"); set("DeviceRxLoRaLink", "/dev/snrx"); set("DeviceTxLoRaLink", "/dev/sntx"); net = new SensorNetwork(); net->initialize(); A(lastfd == 10, "not both ports are opened"); rxfd = 9; txfd = 10; }
static int mk(const uint8_t* d, int n, uint8_t* f) { f[0] = 0x7e; f[1] = (n + 1) >> 8; f[2] = (n + 1) & 255; uint8_t s = 0; for (int i = 0; i < n; i++) { f[3 + i] = d[i]; s += d[i]; } f[3 + n] = 0xff - s; return n + 4; }
static uint8_t wire[4096]; static uint8_t st; static int answer;
static void status(void) {
  if (!answer) return;
  uint8_t d[9] = { 0, 1, 2, 3, 4, (uint8_t)(0x80 + st), 9, 9, 9 }, f[16]; int n = esc(f, mk(d, 6 + answer - 1, f), wire, 1); cur = npiece = 0; arrives(wire, n); uint8_t b2[8]; int r = net->read(b2, 8); A(r <= 0, "a response of the modem is taken for a packet"); A(posted == 1, "the sender is not told of the response"); }
static void fill(uint8_t* p, int n) { for (int i = 0; i < n; i++) if (i > 1 && i < n - 2) p[i] = 0x80 + i % 100; else sym_assume(!special(p[i])); }
extern "C" void sym_main(void) {
  int what = sym_param("what", 0), n0 = sym_param("n0", 0), n1 = sym_param("n1", 4); start();
  if (what == 0) {
    int n = sym_pick(n0, n1, "length"), bc = sym_bool("broadcast"); uint8_t* p = sym_bytes_new(n, "payload"); if (n > 8) fill(p, n); SensorNetAddress to; uint8_t a = sym_u8("address"); to.setAddress(a);
    answer = sym_pick(0, 3, "answer"); st = sym_pick(0, 2, "response"); waiting = status;
    int r = bc ? net->broadcast(p, n) : net->unicast(p, n, &to);
    static uint8_t d[1100], f[1200], w[2400]; d[0] = bc ? 0xff : a; d[1] = 0x40; memcpy(d + 2, p, n); int k = esc(f, mk(d, n + 2, f), w, 1);
    A(nout == k, "the frame has the wrong length"); A(memcmp(out, w, k) == 0, "the frame is wrong"); A(waits == 1, "the response is not waited for");
    A(r == (answer && st == 0 ? n : -1), "a packet is taken for delivered which is not, or the other way round"); if (answer && st == 0) sym_reach("answered"); sym_observe("r", r); }
  if (what == 2) {                                                         /* anything arrives, twice looked at */
    int n = sym_pick(n0, n1, "length"), t = sym_param("type", 0); uint8_t* s = sym_bytes_new(n, "bytes"); if (t) { sym_assume(n > 3 && s[0] == 0x7e && s[1] == 0 && s[2] == n - 3 - (int)sym_pick(0, 1, "shorter")); for (int i = 3; i < 8 && i < n; i++) sym_assume(!special(s[i])); if (n > 8) sym_assume(s[8] == t); }
    for (int i = 0; i + 1 < n; i++) sym_assume(s[i] != 0x7d || !special(s[i + 1])); int cut = sym_pick(0, n, "pause behind"); arrives(s, cut); arrives(s + cut, n - cut); int room = t ? sym_pick(1, 4, "room") : 4; uint8_t* b = (uint8_t*)malloc(room);
    /* the reference */
    int st = 0, want = 0, e = 0, k = 0, got = -1; uint8_t d[64], sum = 0;
    for (int i = 0; i < n && got < 0; i++) { uint8_t c = s[i]; if (c == 0x7e) { st = 1; e = 0; continue; } if (st && c == 0x7d && !e) { e = 1; continue; } if (e) { c ^= 0x20; e = 0; }
      if (st == 0) continue; if (st == 1) { want = c << 8; st = 2; continue; } if (st == 2) { want |= c; st = want < 7 || want > 50 ? 0 : 3; k = 0; sum = 0; continue; }
      if (k < want - 1) { d[k++] = c; sum += c; continue; } st = 0; if (0xff - sum == c && d[5] == 0x40 && want - 7 <= room && want > 7) got = want - 7; }
    int r = -1; for (int i = 0; i < 8 && r <= 0; i++) r = net->read(b, room);
    if (got > 0) { sym_reach("packet"); A(r == got, "a packet is lost or has the wrong length"); A(memcmp(b, d + 6, got) == 0, "a packet is changed"); SensorNetAddress x; x.setAddress(d[0]); A(net->getSenderAddress()->isMatch(&x), "the sender is wrong"); }
    else { sym_reach("no packet"); A(r <= 0, "a packet is received which nobody sent"); } sym_observe("r", r); }
  if (what == 3) {                                                         /* long packets, and the next one */
    int n = sym_pick(n0, n1, "length"); static uint8_t f[3000], w[6000], w2[64], d[3000]; sym_bytes(d, 5, "head"); d[5] = 0x40; sym_bytes(d + 6, n, "payload"); for (int i = 0; i < 5; i++) sym_assume(!special(d[i])); if (n > 8) fill(d + 6, n); else for (int i = 0; i < n; i++) sym_assume(!special(d[6 + i]));
    int k = mk(d, 6 + n, f); sym_assume(!special(f[k - 1])); k = esc(f, k, w, 1); int gone = sym_param("cut", 0) ? (int)sym_pick(0, k - 1, "lost") : -1; sym_assume(gone != 1 && gone != 2);
    arrives(w, gone < 0 ? k : gone); if (gone >= 0) arrives(w + gone + 1, k - gone - 1);
    uint8_t* b = (uint8_t*)malloc(1024); int r = 0, got = 0; for (int i = 0; i < 4; i++) { r = net->read(b, 1024); if (r > 0) { got++; if (gone < 0 && n <= 256) { A(r == n, "a packet has the wrong length"); A(memcmp(b, d + 6, n) == 0, "a packet is changed"); } } }
    if (gone >= 0) { A(got == 0, "a packet is received of which a byte was lost"); sym_reach("lost"); } else if (n == 0) A(got == 0, "an empty packet is received"); else if (n <= 256) A(got == 1, "a packet is lost or repeated"); else { sym_reach("too long"); A(got == 0, "a packet is received which is too long"); }
    uint8_t g[7] = { 1, 2, 3, 4, 5, 0x40, 0x55 }; int q = esc(f, mk(g, 7, f), w2, 1); cur = npiece = 0; arrives(w2, q); r = net->read(b, 1024); A(r == 1 && b[0] == 0x55, "the next packet is lost"); }
  if (what == 4) {
    string t; int n = sym_pick(1, 4, "digits"), v = 0; for (int i = 0; i < n; i++) { char c = sym_u8("digit"); sym_assume(c >= '0' && c <= '9'); t += c; v = v * 10 + c - '0'; }
    SensorNetAddress x, y; int r = x.setAddress(&t); if (v < 1 || v > 254) { sym_reach("no address"); A(r != 0, "a number is taken for an address which is none"); sym_exit(); }
    A(r == 0, "an address is refused"); uint8_t o = sym_u8("other"); y.setAddress(o); A(x.isMatch(&y) == (o == v), "addresses match which are different, or the other way round"); }
  sym_reach("end"); }
