/* C06: the Bluetooth RFCOMM network: one listening socket per channel, one device per channel */
#include "sym.h"
#include "SensorNetwork.h"
#include "MQTTSNGWProcess.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <bluetooth/rfcomm.h>
#define A(c, l) sym_assert((c), l)
using namespace MQTTSNGW;
char* currentDateTime(void) { static char t[2]; return t; }
namespace MQTTSNGW { extern Process* theProcess; }
static char conf[32] = "60:57:18:06:8B:72.*"; static int noconf;
int Process::getParam(const char* k, char* v) { if (noconf) return -1; strcpy(v, conf); return 0; }
enum { L0 = 100, C0 = 200 };                     /* the sockets of channel c: listening L0+c, connected C0+c */
static int lopen[64], bound[64], listening[64], lfd, lch[64], copen[64], fail_at = -1, calls, left;
static int allof = -1;                            /* every call of a kind fails */
static int bad(int kind) { return calls++ == fail_at || kind == allof; }
struct Dev { int want, dead, n; uint8_t a; uint8_t b[4]; }; static Dev dev[64];       /* what the device on a channel does: connects, closes (1) or fails (2), has sent */
static int got_ch[16], got_n[16], ngot; static uint8_t got_b[16][4]; static int sigpipe, sending_fails;
static int chof(int fd) { for (int i = 0; i < 64; i++) if (lch[i] && fd == L0 + i) return lch[i]; return 0; }
extern "C" {
int str2ba(const char* s, bdaddr_t* b) { for (int i = 0; i < 17; i++) { char c = s[i]; if (i % 3 == 2 ? c != ':' : !((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'))) { memset(b, 0, 6); return -1; } } if (s[17]) { memset(b, 0, 6); return -1; } for (int i = 0; i < 6; i++) { int v = 0; for (int j = 0; j < 2; j++) { char c = s[3 * i + j]; v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } b->b[5 - i] = v; } return 0; }
int ba2str(const bdaddr_t* b, char* s) { strcpy(s, "00:00:00:00:00:00"); return 17; }
int socket(int f, int t, int p) { if (f != AF_BLUETOOTH) return syscall(SYS_socket, f, t, p); A(t == SOCK_STREAM && p == BTPROTO_RFCOMM, "the wrong kind of socket is opened"); if (bad(0)) return -1; lopen[++lfd] = 1; left++; return L0 + lfd; }
int setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t l) { int i = fd - L0; A(i > 0 && i < 64 && lopen[i], "a socket is bound which is not open"); const sockaddr_rc* r = (const sockaddr_rc*)a; uint8_t want[6] = { 0x72, 0x8b, 6, 0x18, 0x57, 0x60 }; A(l == sizeof(*r) && r->rc_family == AF_BLUETOOTH && memcmp(&r->rc_bdaddr, want, 6) == 0, "a socket is bound to the wrong address"); if (bad(1)) { errno = EADDRINUSE; return -1; } bound[i] = 1; lch[i] = r->rc_channel; return 0; }
int listen(int fd, int) { int i = fd - L0; A(i > 0 && i < 64 && lopen[i] && bound[i], "a socket listens which is not bound"); if (bad(2)) { errno = EADDRINUSE; return -1; } listening[i] = 1; return 0; }
int close(int fd) { if (fd < L0) return syscall(SYS_close, fd); if (fd >= C0) { A(copen[fd - C0], "a socket is closed which is not open"); copen[fd - C0] = 0; dev[fd - C0].a = 0; dev[fd - C0].n = dev[fd - C0].dead = 0; } else { A(lopen[fd - L0], "a socket is closed which is not open"); lopen[fd - L0] = 0; left--; } return 0; }
int select(int n, fd_set* r, fd_set*, fd_set*, struct timeval*) {
  int k = 0; for (int i = 0; i < n; i++) if (FD_ISSET(i, r)) { int on = 0; if (i > C0) { int c = i - C0; A(c < 64 && copen[c], "a socket is looked at which is not open"); on = dev[c].n > 0 || dev[c].dead; } else { int c = chof(i); A(i > L0 && lopen[i - L0] && listening[i - L0], "a socket is looked at which does not listen"); on = dev[c].want; } if (!on) FD_CLR(i, r); else k++; }
  for (int c = 1; c <= 30; c++) if (copen[c]) A(n > C0 + c, "a connected device is not looked at"); return k; }
int accept(int fd, struct sockaddr* a, socklen_t* l) { int c = chof(fd); A(c && dev[c].want && !copen[c] && *l >= sizeof(sockaddr_rc), "a connection is accepted which does not exist"); int w = dev[c].want; dev[c].want = 0; if (w == 2) { errno = ECONNABORTED; return -1; } copen[c] = 1; sockaddr_rc* r = (sockaddr_rc*)a; memset(r, 0, sizeof(*r)); r->rc_family = AF_BLUETOOTH; memset(&r->rc_bdaddr, dev[c].a, 6); r->rc_channel = 9; return C0 + c; }
ssize_t read(int fd, void* b, size_t n) { if (fd < L0) return syscall(SYS_read, fd, b, n); int c = fd - C0; A(c > 0 && c < 64 && copen[c], "a socket is read which is not open"); Dev* d = &dev[c]; if (d->n) { int m = d->n; A((int)n >= m, "no room for the packet"); memcpy(b, d->b, m); d->n = 0; return m; } if (d->dead == 1) return 0; errno = d->dead ? ECONNRESET : EAGAIN; return -1; }
ssize_t send(int fd, const void* b, size_t n, int fl) { int c = fd - C0; A(c > 0 && c < 64 && copen[c], "a packet is sent to a socket which is not open"); if (dev[c].dead && !(fl & MSG_NOSIGNAL)) sigpipe = 1; got_ch[ngot] = c; got_n[ngot] = n; memcpy(got_b[ngot++], b, n < 4 ? n : 4); if (dev[c].dead) { errno = EPIPE; return -1; } return n; }
}
static void addr(SensorNetAddress* x, uint8_t a, int ch) { bdaddr_t b; memset(&b, a, 6); x->setAddress(b, ch); }
extern "C" void sym_main(void) {
  int what = sym_param("what", 0); SensorNetwork* net = new SensorNetwork();
  if (what == 0) {                               /* opening: any call may fail, and all from one on */
    fail_at = sym_pick(0, 95, "failing call") - 1; int f = fail_at; noconf = sym_pick(0, 1, "configured") == 0; int ok = 1; try { net->initialize(); } catch (...) { ok = 0; }
    A(ok == !noconf, "the network is not open though it can be, or the other way round"); if (!ok) { sym_reach("refused"); A(left == 0, "a socket is left open"); sym_exit(); }
    int on[64] = { 0 }, k = 0; for (int i = 1; i < 64; i++) if (lopen[i]) { A(listening[i] && lch[i] >= 1 && lch[i] <= 30 && !on[lch[i]], "a socket is open for no channel, or two for one"); on[lch[i]] = 1; k++; } A(k == (f >= 0 && f < 90 ? 29 : 30), "a channel is not served"); uint8_t b[4]; for (int c = 1; c <= 30; c++) if (on[c]) { dev[c].want = 1; dev[c].a = c; } int r = net->read(b, 4); A(r <= 0, "something is received which nobody sent"); for (int c = 1; c <= 30; c++) A(copen[c] == on[c], "a device cannot connect"); }
  if (what == 2) { allof = sym_pick(0, 2, "all of"); int ok = 1; try { net->initialize(); } catch (...) { ok = 0; } A(!ok, "a network without any channel is taken for open"); A(left == 0, "a socket is left open"); }
  if (what == 1) {                               /* devices come, send, go */
    net->initialize(); static const int chs[3] = { 1, 2, 30 }; int K = sym_param("k", 3); uint8_t peer[64] = { 0 };
    for (int s = 0; s < K; s++) switch (sym_pick(0, 5, "step")) {
      case 0: { int c = chs[sym_pick(0, 2, "channel")], w = sym_pick(1, 2, "accepted"); if (copen[c]) sym_exit(); dev[c].want = w; dev[c].a = sym_pick(1, 2, "device"); uint8_t d = dev[c].a, b[4]; int r = net->read(b, 4); A(r <= 0, "something is received which nobody sent"); A(copen[c] == (w == 1), "a device cannot connect"); if (w == 1) { peer[c] = d; sym_reach("connected"); } break; }
      case 1: { int m = sym_pick(1, 7, "senders"), sent[64] = { 0 }, want = 0; uint8_t keep[64][4]; for (int i = 0; i < 3; i++) if (m >> i & 1) { int c = chs[i]; if (!copen[c]) sym_exit(); dev[c].n = 1 + i; sym_bytes(dev[c].b, dev[c].n, "packet"); memcpy(keep[c], dev[c].b, 4); sent[c] = 1; want++; }
        if (want > 1) sym_reach("several"); uint8_t b[8]; for (int i = 0; i < 5; i++) { int r = net->read(b, 8); if (r <= 0) continue; int hit = 0; for (int j = 0; j < 3; j++) { int c = chs[j]; SensorNetAddress x; addr(&x, peer[c], c); if (sent[c] && net->getSenderAddress()->isMatch(&x)) { hit++; sent[c] = 0; want--; A(r == j + 1 && memcmp(b, keep[c], r) == 0, "a packet is changed"); } } A(hit == 1, "the sender of a packet is wrong"); } A(want == 0, "a packet is lost"); break; }
      case 2: case 3: { int c = chs[sym_pick(0, 2, "channel")], e = sym_pick(1, 2, "how"); if (!copen[c]) sym_exit(); dev[c].dead = e; uint8_t b[4]; int r = net->read(b, 4); A(r <= 0, "something is received which nobody sent"); A(!copen[c], "a lost connection is kept"); peer[c] = 0; sym_reach("gone"); break; }
      case 4: { int c = sym_pick(0, 4, "channel"), d = sym_pick(1, 2, "device"); c = c < 3 ? chs[c] : c == 3 ? 0 : 31; SensorNetAddress x; addr(&x, d, c); uint8_t p[3]; sym_bytes(p, 3, "packet"); if (peer[c]) dev[c].dead = sym_pick(0, 1, "already gone"); ngot = 0; int r = net->unicast(p, 3, &x); int to = peer[c] == d;
        if (!to) { A(ngot == 0 && r < 0, "a packet is sent to a device it is not for"); sym_reach("not sent"); } else { A(ngot == 1 && got_ch[0] == c && got_n[0] == 3 && memcmp(got_b[0], p, 3) == 0, "a packet is not sent as it is"); A(r == (dev[c].dead ? -1 : 3), "the result is wrong"); sym_reach("sent"); } A(!sigpipe, "the gateway is ended by SIGPIPE"); break; }
      case 5: { uint8_t p[2]; sym_bytes(p, 2, "packet"); ngot = 0; net->broadcast(p, 2); int k = 0; for (int i = 0; i < 3; i++) if (peer[chs[i]]) k++; A(ngot == k, "a broadcast is not sent to every device once"); for (int i = 0; i < ngot; i++) { A(got_n[i] == 2 && memcmp(got_b[i], p, 2) == 0, "a broadcast is changed"); for (int j = 0; j < i; j++) A(got_ch[i] != got_ch[j], "a device gets a broadcast twice"); } A(!sigpipe, "the gateway is ended by SIGPIPE"); break; } } }
  if (what == 3) {                               /* texts of addresses */
    string t = "60:57:18:06:8B:72."; int n = sym_pick(0, 3, "digits"), v = 0; if (n == 0) t += "*"; else for (int i = 0; i < n; i++) { char c = sym_u8("digit"); sym_assume(c >= '0' && c <= '9'); t += c; v = v * 10 + c - '0'; }
    int pos = sym_pick(0, 17, "position"); char c = sym_u8("character"); sym_assume(c != 0); if (pos < 17) t[pos] = c; else c = '1'; int ok = v <= 30; if (pos < 17) { if (pos % 3 == 2) ok = ok && c == ':'; else ok = ok && ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')); } if (c == '.') sym_exit();
    SensorNetAddress x, y; int r = x.setAddress(&t); if (!ok) { sym_reach("no address"); A(r != 0, "a text is taken for an address which is none"); } else { sym_reach("address"); A(r == 0, "an address is refused"); A(x.getPortNo() == v, "the channel is wrong"); } }
  sym_reach("end"); }
