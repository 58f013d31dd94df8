// UDP over IPv6. what=0 opening, 1 sending, 2 receiving, 3 addresses
#define FAM AF_INET6
#define ALEN sizeof(struct sockaddr_in6)
#include "netfix.h"
#include <new>
static const uint8_t GRP[16] = {0xff, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}; static const char* text; static uint8_t text_is[16];
extern "C" {
int bind(int fd, const struct sockaddr* a, socklen_t l) { const sockaddr_in6* s = (const sockaddr_in6*)a; Sock* k = S(fd); int z = 0; for (int i = 0; i < 16; i++) z |= s->sin6_addr.s6_addr[i]; A(l >= ALEN && s->sin6_family == AF_INET6 && z == 0, "a socket is bound to the wrong address"); if (bad()) return -1; k->bound = 1; k->mport = ntohs(s->sin6_port); return 0; }
int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) { Sock* k = S(fd); if (lv == SOL_SOCKET) return 0; A(lv == IPPROTO_IPV6, "the wrong option is set"); if (bad()) return -1;
  if (o == IPV6_JOIN_GROUP) { const ipv6_mreq* m = (const ipv6_mreq*)v; A(l >= sizeof *m, "the wrong group is joined"); memcpy(k->group, &m->ipv6mr_multiaddr, 16); k->joined = 1; } else if (o == IPV6_MULTICAST_HOPS) k->ttl = *(const int*)v; else if (o == IPV6_MULTICAST_LOOP) k->loop = *(const int*)v; return 0; }
int inet_pton(int f, const char* s, void* d) { A(f == AF_INET6, "the wrong kind of address is read"); if (strcmp(s, "ff03::1") == 0) { memcpy(d, GRP, 16); return 1; } if (text && strcmp(s, text) == 0) { memcpy(d, text_is, 16); return 1; } return 0; }
const char* inet_ntop(int, const void*, char* b, socklen_t n) { if (n) *b = 0; return b; }
}
static int num(char* b, int max) { int n = sym_pick(1, max, "digits"), v = 0; for (int i = 0; i < n; i++) { b[i] = '0' + sym_range(0, 9, "digit"); v = v * 10 + b[i] - '0'; } b[n] = 0; return v; }
static SensorNetwork* up(void) { set("MulticastIPv6", "ff03::1"); set("MulticastIPv6PortNo", "1883"); set("GatewayIPv6PortNo", "10000"); SensorNetwork* n = new SensorNetwork(); n->initialize(); return n; }
static int at(int port) { for (int i = 4; i <= nfd; i++) if (sk[i].open == 1 && sk[i].bound && sk[i].mport == port) return i; return 0; }
static void v6(sockaddr_in6* s, const char* n) { memset(s, 0, sizeof *s); s->sin6_family = AF_INET6; s->sin6_port = sym_u16("port"); sym_bytes(s->sin6_addr.s6_addr, 16, n); }
static void opening(void) {
  char b[8]; int ttl = -1; set("MulticastIPv6", "ff03::1"); int which = sym_pick(0, 2, "which"); int mp = which == 0 ? num(b, 5) : (strcpy(b, "1883"), 1883); sym_assume((mp > 0) & (mp <= 65535)); set("MulticastIPv6PortNo", b); int gp = which == 1 ? num(b, 5) : (strcpy(b, "10000"), 10000); sym_assume((gp > 0) & (gp <= 65535) & (gp != mp)); set("GatewayIPv6PortNo", b); if (which == 2) { ttl = num(b, 3); sym_assume(ttl <= 255); set("MulticastHops", b); } if (sym_pick(0, 1, "interface")) set("MulticastIPv6If", "eth0");
  int f = sym_pick(0, sym_param("faults", 11), "failing call"); fail_at = f - 1; void* mem = malloc(sizeof(SensorNetwork)); memset(mem, 5, sizeof(SensorNetwork)); SensorNetwork* n = new (mem) SensorNetwork(); int thrown = 0; try { n->initialize(); } catch (Exception&) { thrown = 1; }
  A(thrown == (f > 0 && calls > fail_at), "opening the network succeeds exactly when every step does"); if (!thrown) { int g = 0, m = 0; for (int i = 4; i <= nfd; i++) if (sk[i].open == 1 && sk[i].bound) { if (sk[i].mport == gp) g = i; if (sk[i].mport == mp) m = i; } A(g && m && g != m, "the network is not open on its ports"); if (!g || !m) return;
    A(sk[m].joined == 1 && memcmp(sk[m].group, GRP, 16) == 0 && !sk[g].joined, "the multicast group is not joined"); uint8_t v = sym_u8("payload"); n->broadcast(&v, 1); A(sends == 1 && sk[sent_fd].ttl == (ttl < 0 ? 1 : ttl), "broadcasts do not go as far as configured"); const sockaddr_in6* a = (const sockaddr_in6*)sent_to; A(ntohs(a->sin6_port) == mp && memcmp(&a->sin6_addr, GRP, 16) == 0, "a broadcast does not go to the multicast group"); sym_reach("open"); } else sym_reach("failed");
  n->~SensorNetwork(); free(mem); A(left == 0, "a socket is left open"); sym_reach("end"); }
static void sending(void) {
  SensorNetwork* n = up(); int l = sym_pick(1, 4, "length"); uint8_t* b = sym_bytes_new(l, "payload"); sockaddr_in6 x; v6(&x, "ip"); SensorNetAddress a; a.setAddress(&x); send_ok = sym_pick(0, 1, "sent"); int bc = sym_pick(0, 1, "broadcast"); int r = bc ? n->broadcast(b, l) : n->unicast(b, l, &a);
  A(sends == 1, "a datagram is not sent once"); if (!bc) A(sent_fd == at(10000), "a datagram is not sent from the port of the gateway"); A(sent_n == l && memcmp(sent, b, l) == 0, "a datagram is not sent as it is"); const sockaddr_in6* t = (const sockaddr_in6*)sent_to; A(t->sin6_family == AF_INET6, "the destination is wrong"); if (bc) A(memcmp(&t->sin6_addr, GRP, 16) == 0 && ntohs(t->sin6_port) == 1883, "a broadcast does not go to the multicast group"); else A(memcmp(&t->sin6_addr, &x.sin6_addr, 16) == 0 && t->sin6_port == x.sin6_port, "a datagram goes to another than its destination");
  A(send_ok ? (bc ? r >= 0 : r == l) : r < 0, "whether a datagram is sent is not told"); delete n; A(left == 0, "a socket is left open"); sym_reach("end"); }
static void receiving(void) {
  SensorNetwork* n = up(); int fd[2] = {at(10000), at(1883)}, got[2] = {0, 0}, want[2] = {0, 0};
  for (int i = 0; i < 2; i++) { In* in = &arr[fd[i]]; in->st = sym_pick(0, 2, "arrives"); if (in->st == 1) { want[i] = 1; in->n = sym_pick(1, 4, "length"); sym_bytes(in->b, in->n, "datagram"); v6((sockaddr_in6*)in->from, "ip"); } }
  sym_assume(!(want[0] && want[1]) || (arr[fd[0]].b[0] != arr[fd[1]].b[0]));
  for (int k = 0; k < 4; k++) { int cap = sym_pick(3, 4, "room"); uint8_t* b = (uint8_t*)malloc(cap); int r = n->read(b, cap); if (r <= 0) { free(b); continue; } int i = want[0] && !got[0] && sym_concretize(b[0] == arr[fd[0]].b[0]) ? 0 : 1; A(want[i] && !got[i], "a datagram is received which was not sent, or twice"); got[i] = 1; In* in = &arr[fd[i]]; int m = in->n < cap ? in->n : cap; A(r == m && memcmp(b, in->b, m) == 0, "a datagram is not received as it was sent"); SensorNetAddress e; e.setAddress((sockaddr_in6*)in->from); A(n->getSenderAddress()->isMatch(&e), "a datagram is taken as from another sender"); free(b); sym_reach("received"); }
  for (int i = 0; i < 2; i++) A(got[i] == want[i], "a datagram is lost"); A(waits == 4, "a socket is read without looking whether something is there"); delete n; sym_reach("end"); }
static void address(void) {
  if (sym_pick(0, 1, "what") == 0) { sockaddr_in6 x, y; v6(&x, "ip"); v6(&y, "other ip"); SensorNetAddress a, b, c; a.setAddress(&x); b.setAddress(&y); A(a.isMatch(&b) == (x.sin6_port == y.sin6_port && memcmp(&x.sin6_addr, &y.sin6_addr, 16) == 0), "two addresses match exactly when they are the same"); c = a; A(c.isMatch(&a) && memcmp(&c.getIpAddress()->sin6_addr, &x.sin6_addr, 16) == 0 && c.getPortNo() == x.sin6_port, "a copied address is another"); sym_reach("match"); return; }
  int l = sym_pick(2, 5, "address length"), fault = sym_pick(0, 4, "fault"); static char ip[8]; sym_bytes(ip, l, "address"); for (int i = 0; i < l; i++) sym_assume(((ip[i] >= '0') & (ip[i] <= '9')) | (ip[i] == ':') | ((ip[i] >= 'a') & (ip[i] <= 'f'))); ip[l] = 0; text = ip; sym_bytes(text_is, 16, "its value"); char d[8]; int port = num(d, 5);
  std::string s = fault == 4 ? "" : "["; s += ip; s += "]"; if (fault == 1) {} else { s += ":"; if (fault == 2) s += "-"; if (fault == 3) s += "x"; s += d; }
  SensorNetAddress a; int r = a.setAddress(&s), ok = fault == 0 && port >= 1 && port <= 65535; if (fault != 1 && fault != 4) A((r == 0) == ok, "a text is taken for an address exactly when it is one"); if (fault == 4) sym_exit(); if (ok && r == 0) { A(memcmp(&a.getIpAddress()->sin6_addr, text_is, 16) == 0 && a.getPortNo() == htons(port), "an address is not that of its text"); sym_reach("address"); } else sym_reach("no address"); sym_reach("end"); }
void sym_main(void) { int what = sym_param("what", 0); if (what == 0) opening(); else if (what == 1) sending(); else if (what == 2) receiving(); else address(); }
