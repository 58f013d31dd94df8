// UDP over IPv4. what=0 opening, 1 sending, 2 receiving, 3 addresses
#define FAM AF_INET
#define ALEN 16
#include "netfix.h"
#include <new>
extern "C" {
int bind(int fd, const struct sockaddr* a, socklen_t l) { const sockaddr_in* s = (const sockaddr_in*)a; Sock* k = S(fd); A(l >= ALEN && s->sin_family == AF_INET && s->sin_addr.s_addr == 0, "a socket is bound to the wrong address"); if (bad()) return -1; k->bound = 1; k->mport = ntohs(s->sin_port); return 0; }
int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) { Sock* k = S(fd); if (lv == SOL_SOCKET) return 0; A(lv == IPPROTO_IP, "the wrong option is set"); if (bad()) return -1;
  if (o == IP_ADD_MEMBERSHIP) { const ip_mreq* m = (const ip_mreq*)v; A(l >= sizeof *m && m->imr_interface.s_addr == 0, "the wrong group is joined"); memcpy(k->group, &m->imr_multiaddr, 4); k->joined = 1; } else if (o == IP_MULTICAST_TTL) { k->ttl = *(const int*)v; } else if (o == IP_MULTICAST_LOOP) k->loop = *(const int*)v; return 0; }
in_addr_t inet_addr(const char* s) { uint32_t v = 0, k = 0; int d = 0, p = 0; for (;; s++) { if (sym_concretize((*s >= '0') & (*s <= '9'))) { k = k * 10 + *s - '0'; d++; if (d > 3) return 0xffffffff; } else { if (!d || sym_concretize(k > 255)) return 0xffffffff; v = v << 8 | k; k = d = 0; p++; if (!sym_concretize(*s == '.')) break; } } return sym_concretize(*s != 0) || p != 4 ? 0xffffffff : htonl(v); }
}
static int num(char* b, int max) { int n = sym_pick(1, max, "digits"), v = 0; for (int i = 0; i < n; i++) { b[i] = '0' + sym_range(0, 9, "digit"); v = v * 10 + b[i] - '0'; } b[n] = 0; return v; }
static SensorNetwork* up(void) { set("MulticastIP", "225.1.2.3"); set("MulticastPortNo", "1883"); set("GatewayPortNo", "10000"); theProcess = 0; SensorNetwork* n = new SensorNetwork(); n->initialize(); return n; }
static int at(int port) { for (int i = 4; i <= nfd; i++) if (sk[i].open == 1 && sk[i].bound && sk[i].mport == port) return i; return 0; }
static void opening(void) {
  char b[8]; int ttl = -1; set("MulticastIP", "225.1.2.3"); int which = sym_pick(0, 2, "which"); int mp = which == 0 ? num(b, 5) : (strcpy(b, "1883"), 1883); sym_assume((mp > 0) & (mp <= 65535)); set("MulticastPortNo", b); int gp = which == 1 ? num(b, 5) : (strcpy(b, "10000"), 10000); sym_assume((gp > 0) & (gp <= 65535) & (gp != mp)); set("GatewayPortNo", b); if (which == 2) { ttl = num(b, 3); sym_assume(ttl <= 255); set("MulticastTTL", b); }
  int f = sym_pick(0, sym_param("faults", 9), "failing call"); fail_at = f - 1; void* mem = malloc(sizeof(SensorNetwork)); memset(mem, 5, sizeof(SensorNetwork)); SensorNetwork* n = new (mem) SensorNetwork(); int thrown = 0; try { n->initialize(); } catch (Exception&) { thrown = 1; }
  A(thrown == (f > 0 && calls > fail_at), "opening the network succeeds exactly when every step does"); if (!thrown) { int g = 0, m = 0; for (int i = 4; i <= nfd; i++) if (sk[i].open == 1 && sk[i].bound) { if (sk[i].mport == gp) g = i; if (sk[i].mport == mp) m = i; } A(g && m && g != m, "the network is not open on its ports"); if (!g || !m) return;
    static const uint8_t G[4] = {225, 1, 2, 3}; A(sk[m].joined == 1 && memcmp(sk[m].group, G, 4) == 0 && !sk[g].joined, "the multicast group is not joined"); uint8_t v = sym_u8("payload"); n->broadcast(&v, 1); A(sends == 1 && sk[sent_fd].ttl == (ttl < 0 ? 1 : ttl), "broadcasts do not go as far as configured"); const sockaddr_in* a = (const sockaddr_in*)sent_to; A(ntohs(a->sin_port) == mp && memcmp(&a->sin_addr, G, 4) == 0, "a broadcast does not go to the multicast group"); sym_reach("open"); } else sym_reach("failed");
  n->~SensorNetwork(); free(mem); A(left == 0, "a socket is left open"); sym_reach("end"); }
static void sending(void) {
  SensorNetwork* n = up(); int l = sym_pick(0, 4, "length"); uint8_t* b = sym_bytes_new(l, "payload"); uint32_t ip = sym_u32("ip"); uint16_t port = sym_u16("port"); SensorNetAddress a; a.setAddress(ip, port); send_ok = sym_pick(0, 1, "sent"); int bc = sym_pick(0, 1, "broadcast"); int r = bc ? n->broadcast(b, l) : n->unicast(b, l, &a);
  A(sends == 1 && sent_fd == at(10000), "a datagram is not sent once, from the port of the gateway"); A(sent_n == l && memcmp(sent, b, l) == 0, "a datagram is not sent as it is"); const sockaddr_in* t = (const sockaddr_in*)sent_to; A(t->sin_family == AF_INET, "the destination is wrong"); if (bc) { static const uint8_t G[4] = {225, 1, 2, 3}; A(memcmp(&t->sin_addr, G, 4) == 0 && ntohs(t->sin_port) == 1883, "a broadcast does not go to the multicast group"); } else A(t->sin_addr.s_addr == ip && t->sin_port == port, "a datagram goes to another than its destination");
  A(send_ok ? r == l : r < 0, "whether a datagram is sent is not told"); delete n; A(left == 0, "a socket is left open"); sym_reach("end"); }
static void receiving(void) {
  SensorNetwork* n = up(); int fd[2] = {at(10000), at(1883)}, got[2] = {0, 0}, want[2] = {0, 0}, idle = 0; 
  for (int i = 0; i < 2; i++) { In* in = &arr[fd[i]]; in->st = sym_pick(0, 2, "arrives"); if (in->st == 1) { want[i] = 1; in->n = sym_pick(1, 4, "length"); sym_bytes(in->b, in->n, "datagram"); sockaddr_in* s = (sockaddr_in*)in->from; s->sin_family = AF_INET; s->sin_port = sym_u16("port"); s->sin_addr.s_addr = sym_u32("ip"); } }
  sym_assume(!(want[0] && want[1]) || (arr[fd[0]].b[0] != arr[fd[1]].b[0]));
  for (int k = 0; k < 4; k++) { int cap = sym_pick(3, 4, "room"); uint8_t* b = (uint8_t*)malloc(cap); int r = n->read(b, cap); if (r <= 0) { idle++; free(b); continue; } int i = want[0] && !got[0] && sym_concretize(b[0] == arr[fd[0]].b[0]) ? 0 : 1; A(want[i] && !got[i], "a datagram is received which was not sent, or twice"); got[i] = 1; In* in = &arr[fd[i]]; int m = in->n < cap ? in->n : cap; A(r == m && memcmp(b, in->b, m) == 0, "a datagram is not received as it was sent"); SensorNetAddress e; e.setAddress(((sockaddr_in*)in->from)->sin_addr.s_addr, ((sockaddr_in*)in->from)->sin_port); A(n->getSenderAddress()->isMatch(&e), "a datagram is taken as from another sender"); free(b); sym_reach("received"); }
  for (int i = 0; i < 2; i++) A(got[i] == want[i], "a datagram is lost"); A(waits == 4, "a socket is read without looking whether something is there"); delete n; sym_reach("end"); }
static void address(void) {
  if (sym_pick(0, 1, "what") == 0) { uint32_t x = sym_u32("ip"), y = sym_u32("other ip"); uint16_t p = sym_u16("port"), q = sym_u16("other port"); SensorNetAddress a, b, c; a.setAddress(x, p); b.setAddress(y, q); A(a.isMatch(&b) == (x == y && p == q), "two addresses match exactly when they are the same"); c = a; A(c.isMatch(&a) && c.getIpAddress() == x && c.getPortNo() == p, "a copied address is another"); A(a.getIpAddress() == x && a.getPortNo() == p, "an address is not as set"); sym_reach("match"); return; }
  char t[40]; int o[4], n = 0, k = sym_pick(0, 3, "octet"), fault = sym_pick(0, 4, "fault"); char d[8]; for (int i = 0; i < 4; i++) { if (i == k) { o[i] = num(d, 3); } else { o[i] = 10 + i; strcpy(d, i == 0 ? "10" : i == 1 ? "11" : i == 2 ? "12" : "13"); } strcpy(t + n, d); n = strlen(t); if (i < 3) t[n++] = '.'; t[n] = 0; }
  int port = num(d, 5); if (fault == 1) { t[n] = 0; } else { t[n++] = ':'; t[n] = 0; if (fault == 2) t[n++] = '-'; t[n] = 0; if (fault == 3) t[n++] = 'x'; t[n] = 0; strcpy(t + n, d); if (fault == 4) { t[n] = 0; } }
  std::string s(t); SensorNetAddress a; int r = a.setAddress(&s), ok = fault == 0 && o[k] <= 255 && port >= 1 && port <= 65535; A((r == 0) == ok, "a text is taken for an address exactly when it is one"); if (ok && r == 0) { uint32_t ip = (uint32_t)o[0] << 24 | o[1] << 16 | o[2] << 8 | o[3]; A(a.getIpAddress() == htonl(ip) && a.getPortNo() == htons(port), "an address is not that of its text"); sym_reach("address"); } else sym_reach("no address"); sym_reach("end"); }
void sym_main(void) { int what = sym_param("what", 0); if (what == 0) opening(); else if (what == 1) sending(); else if (what == 2) receiving(); else address(); }
