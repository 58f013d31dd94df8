/* C44: the UDP networks of the tester's client library over stand-in sockets. what = 0 opening; 1 sending; 2 receiving. With UDP6 the same over IPv6. */
#include "testerfix.h"
#include <errno.h>
#include <unistd.h>
#include <new>
#include <poll.h>
#include <net/if.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#ifdef UDP6
#define FAM AF_INET6
#define AL 16
typedef sockaddr_in6 Addr; typedef LUdp6Config Config;
#define PORT(a) ((a)->sin6_port)
#define IP(a) ((const uint8_t*) &(a)->sin6_addr)
LMqttsnConfig theMqcon = { 60, true, 0, "", "", 0, false }; LUdp6Config theNetcon = { "c", "ff03::1", "", 1883, 12001 };
#else
#define FAM AF_INET
#define AL 4
typedef sockaddr_in Addr; typedef LUdpConfig Config;
#define PORT(a) ((a)->sin_port)
#define IP(a) ((const uint8_t*) &(a)->sin_addr)
LMqttsnConfig theMqcon = { 60, true, 0, "", "", 0, false }; LUdpConfig theNetcon = { "c", { 225, 1, 1, 1 }, 1883, 12001 };
#endif
OnPublishList theOnPublishList[] = { { MQTTSN_TOPIC_TYPE_NORMAL, 0, 0, 0, 0 } };
extern bool theClientMode;
struct Sock { int open, port, joined; uint8_t group[16]; };
static Sock sk[8]; static int nfd = 3, fail_at = -1, calls;
static int bad(void) { return calls++ == fail_at; }
static Sock* S(int fd) { A(fd > 3 && fd <= nfd && sk[fd].open, "a socket is used which is not open"); return &sk[fd]; }
static uint8_t sent[400]; static Addr sent_to; static int sent_n, sends, sent_fd, send_ok = 1;
struct In { int st, n; uint8_t b[400]; Addr from; }; static In arr[8];
static const uint8_t G6[16] = { 0xff, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1 };
extern "C" {
int socket(int f, int t, int) { A(f == FAM && t == SOCK_DGRAM, "the wrong kind of socket is opened"); if (bad()) return -1; nfd++; memset(&sk[nfd], 0, sizeof(Sock)); sk[nfd].open = 1; return nfd; }
int bind(int fd, const struct sockaddr* a, socklen_t l) { const Addr* s = (const Addr*) a; Sock* k = S(fd); int z = 0; for (int i = 0; i < AL; i++) z |= IP(s)[i]; A(l >= sizeof(Addr) && a->sa_family == FAM && z == 0, "a socket is bound to the wrong address"); if (bad()) return -1; k->port = ntohs(PORT(s)); return 0; }
int setsockopt(int fd, int lv, int o, const void* v, socklen_t) { Sock* k = S(fd); if (lv == SOL_SOCKET) return 0;
#ifdef UDP6
  if (lv != IPPROTO_IPV6 || o == IPV6_V6ONLY) return 0; if (bad()) return -1; if (o == IPV6_JOIN_GROUP) { memcpy(k->group, &((const ipv6_mreq*) v)->ipv6mr_multiaddr, 16); k->joined = 1; }
#else
  if (lv != IPPROTO_IP) return 0; if (bad()) return -1; if (o == IP_ADD_MEMBERSHIP) { memcpy(k->group, &((const ip_mreq*) v)->imr_multiaddr, 4); k->joined = 1; }
#endif
  return 0; }
int close(int fd) { if (fd <= 2) return 0; S(fd)->open = 0; return 0; }
int select(int n, fd_set* r, fd_set*, fd_set*, struct timeval*) { int k = 0; for (int fd = 4; fd <= nfd; fd++) if (FD_ISSET(fd, r)) { A(fd < n, "a socket is not looked at"); S(fd); if (arr[fd].st) k++; else FD_CLR(fd, r); } return k; }
int poll(struct pollfd* p, nfds_t n, int) { int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd <= 0) continue; S(p[i].fd); A((p[i].events & POLLIN) != 0, "a socket is not looked at for datagrams"); if (arr[p[i].fd].st) { p[i].revents = POLLIN; k++; } } return k; }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { S(fd); In* in = &arr[fd]; if (!in->st) { A((fl & MSG_DONTWAIT) != 0, "a datagram is waited for on a socket without one"); errno = EAGAIN; return -1; }
  if (in->st == 2 || (in->st == 3 && !(fl & MSG_PEEK))) { in->st = 0; errno = ECONNREFUSED; return -1; } if (!(fl & MSG_PEEK)) in->st = 0; size_t m = (size_t) in->n < n ? in->n : n; memcpy(b, in->b, m); if (a) { A(*l >= sizeof(Addr), "no room for the address of the sender"); memcpy(a, &in->from, sizeof(Addr)); *l = sizeof(Addr); } return m; }
ssize_t recv(int fd, void* b, size_t n, int fl) { return recvfrom(fd, b, n, fl, 0, 0); }
ssize_t sendto(int fd, const void* b, size_t n, int, const struct sockaddr* a, socklen_t l) { S(fd); A(l >= sizeof(Addr) && n <= 400, "the destination is wrong"); sends++; sent_fd = fd; sent_n = n; memcpy(sent, b, n); memcpy(&sent_to, a, sizeof(Addr)); if (!send_ok) { errno = ENETUNREACH; return -1; } return n; }
unsigned int if_nametoindex(const char*) { return 3; }
int inet_pton(int f, const char* s, void* d) { A(f == AF_INET6 && strcmp(s, "ff03::1") == 0, "the wrong address is read"); memcpy(d, G6, 16); return 1; }
const char* inet_ntop(int, const void*, char* b, socklen_t n) { if (n) *b = 0; return b; }
char* inet_ntoa(struct in_addr) { static char t[16] = "255.255.255.255"; return t; }
}
static int at(int port) { for (int i = 4; i <= nfd; i++) if (sk[i].open && sk[i].port == port) return i; return 0; }
#ifdef UDP6
static Config cfg = { "c", "ff03::1", "eth0", 1883, 12001 }; static const uint8_t* grp = G6;
#else
static Config cfg = { "c", { 225, 1, 2, 3 }, 1883, 12001 }; static uint8_t grp[4] = { 225, 1, 2, 3 };
#endif
/* what the memory of the network holds before is anything */
static LNetwork* make(int n) { uint8_t* m = (uint8_t*) malloc(sizeof(LNetwork)); memset(m, 0x5a, sizeof(LNetwork)); if (n) sym_bytes(m + sizeof(LNetwork) - n, n, "memory"); return new (m) LNetwork(); }
static void drop(LNetwork* n) { n->~LNetwork(); free(n); }
static LNetwork* up(int fill) { LNetwork* n = make(fill); A(n->initialize(&cfg), "the network is not opened"); theClientMode = sym_param("shown", 0) == 0; return n; }
static void anyone(Addr* a) { memset(a, 0, sizeof *a); if (sym_param("shown", 0)) PORT(a) = htons(10000); else PORT(a) = sym_u16("port");       /* what is shown is printed */
#ifdef UDP6
  a->sin6_family = AF_INET6; sym_bytes(a->sin6_addr.s6_addr, 16, "ip"); sym_assume((a->sin6_addr.s6_addr[0] | a->sin6_addr.s6_addr[15]) != 0);
#else
  a->sin_family = AF_INET; a->sin_addr.s_addr = sym_u32("ip"); sym_assume(a->sin_addr.s_addr != 0);
#endif
}
static int same(const Addr* a, const Addr* b) { return memcmp(IP(a), IP(b), AL) == 0
#ifndef UDP6
  && PORT(a) == PORT(b)
#endif
  ; }
static void clean(void) {
#ifdef UDP6
  A(sent_to.sin6_scope_id == 0 && sent_to.sin6_flowinfo == 0, "a datagram goes to a scope or flow nobody gave");
#endif
}
static void is_group(void) { A(memcmp(IP(&sent_to), grp, AL) == 0 && ntohs(PORT(&sent_to)) == cfg.gPortNo, "a broadcast does not go to the configured group"); clean(); }
static void opening(void) {
#ifdef UDP6
  static const int ports[] = { 0, 1, 1883, 65535 }; cfg.gPortNo = ports[sym_pick(0, 3, "group port")];     /* it is printed */
#else
  cfg.gPortNo = sym_u16("group port");
#endif
  cfg.uPortNo = sym_u16("port"); int none = 0;
#ifndef UDP6
  sym_bytes(grp, 4, "group"); memcpy(cfg.ipAddress, grp, 4); none = (grp[0] | grp[1] | grp[2] | grp[3]) == 0;
#endif
  sym_assume(cfg.gPortNo != cfg.uPortNo || cfg.gPortNo == 0); fail_at = sym_pick(0, 6, "failing call") - 1; LNetwork* n = make(0); int ok = n->initialize(&cfg);
  A(ok == (cfg.gPortNo && cfg.uPortNo && !none && !(fail_at >= 0 && calls > fail_at)), "opening the network succeeds exactly when every step does");
  if (ok) { int u = at(cfg.uPortNo), m = at(cfg.gPortNo); A(u && m && u != m, "the network is not open on its ports"); if (!u || !m) return; A(sk[m].joined && memcmp(sk[m].group, grp, AL) == 0, "the group is not joined"); uint8_t v = sym_u8("byte"); A(n->isBroadcastable(), "the network cannot broadcast"); n->broadcast(&v, 1); A(sends == 1 && sent_n == 1 && sent[0] == v, "a broadcast is not sent as it is"); is_group(); drop(n); for (int i = 4; i <= nfd; i++) A(!sk[i].open, "a socket is left open"); sym_reach("open"); } else sym_reach("failed");
  sym_reach("end"); }
static int lens[] = { 2, 3, 255, 400 };
static void gateway(LNetwork* n, Addr* gw) { In* in = &arr[at(cfg.gPortNo)]; anyone(gw); in->st = 1; in->n = 3; in->b[0] = 3; in->b[1] = 2; in->b[2] = 7; in->from = *gw; int l; uint8_t* p = n->getMessage(&l); A(p && l == 3 && p[0] == 3 && p[1] == 2 && p[2] == 7, "a message to the group is not received"); n->setGwAddress(); }
static void sending(void) {
  LNetwork* n = up(0); Addr gw; gateway(n, &gw); int l = lens[sym_pick(0, 3, "length")]; uint8_t* b = (uint8_t*) malloc(l); for (int i = 0; i < l; i++) b[i] = i; if (!sym_param("shown", 0)) sym_bytes(b, 2, "message"); send_ok = sym_pick(0, 1, "sent"); int bc = sym_pick(0, 1, "broadcast"); int r = bc ? n->broadcast(b, l) : n->unicast(b, l);
  A(sends == 1 && sent_n == l && memcmp(sent, b, l) == 0, "a message is not sent once as it is"); if (bc) is_group(); else { A(sent_fd == at(cfg.uPortNo), "a message is not sent from the port of the client"); A(memcmp(IP(&sent_to), IP(&gw), AL) == 0 && PORT(&sent_to) == PORT(&gw), "a message goes to another than the gateway"); clean(); if (send_ok) A(r > 0, "whether a message is sent is not told"); else A(r < 0, "whether a message is sent is not told"); }
  free(b); drop(n); sym_reach("end"); }
/* the length of the message at b, 0 if the n bytes do not hold it whole; -1: a short message in the long form, which may be taken or not */
static int msglen(const uint8_t* b, int n) { if (n < 1) return 0; if (b[0] != 1) return b[0] >= 2 && b[0] <= n ? b[0] : 0; if (n < 3) return 0; int l = b[1] << 8 | b[2]; if (l < 4 || l > n) return 0; return l; }
static void receiving(void) {
  int k = sym_param("k", 1), max = sym_param("n", 4); LNetwork* n = up(16); Addr gw; int known = sym_pick(0, 1, "gateway known"); if (known) gateway(n, &gw);
  int fd[2] = { at(cfg.uPortNo), at(cfg.gPortNo) };
  for (int e = 0; e < k; e++) { int want[2] = { 0, 0 }, got[2] = { 0, 0 }, any = 0;
    for (int i = 0; i < 2; i++) { In* in = &arr[fd[i]]; in->st = sym_pick(0, 3, "arrives"); if (in->st == 0 || in->st == 2) continue; any = 1; in->n = sym_pick(0, max, "length"); if (in->n == 0) in->st = 1; sym_bytes(in->b, in->n, "datagram"); anyone(&in->from); if (in->st == 3) continue; int l = msglen(in->b, in->n), p = in->b[0] == 1 ? 3 : 1;
      if (l && in->b[p] == 0xfe && msglen(in->b + l, in->n - l) == 0) l = 0; if (i == 0 && known && !same(&in->from, &gw)) l = 0; if (i == 0 && !known) sym_assume(FAM == AF_INET);       /* without a gateway only the group is listened to over IPv6 */ want[i] = l; }
    sym_assume(!(want[0] && want[1]) || arr[fd[0]].b[0] != arr[fd[1]].b[0]);
    for (int t = 0; t < 4; t++) { int l = -7; uint8_t* p = n->getMessage(&l); if (!p || l <= 0) { A(l == 0, "nothing received has a length"); continue; } int i = want[0] && !got[0] && sym_concretize(p[0] == arr[fd[0]].b[0]) ? 0 : 1; A(want[i] && !got[i], "a message is taken which is not one, or not the gateway's, or twice"); got[i] = 1; A(l == want[i], "a message has another length than it says"); A(memcmp(p, arr[fd[i]].b, arr[fd[i]].n) == 0, "a message is received changed"); sym_reach("received"); }
    for (int i = 0; i < 2; i++) { A(got[i] == (want[i] != 0), "a message is lost"); A(!arr[fd[i]].st, "what arrived stays in its socket"); } if (any && !want[0] && !want[1]) sym_reach("ignored"); }
  drop(n); sym_reach("end"); }
void sym_main(void) { int what = sym_param("what", 0); if (what == 0) opening(); else if (what == 1) sending(); else receiving(); }
