/* C45: the DTLS networks of the gateway over stand-in sockets and TLS library. what = 0 opening; 1 devices connect, send, are sent to and leave; 2 the cookie; 3 addresses; With DTLS6 over IPv6. */
#include "sym.h"
#include "SensorNetwork.h"
#include "MQTTSNGWProcess.h"
#include "MQTTSNGateway.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <poll.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <net/if.h>
#include <openssl/ssl.h>
#include <openssl/hmac.h>
#define A(c, l) sym_assert((c), l)
using namespace MQTTSNGW;
char* currentDateTime(void) { static char t[2]; return t; }
namespace MQTTSNGW { extern Process* theProcess; }
#ifdef DTLS6
#define FAM AF_INET6
#define AL 16
typedef sockaddr_in6 Addr;
#define PORT(a) ((a)->sin6_port)
#define IP(a) ((uint8_t*) &(a)->sin6_addr)
#define KEYS "MulticastIPv6", "MulticastIPv6PortNo", "GatewayIPv6PortNo", "MulticastHops"
static const char* group = "ff03::1"; static const uint8_t GRP[16] = { 0xff, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1 };
#else
#define FAM AF_INET
#define AL 4
typedef sockaddr_in Addr;
#define PORT(a) ((a)->sin_port)
#define IP(a) ((uint8_t*) &(a)->sin_addr)
#define KEYS "MulticastIP", "MulticastPortNo", "GatewayPortNo", "MulticastTTL"
static const char* group = "225.1.2.3"; static const uint8_t GRP[4] = { 225, 1, 2, 3 };
#endif
/* the configuration */
static const char* keys[] = { KEYS }; static char vals[4][24] = { "", "1883", "10000", "" };
int Process::getParam(const char* k, char* v) { for (int i = 0; i < 4; i++) if (strcmp(keys[i], k) == 0 && vals[i][0]) { strcpy(v, vals[i]); return 0; } return -1; }
static GatewayParams params; GatewayParams* Gateway::getGWParams(void) { return &params; }
extern Gateway* theGateway; Gateway* theGateway;
/* sockets: device d is connected over the socket which connect() was called on with its address */
enum { ND = 4 };
struct Sock { int reuse, open, bound, port, joined, dev, ttl; uint8_t group[16]; };
struct Ssl { int alive, dev, fd, accepted; }; 
struct Dev { Addr a; int n, left, hello, want; uint8_t b[4]; int conn; };
static Sock sk[32]; static Ssl ssl[16]; static Dev dev[ND]; static int nfd = 3, nssl, left, fail_at = -1, calls, opened;
static int bad(void) { return calls++ == fail_at; }
static Sock* S(int fd) { A(fd > 3 && fd <= nfd && sk[fd].open, "a socket is used which is not open"); return &sk[fd]; }
static Ssl* L(SSL* p) { Ssl* s = (Ssl*) p; A(s >= ssl && s < ssl + 16 && s->alive, "a connection is used which does not exist"); return s; }
static int at(int port) { for (int i = 4; i <= nfd; i++) if (sk[i].open && sk[i].bound && sk[i].port == port && sk[i].dev < 0) return i; return 0; }
/* the handshake under way */
static int hs_dev = -1, hs_listen, hs_accept, mc_n, mc_on, idle, sends, sent_n, sent_fd; static uint8_t mc[4], sent[8]; static Addr sent_to; static int wrote_dev, wrotes, wrote_n; static uint8_t wrote[8]; static int last_err;
extern "C" {
int socket(int f, int t, int p) { if (f != FAM) return syscall(SYS_socket, f, t, p); A(t == SOCK_DGRAM, "the wrong kind of socket is opened"); if (bad()) return -1; nfd++; memset(&sk[nfd], 0, sizeof(Sock)); sk[nfd].open = 1; sk[nfd].dev = -1; sk[nfd].ttl = 1; left++; return nfd; }
int bind(int fd, const struct sockaddr* a, socklen_t l) { if (fd < 0) { errno = EBADF; return -1; } Sock* k = S(fd); A(l >= sizeof(Addr) && a->sa_family == FAM, "a socket is bound to the wrong address"); if (bad()) return -1; int port = ntohs(PORT((const Addr*) a)); for (int i = 4; i <= nfd; i++) if (sk[i].open && sk[i].bound && sk[i].port == port && !(sk[i].reuse & k->reuse)) { A(0, "a connection cannot be on the port of the gateway"); errno = EADDRINUSE; return -1; } k->bound = 1; k->port = port; if (opened) A(k->port == 10000, "a connection is not bound to the port of the gateway"); return 0; }
int connect(int fd, const struct sockaddr* a, socklen_t l) { if (fd < 0) { errno = EBADF; return -1; } Sock* k = S(fd); A(l >= sizeof(Addr), "no address"); if (bad()) return -1; for (int i = 0; i < ND; i++) if (memcmp(IP((const Addr*) a), IP(&dev[i].a), AL) == 0 && PORT((const Addr*) a) == PORT(&dev[i].a)) k->dev = i; A(k->dev >= 0 && k->dev == hs_dev, "a connection is made to another than who asked for it"); return 0; }
int setsockopt(int fd, int lv, int o, const void* v, socklen_t) { if (fd < 0) { errno = EBADF; return -1; } Sock* k = S(fd); if (lv == SOL_SOCKET) { if (o == SO_REUSEADDR || o == SO_REUSEPORT) k->reuse |= o == SO_REUSEADDR ? 1 : 2; return 0; }
#ifdef DTLS6
  if (lv != IPPROTO_IPV6) return 0; if (o == IPV6_V6ONLY) return 0; if (bad()) return -1; if (o == IPV6_JOIN_GROUP) { memcpy(k->group, &((const ipv6_mreq*) v)->ipv6mr_multiaddr, 16); k->joined = 1; } else if (o == IPV6_MULTICAST_HOPS) k->ttl = *(const int*) v;
#else
  if (lv != IPPROTO_IP) return 0; if (bad()) return -1; if (o == IP_ADD_MEMBERSHIP) { memcpy(k->group, &((const ip_mreq*) v)->imr_multiaddr, 4); k->joined = 1; } else if (o == IP_MULTICAST_TTL) k->ttl = *(const int*) v;
#endif
  return 0; }
int close(int fd) { if (fd <= 2) return syscall(SYS_close, fd); S(fd)->open = 0; left--; return 0; }
static int ready(int fd) { Sock* k = S(fd); if (k->dev >= 0) { Dev* d = &dev[k->dev]; return (d->n || d->hello || d->want || d->left == 1 ? POLLIN : 0) | (d->left == 2 ? POLLERR : 0); } if (k->port == 10000) return hs_dev >= 0 ? POLLIN : 0; return mc_on ? POLLIN : 0; }
int poll(struct pollfd* p, nfds_t n, int) { int k = 0; if (idle == 2) { errno = EINTR; return -1; } for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd <= 0) continue; A((p[i].events & POLLIN) != 0, "a socket is not looked at for datagrams"); p[i].revents = idle == 3 ? (i == 0 ? POLLERR : 0) : ready(p[i].fd); if (p[i].revents) k++; }
  for (int fd = 4; fd <= nfd; fd++) if (sk[fd].open) { int on = 0; for (nfds_t i = 0; i < n; i++) if (p[i].fd == fd) on = 1; A(on, "a socket is not looked at"); } return k; }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { Sock* k = S(fd); uint8_t h[16]; memset(h, 0, 16); const Addr* from; size_t m = 15;
  if (k->dev >= 0) { Dev* d = &dev[k->dev]; A((fl & MSG_PEEK) != 0, "a packet is taken before it is decrypted"); A(d->n || d->hello || d->want || d->left, "a socket is read without a datagram"); if (d->left == 2 && !d->n) { d->left = 3; errno = ECONNREFUSED; return -1; } h[0] = d->hello ? 22 : d->n ? 23 : 21; if (d->want == 2) m = 5; from = &d->a; }
  else if (k->port == 10000) { A((fl & MSG_PEEK) != 0 && hs_dev >= 0, "a request to connect is taken away"); h[0] = 22; from = &dev[hs_dev].a; }
  else { A(mc_on, "a socket is read without a datagram"); int e = mc_on == 2; mc_on = 0; if (e) { errno = EIO; return -1; } m = mc_n; memcpy(h, mc, 4); from = &dev[0].a; }
  if (m > n) m = n; memcpy(b, h, m); if (a) { A(*l >= sizeof(Addr), "no room for the address of the sender"); memcpy(a, from, sizeof(Addr)); *l = sizeof(Addr); } return m; }
ssize_t sendto(int fd, const void* b, size_t n, int, const struct sockaddr* a, socklen_t l) { S(fd); A(l >= sizeof(Addr) && n <= 8, "the destination is wrong"); sends++; sent_fd = fd; sent_n = n; memcpy(sent, b, n); memcpy(&sent_to, a, sizeof(Addr)); return n; }
unsigned int if_nametoindex(const char*) { return 3; }
in_addr_t inet_addr(const char*) { in_addr_t v; memcpy(&v, GRP, 4); return v; }
char* inet_ntoa(struct in_addr) { static char t[16] = "1.2.3.4"; return t; }
const char* inet_ntop(int, const void*, char* b, socklen_t n) { if (n) *b = 0; return b; }
static const char* text4; static const char* text6; static uint8_t text_is[16];
int inet_pton(int f, const char* s, void* d) { const char* t = f == AF_INET6 ? text6 : text4; if (t && strcmp(s, t) == 0) { memcpy(d, text_is, f == AF_INET6 ? 16 : 4); return 1; } if (f == FAM && strcmp(s, group) == 0) { memcpy(d, GRP, AL); return 1; } return 0; }
/* the TLS library */
static char obj[4][8];
int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
const SSL_METHOD* DTLS_server_method(void) { return (const SSL_METHOD*) obj[0]; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD*) { return bad() ? 0 : (SSL_CTX*) obj[1]; } void SSL_CTX_free(SSL_CTX*) {}
long SSL_CTX_ctrl(SSL_CTX*, int, long, void*) { return 1; }
int SSL_CTX_use_certificate_file(SSL_CTX*, const char* f, int) { A(strcmp(f, "cert") == 0, "the wrong certificate is used"); return bad() ? 0 : 1; }
int SSL_CTX_use_PrivateKey_file(SSL_CTX*, const char* f, int) { A(strcmp(f, "key") == 0, "the wrong key is used"); return bad() ? 0 : 1; }
void SSL_CTX_set_verify(SSL_CTX*, int, SSL_verify_cb) {}
static int (*gen)(SSL*, unsigned char*, unsigned int*); static int (*ver)(SSL*, const unsigned char*, unsigned int);
void SSL_CTX_set_cookie_generate_cb(SSL_CTX*, int (*f)(SSL*, unsigned char*, unsigned int*)) { gen = f; }
void SSL_CTX_set_cookie_verify_cb(SSL_CTX*, int (*f)(SSL*, const unsigned char*, unsigned int)) { ver = f; }
SSL* SSL_new(SSL_CTX*) { Ssl* s = &ssl[nssl < 15 ? nssl++ : 15]; memset(s, 0, sizeof *s); s->alive = 1; s->fd = -1; s->dev = -1; return (SSL*) s; }
BIO* BIO_new_dgram(int fd, int) { A(fd == at(10000), "a connection is not listened for on the port of the gateway"); return (BIO*) obj[2]; }
void SSL_set_bio(SSL* s, BIO*, BIO*) { L(s); }
uint64_t SSL_set_options(SSL* s, uint64_t o) { L(s); A((o & SSL_OP_COOKIE_EXCHANGE) != 0, "no cookie is asked for"); return o; }
int DTLSv1_listen(SSL* s, BIO_ADDR* a) { L(s); A(hs_dev >= 0, "nobody asks for a connection"); if (hs_listen <= 0) { hs_dev = -1; return hs_listen; } L(s)->dev = hs_dev; memcpy(a, &dev[hs_dev].a, sizeof(Addr)); return 1; }
static Ssl* cur; static Addr peer;
BIO* SSL_get_rbio(const SSL* s) { if (s) cur = L((SSL*) s); return (BIO*) obj[2]; }
long BIO_int_ctrl(BIO*, int c, long, int v) { if (c == BIO_C_SET_FD) cur->fd = v; return 1; }
long BIO_ctrl(BIO*, int c, long, void* p) {
  if (c == BIO_C_SET_FD && cur) cur->fd = *(int*) p;
  if (c == BIO_CTRL_DGRAM_GET_PEER) { memcpy(p, &peer, sizeof peer); return sizeof peer; } return 1; }
int SSL_accept(SSL* p) { Ssl* s = L(p); A(s->fd > 0 && sk[s->fd].open && sk[s->fd].dev == s->dev && s->dev == hs_dev, "a handshake goes on over another socket"); hs_dev = -1; if (!hs_accept) return -1; s->accepted = 1; return 1; }
int SSL_shutdown(SSL* s) { L(s); return 1; }
void SSL_free(SSL* s) { if (s) L(s)->alive = 0; }
int SSL_write(SSL* p, const void* b, int n) { Ssl* s = L(p); A(s->accepted && s->fd > 0 && sk[s->fd].open, "a packet is sent over a connection which is none"); wrotes++; wrote_dev = s->dev; wrote_n = n; memcpy(wrote, b, n < 8 ? n : 8); if (dev[s->dev].left) { last_err = SSL_ERROR_SYSCALL; return -1; } return n; }
int SSL_read_ex(SSL* p, void* b, size_t n, size_t* got) { Ssl* s = L(p); A(s->accepted && s->dev >= 0, "a connection is read which is none"); Dev* d = &dev[s->dev]; A(d->n || d->want || d->left, "a connection is read without a datagram"); if (d->n) { A((int) n >= d->n, "no room for the packet"); memcpy(b, d->b, d->n); *got = d->n; d->n = 0; last_err = 0; return 1; } if (d->want) { d->want = 0; last_err = SSL_ERROR_WANT_READ; return 0; } last_err = d->left == 1 ? SSL_ERROR_ZERO_RETURN : SSL_ERROR_SYSCALL; return 0; }
int SSL_read(SSL* p, void* b, int n) { size_t g = 0; return SSL_read_ex(p, b, n, &g) ? (int) g : -1; } int SSL_write_ex(SSL* p, const void* b, size_t n, size_t* w) { int r = SSL_write(p, b, n); if (r > 0) *w = r; return r > 0; }
int SSL_pending(const SSL*) { return 0; } void ERR_clear_error(void) {} unsigned long ERR_peek_error(void) { return 0; } char* ERR_error_string(unsigned long, char* b) { static char t[1]; return b ? (*b = 0, b) : t; } int SSL_CTX_check_private_key(const SSL_CTX*) { return 1; } int BIO_free(BIO*) { return 1; }
int SSL_get_error(const SSL* p, int r) { L((SSL*) p); return r > 0 ? SSL_ERROR_NONE : last_err; }
unsigned long ERR_get_error(void) { return 0; } void ERR_error_string_n(unsigned long, char* b, size_t n) { if (n) *b = 0; }
/* a digest as good as one can be: different data, different digest */
int RAND_bytes(unsigned char* b, int n) { memset(b, 7, n); return 1; }
const EVP_MD* EVP_sha1(void) { return (const EVP_MD*) obj[3]; }
unsigned char* HMAC(const EVP_MD*, const void*, int, const unsigned char* d, size_t n, unsigned char* o, unsigned int* l) { A(n <= 20, "the digest is of too much"); memset(o, 0, 20); memcpy(o, d, n); *l = 20; return o; }
static int lent; void* CRYPTO_malloc(size_t n, const char*, int) { static int k; void* p = malloc(n); memset(p, ++k, n); lent++; return p; } void CRYPTO_free(void* p, const char*, int) { free(p); lent--; } void OPENSSL_die(const char*, const char*, int) { A(0, "the gateway is ended"); sym_exit(); }
}
static char cert[] = "cert", key[] = "key";
static SensorNetwork* make(int max) { strcpy(vals[0], group); params.maxClients = max; params.gwCertskey = cert; params.gwPrivatekey = key; for (int i = 0; i < ND; i++) { Addr* a = &dev[i].a; memset(a, 0, sizeof *a); ((sockaddr*) a)->sa_family = FAM; IP(a)[0] = 10; IP(a)[AL - 1] = i == 1 ? 1 : 1 + i; PORT(a) = htons(i == 1 ? 5000 : 5001); }
  void* m = malloc(sizeof(SensorNetwork)); memset(m, 0x5a, sizeof(SensorNetwork)); return new (m) SensorNetwork(); }
static void opening(void) {
  SensorNetwork* n = make(2); int nokey = sym_pick(0, 3, "files"), hops = sym_pick(0, 1, "hops"); if (nokey & 1) params.gwCertskey = 0; if (nokey & 2) params.gwPrivatekey = 0; if (hops) strcpy(vals[3], "7"); int p = sym_pick(0, 2, "ports"); if (p) vals[p][0] = 0; fail_at = sym_pick(0, 14, "failing call") - 1; int ok = 1; try { n->initialize(); } catch (Exception&) { ok = 0; }
  A(ok == (!nokey && !p && !(fail_at >= 0 && calls > fail_at)), "opening the network succeeds exactly when every step does"); if (!ok) { sym_reach("failed"); sym_reach("end"); return; }
  int g = at(10000), m = at(1883); A(g && m && g != m, "the network is not open on its ports"); if (!g || !m) return; A(sk[m].joined && memcmp(sk[m].group, GRP, AL) == 0, "the group is not joined"); uint8_t v = sym_u8("payload"); n->broadcast(&v, 1); A(sends == 1 && sent_n == 1 && sent[0] == v && memcmp(IP(&sent_to), GRP, AL) == 0 && ntohs(PORT(&sent_to)) == 1883, "a broadcast does not go to the group"); A(sk[sent_fd].ttl == (hops ? 7 : 1), "broadcasts do not go as far as configured"); A(gen && ver, "no cookie is asked for"); 
  n->~SensorNetwork(); free(n); A(left == 0, "a socket is left open"); sym_reach("open"); sym_reach("end"); }
static void is(SensorNetAddress* x, int d) {
#ifdef DTLS6
  x->setSockaddr6(&dev[d].a);
#else
  x->setSockaddr4(&dev[d].a);
#endif
}
static int sender(SensorNetwork* n) { for (int i = 0; i < ND; i++) { SensorNetAddress x; is(&x, i); if (n->getSenderAddress()->isMatch(&x)) return i; } return -1; }
static SensorNetAddress* known[ND];                /* the address the gateway keeps of a device: as it was when it came first */
static int total(void) { int k = 0; for (int i = 0; i < ND; i++) k += dev[i].conn; return k; }
static void settled(void) { int k = 0, f = 0; for (int i = 0; i < nssl; i++) k += ssl[i].alive; for (int i = 4; i <= nfd; i++) f += sk[i].open; A(k == total(), "a connection is kept that is none, or one is dropped"); A(f == total() + 2, "a socket is kept that is not needed, or one is closed"); for (int i = 0; i < ND; i++) { int on = 0; for (int j = 0; j < nssl; j++) on += ssl[j].alive && ssl[j].dev == i; A(on == dev[i].conn, "a device is disconnected which did not leave, or stays connected"); } }
static void life(void) {
  int K = sym_param("k", 3), max = sym_param("max", 2); SensorNetwork* n = make(max); n->initialize(); opened = 1; for (int i = 0; i < ND; i++) { known[i] = new SensorNetAddress; is(known[i], i); }
  for (int pre = sym_param("pre", 0), d = 0; d < pre; d++) { hs_dev = d; hs_listen = hs_accept = 1; uint8_t b[8]; n->read(b, 8); dev[d].conn = 1; *known[d] = *n->getSenderAddress(); }
  settled();
  for (int s = 0; s < K; s++) { uint8_t b[8]; int what = sym_pick(0, 6, "step"), d = what < 4 && what != 1 ? sym_pick(0, max, "device") : 0;
    switch (what) {
      case 0: { sym_assume(!dev[d].conn); if (dev[d].conn) sym_exit(); hs_dev = d; int how = sym_pick(0, 6, "handshake"); hs_listen = how == 1 ? 0 : how == 2 ? -1 : 1; hs_accept = how != 3; if (how > 3) fail_at = calls + how - 4; int full = total() >= max; dev[d].left = 0; int r = n->read(b, 8); fail_at = -1; A(r <= 0, "something is received which nobody sent"); hs_dev = -1;
        if (how == 0 && !full) { dev[d].conn = 1; A(sender(n) == d, "a connection is taken as from another"); *known[d] = *n->getSenderAddress(); sym_reach("connected"); } else sym_reach(how ? "not connected" : "full"); break; }
      case 1: { int m = sym_pick(1, (2 << max) - 1, "senders"), want = 0; uint8_t keep[ND][4]; for (int i = 0; i <= max; i++) if (m >> i & 1) { sym_assume(dev[i].conn); if (!dev[i].conn) sym_exit(); dev[i].n = 1 + i; sym_bytes(dev[i].b, dev[i].n, "packet"); memcpy(keep[i], dev[i].b, 4); want |= 1 << i; } if (want & (want - 1)) sym_reach("several");
        for (int t = 0; t < 4; t++) { int r = n->read(b, 8); if (r <= 0) continue; int f = sender(n); A(f >= 0 && (want >> f & 1), "the sender of a packet is wrong"); if (f < 0) continue; A(r == f + 1 && memcmp(b, keep[f], r) == 0, "a packet is changed"); want &= ~(1 << f); *known[f] = *n->getSenderAddress(); } A(want == 0, "a packet is lost"); break; }
      case 2: { sym_assume(dev[d].conn); if (!dev[d].conn) sym_exit(); int how = sym_pick(0, 4, "event"); if (how == 0) dev[d].hello = 1; else if (how <= 2) dev[d].left = how; else dev[d].want = how - 2; int r = n->read(b, 8); A(r <= 0, "something is received which nobody sent"); dev[d].hello = 0; if (how <= 2) { dev[d].conn = 0; sym_reach("gone"); } else { A(dev[d].want == 0, "a datagram stays in its socket"); sym_reach("nothing"); } break; }
      case 3: { uint8_t p[3]; sym_bytes(p, 3, "packet"); if (dev[d].conn) dev[d].left = sym_pick(0, 1, "already gone"); wrotes = 0; int r = n->unicast(p, 3, known[d]); if (!dev[d].conn) { A(wrotes == 0 && r < 0, "a packet is sent to a device it is not for"); sym_reach("not sent"); } else { A(wrotes == 1 && wrote_dev == d && wrote_n == 3 && memcmp(wrote, p, 3) == 0, "a packet is not sent as it is to its device"); A(dev[d].left ? r < 0 : r == 3, "the result is wrong"); if (dev[d].left) { r = n->read(b, 8); A(r <= 0, "something is received which nobody sent"); dev[d].conn = 0; } sym_reach("sent"); } break; }
      case 4: { mc_on = sym_pick(1, 2, "to the group"); mc_n = 3; sym_bytes(mc, 3, "datagram"); int e = mc_on == 2, r = n->read(b, 8); if (e) A(r < 0, "an error is taken for a packet"); else { A(r == 3 && memcmp(b, mc, 3) == 0, "a packet to the group is changed"); A(sender(n) < 0, "a packet to the group is taken as from a device"); sym_reach("to the group"); } break; }
      case 5: { uint8_t p[2]; sym_bytes(p, 2, "packet"); sends = wrotes = 0; int r = n->broadcast(p, 2); A(r == 2 && sends == 1 && wrotes == 0 && sent_n == 2 && memcmp(sent, p, 2) == 0 && memcmp(IP(&sent_to), GRP, AL) == 0 && ntohs(PORT(&sent_to)) == 1883, "a broadcast does not go to the group");
#ifdef DTLS6
        A(sent_to.sin6_scope_id == 0 && sent_to.sin6_flowinfo == 0, "a broadcast goes to a scope nobody gave");
#endif
        break; }
      case 6: { idle = sym_pick(1, 3, "nothing comes"); int r = n->read(b, 8); uint8_t p[2] = { 2, 0x16 }; n->broadcast(p, 2); A(r <= 0, "something is received which nobody sent"); idle = 0; break; } }
    settled(); }
  sym_reach("end"); }
/* a cookie is good for the address it was made for and no other */
static void cookie(void) {
  SensorNetwork* n = make(2); n->initialize(); Addr x; memset(&x, 0, sizeof x); ((sockaddr*) &x)->sa_family = FAM; sym_bytes(IP(&x), AL, "ip"); PORT(&x) = sym_u16("port"); Addr y = x; sym_bytes(IP(&y), AL, "other ip"); PORT(&y) = sym_u16("other port"); SSL* s = SSL_new(0);
  unsigned char c[256]; unsigned int l = 0; peer = x; A(ver(s, c, 20) == 0, "a cookie is taken though none was given"); A(gen(s, c, &l) == 1 && l == 20, "no cookie is made"); peer = y; int same = (memcmp(IP(&x), IP(&y), AL) == 0) & (PORT(&x) == PORT(&y)); A((ver(s, c, l) == 1) == (same != 0), "a cookie is good for the address it was made for and no other"); peer = x; A(ver(s, c, l - 1) == 0, "a part of a cookie is good"); A(lent == 0, "memory is lost with each cookie"); sym_reach("end"); }
static int num(char* b, int max) { int n = sym_pick(1, max, "digits"), v = 0; for (int i = 0; i < n; i++) { b[i] = '0' + sym_range(0, 9, "digit"); v = v * 10 + b[i] - '0'; } b[n] = 0; return v; }
static void address(void) {
  if (sym_pick(0, 1, "what") == 0) { Addr x, y; memset(&x, 0, sizeof x); memset(&y, 0, sizeof y); ((sockaddr*) &x)->sa_family = ((sockaddr*) &y)->sa_family = FAM; sym_bytes(IP(&x), AL, "ip"); sym_bytes(IP(&y), AL, "other ip"); PORT(&x) = sym_u16("port"); PORT(&y) = sym_u16("other port"); SensorNetAddress a, b, c; dev[0].a = x; is(&a, 0); dev[0].a = y; is(&b, 0); int same = (memcmp(IP(&x), IP(&y), AL) == 0) & (PORT(&x) == PORT(&y)); A(a.isMatch(&b) == (same != 0), "two addresses match exactly when they are the same"); c = a; A(c.isMatch(&a), "a copied address is another"); sym_reach("match"); return; }
  int six = FAM == AF_INET6, fault = sym_pick(0, 3, "fault"), l = sym_pick(2, 4, "address length"); static char ip[8]; sym_bytes(ip, l, "address"); for (int i = 0; i < l; i++) sym_assume(((ip[i] >= '0') & (ip[i] <= '9')) | (ip[i] == (six ? ':' : '.'))); ip[l] = 0; sym_bytes(text_is, 16, "its value"); if (fault != 3) { if (six) text6 = ip; else text4 = ip; } char d[8]; int port = num(d, 5);
  std::string s = six ? "[" : ""; s += ip; if (six) s += "]"; if (fault != 1) { s += ":"; if (fault == 2) s += "x"; s += d; }
  SensorNetAddress a; int r = a.setAddress(&s), ok = fault == 0 && port >= 1 && port <= 65535; if (fault == 1) { A(r != 0 || six, "a text is taken for an address exactly when it is one"); sym_reach("no address"); sym_reach("end"); return; } A((r == 0) == ok, "a text is taken for an address exactly when it is one"); if (ok && r == 0) { Addr x; memset(&x, 0, sizeof x); ((sockaddr*) &x)->sa_family = FAM; memcpy(IP(&x), text_is, AL); PORT(&x) = htons(port); dev[0].a = x; SensorNetAddress b; is(&b, 0); A(a.isMatch(&b), "an address is not that of its text"); sym_reach("address"); } else sym_reach("no address"); sym_reach("end"); }
#ifndef TASKS
extern "C" void sym_main(void) { int what = sym_param("what", 0); if (what == 0) opening(); else if (what == 1) life(); else if (what == 2) cookie(); else address(); }
#endif
