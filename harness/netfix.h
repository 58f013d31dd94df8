/* A stand-in for the sockets below the UDP networks of the gateway: what is opened, bound, joined, sent; what arrives is in arrived[] */
#include "sym.h"
#include "SensorNetwork.h"
#include "MQTTSNGWProcess.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <poll.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <net/if.h>
#define A(c, l) sym_assert((c), l)
using namespace MQTTSNGW;
char* currentDateTime(void) { static char t[2]; return t; }
namespace MQTTSNGW { extern Process* theProcess; }
struct Sock { int open, bound, mport, joined, ttl, loop, ttl_set; uint8_t any; uint8_t group[16]; };
static Sock sk[8]; static int nfd = 3, left, fail_at = -1, calls;
static int bad(void) { return calls++ == fail_at; }
static Sock* S(int fd) { A(fd > 3 && fd <= nfd && sk[fd].open == 1, "a socket is used which is not open"); return &sk[fd]; }
static const char* keys[6]; static char vals[6][24]; static int nkeys;
static void set(const char* k, const char* v) { keys[nkeys] = k; strcpy(vals[nkeys++], v); }
int Process::getParam(const char* k, char* v) { for (int i = 0; i < nkeys; i++) if (strcmp(keys[i], k) == 0) { strcpy(v, vals[i]); return 0; } return -1; }
/* what was sent */
static uint8_t sent[16], sent_to[28]; static int sent_n, sends, sent_fd, send_ok = 1;
/* what arrives: one datagram per socket at most; 2: an error */
struct In { int st, n; uint8_t b[16], from[28]; }; static In arr[8]; static int waits;
extern "C" {
int socket(int f, int t, int) { A(f == FAM && t == SOCK_DGRAM, "the wrong kind of socket is opened"); if (bad()) return -1; nfd++; memset(&sk[nfd], 0, sizeof(Sock)); sk[nfd].open = 1; left++; sk[nfd].ttl = 1; sk[nfd].loop = 1; return nfd; }
int close(int fd) { S(fd)->open = 0; left--; return 0; }
int poll(struct pollfd* p, nfds_t n, int) { waits++; A(n == 2, "not both sockets are looked at"); int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd <= 0) continue; S(p[i].fd); A((p[i].events & POLLIN) != 0, "a socket is not looked at for datagrams"); if (arr[p[i].fd].st) { p[i].revents = POLLIN; k++; } } return k; }
ssize_t recvfrom(int fd, void* b, size_t n, int, struct sockaddr* a, socklen_t* l) { S(fd); In* in = &arr[fd]; A(in->st != 0, "a datagram is waited for on a socket without one"); if (in->st == 2) { in->st = 0; errno = EIO; return -1; } in->st = 0; size_t m = (size_t)in->n < n ? in->n : n; memcpy(b, in->b, m); A(*l >= ALEN, "no room for the address of the sender"); memcpy(a, in->from, ALEN); *l = ALEN; return m; }
ssize_t sendto(int fd, const void* b, size_t n, int, const struct sockaddr* a, socklen_t l) { S(fd); A(l == ALEN && n <= 16, "the destination is wrong"); sends++; sent_fd = fd; sent_n = n; memcpy(sent, b, n); memcpy(sent_to, a, ALEN); if (!send_ok) { errno = ENETUNREACH; return -1; } return n; }
unsigned int if_nametoindex(const char*) { return 3; }
}
