// The connection to the broker. what=0 who a TLS connection is made with, 1 histories of connections, 2 a packet is sent whole (tls=0/1)
#include "sym.h"
#include "Network.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#define A(c, l) sym_assert((c), l)
static int what; static const char *host = "b", *port = "8883";
char* currentDateTime(void) { static char t[2]; return t; }
/* the objects of the TLS library, which must not be used once they are freed */
struct Obj { int kind, live; Obj* ctx; int fd, up; };
static int fd_up[16], fdn = 3, nfd, plain; static int nobj[8];
static Obj* mk(int k) { Obj* o = (Obj*)malloc(sizeof(Obj)); o->kind = k; o->live = 1; o->ctx = 0; o->fd = o->up = 0; nobj[k]++; return o; }
static Obj* use(const void* p, int k) { Obj* o = (Obj*)p; A(o->kind == k && o->live == 1, "an object of the TLS library is used as another"); return o; }
static void rel(const void* p, int k) { Obj* o = use(p, k); o->live = 0; nobj[k]--; free(o); }
enum { CTX = 1, CON, SES, CERT };
static int f_ctx, f_ca, f_cert, f_key, f_dns, f_tcp, f_new, f_fd, f_shake, f_verify, f_peer;      /* 1: succeeds */
static int ca_loaded, cert_loaded, key_loaded, shook; static uint8_t cn[8]; static int cnl;   /* the name in the certificate, -1: none */
static uint8_t out[64]; static int outn, steps, rd_mode; static int lasterr, failed;
static struct addrinfo ai;
extern "C" {
int getaddrinfo(const char* h, const char* p, const struct addrinfo*, struct addrinfo** r) { A(strcmp(h, host) == 0 && strcmp(p, port) == 0, "the wrong host is connected"); *r = &ai; return f_dns ? 0 : -2; }
void freeaddrinfo(struct addrinfo*) {}
const char* gai_strerror(int) { return ""; }
int socket(int, int, int) { nfd++; return ++fdn; }
int setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int connect(int fd, const struct sockaddr*, socklen_t) { if (!f_tcp) return -1; fd_up[fd] = 1; return 0; }
int close(int fd) { A(fd > 3 && fd <= fdn, "something which is not open is closed"); fd_up[fd] = 0; nfd--; return 0; }
ssize_t send(int fd, const void* b, size_t n, int) { plain++; A(fd_up[fd] == 1, "something is sent where no connection is"); A(n > 0 && n <= 8, "too much is sent"); int k = steps > 0 ? (steps--, sym_pick(0, 3, "write")) : 0;
  if (k == 1) { errno = EINTR; return -1; } if (k == 2) { failed = 1; errno = EPIPE; return -1; } if (k == 3 && n > 1) n = sym_pick(1, n - 1, "part"); memcpy(out + outn, b, n); outn += n; return n; }
int select(int, fd_set*, fd_set*, fd_set*, struct timeval*) { return 1; }
void ERR_error_string_n(unsigned long, char* b, size_t n) { if (n) *b = 0; }
unsigned long ERR_get_error(void) { return 0; }
const SSL_METHOD* TLS_client_method(void) { static char m[8]; return (const SSL_METHOD*)m; }
int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD*) { if (!f_ctx) return 0; ca_loaded = cert_loaded = key_loaded = 0; return (SSL_CTX*)mk(CTX); }
void SSL_CTX_free(SSL_CTX* c) { rel(c, CTX); }
int SSL_CTX_load_verify_locations(SSL_CTX* c, const char* f, const char* p) { use(c, CTX); A(strcmp(f, "ca") == 0 && strcmp(p, "dir") == 0, "the wrong certificates are trusted"); ca_loaded = f_ca; return f_ca; }
int SSL_CTX_use_certificate_file(SSL_CTX* c, const char* f, int t) { use(c, CTX); A(strcmp(f, "cert") == 0 && t == SSL_FILETYPE_PEM, "the wrong certificate is presented"); cert_loaded = f_cert; return f_cert; }
int SSL_CTX_use_PrivateKey_file(SSL_CTX* c, const char* f, int t) { use(c, CTX); A(strcmp(f, "key") == 0 && t == SSL_FILETYPE_PEM, "the wrong key is used"); key_loaded = f_key; return f_key; }
SSL* SSL_new(SSL_CTX* c) { if (!c || !f_new) return 0; Obj* o = mk(CON); o->ctx = use(c, CTX); return (SSL*)o; }
int SSL_set_fd(SSL* s, int fd) { use(s, CON)->fd = fd; return f_fd; }
int SSL_set_session(SSL* s, SSL_SESSION* e) { use(s, CON); use(e, SES); return 1; }
int SSL_connect(SSL* s) { Obj* o = use(s, CON); A(fd_up[o->fd] == 1, "a handshake is made where no connection is"); if (!f_shake) return -1; o->up = 1; shook = 1; return 1; }
long SSL_get_verify_result(const SSL* s) { use(s, CON); return f_verify ? X509_V_OK : X509_V_ERR_CERT_HAS_EXPIRED; }
const char* X509_verify_cert_error_string(long) { return ""; }
X509* SSL_get1_peer_certificate(const SSL* s) { use(s, CON); return f_peer ? (X509*)mk(CERT) : 0; }
X509_NAME* X509_get_subject_name(const X509* x) { use(x, CERT); return (X509_NAME*)x; }
int X509_NAME_get_text_by_NID(const X509_NAME* x, int nid, char* b, int n) { use(x, CERT); A(nid == NID_commonName, "the wrong name is looked at"); if (cnl < 0) return -1; int m = cnl < n - 1 ? cnl : n - 1; memcpy(b, cn, m); b[m] = 0; return m; }
void X509_free(X509* x) { rel(x, CERT); }
SSL_SESSION* SSL_get1_session(SSL* s) { use(s, CON); return (SSL_SESSION*)mk(SES); }
void SSL_SESSION_free(SSL_SESSION* s) { rel(s, SES); }
void SSL_free(SSL* s) { rel(s, CON); }
int SSL_shutdown(SSL* s) { use(s, CON); return 1; }
int SSL_pending(const SSL* s) { use(s, CON); return 0; }
int SSL_get_error(const SSL* s, int) { use(s, CON); return lasterr; }
int SSL_write(SSL* s, const void* b, int n) { Obj* o = use(s, CON); A(o->up == 1 && fd_up[o->fd] == 1, "something is sent without a connection"); A(n > 0, "nothing is sent"); int k = steps > 0 ? (steps--, sym_pick(0, 4, "write")) : 0;
  if (k == 1) { lasterr = SSL_ERROR_WANT_WRITE; return -1; } if (k == 2) { lasterr = SSL_ERROR_WANT_READ; return -1; } if (k == 3) { failed = 1; lasterr = SSL_ERROR_SSL; return -1; } if (k == 4 && n > 1) n = sym_pick(1, n - 1, "part"); A(outn + n <= 64, "too much is sent"); memcpy(out + outn, b, n); outn += n; lasterr = SSL_ERROR_NONE; return n; }
int SSL_read(SSL* s, void* b, int n) { use(s, CON); A(n > 0, "nothing is to be received"); switch (rd_mode) { case 0: *(uint8_t*)b = 0x42; lasterr = SSL_ERROR_NONE; return 1; case 1: lasterr = SSL_ERROR_ZERO_RETURN; return 0; case 2: lasterr = SSL_ERROR_SYSCALL; return -1; default: lasterr = SSL_ERROR_SSL; return -1; } }
}
static void fine(void) { f_ctx = f_ca = f_cert = f_key = f_dns = f_tcp = f_new = f_fd = f_shake = f_verify = f_peer = 1; cn[0] = 'b'; cnl = 1; }
static uint8_t low(uint8_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* is the certificate one for the host; fold: ignoring case */
static int names(const uint8_t* h, int hl, int fold) {
  if (cnl <= 0) return 0; int i, k = 0; if (cnl >= 2 && sym_concretize((cn[0] == '*') & (cn[1] == '.'))) { for (k = 0; k < hl && !sym_concretize(h[k] == '.'); k++) {} if (k == hl) return 0; k++; if (hl - k != cnl - 2) return 0; int ok = 1; for (i = 0; i < cnl - 2; i++) ok &= fold ? low(h[k + i]) == low(cn[2 + i]) : h[k + i] == cn[2 + i]; return ok; }
  if (hl != cnl) return 0; int ok = 1; for (i = 0; i < cnl; i++) ok &= fold ? low(h[i]) == low(cn[i]) : h[i] == cn[i]; return ok; }
static bool conn(Network* n) { return n->connect(host, port, "dir", "ca", sym_param("cert", 1) ? "cert" : 0, sym_param("cert", 1) ? "key" : 0); }
static void who(void) {
  fine(); int hl = sym_pick(1, sym_param("hl", 3), "host length"); static char h[8]; sym_bytes(h, hl, "host"); for (int i = 0; i < hl; i++) sym_assume(((h[i] >= 'a') & (h[i] <= 'z')) | (h[i] == '.') | ((h[i] >= 'A') & (h[i] <= 'Z')) | ((h[i] >= '0') & (h[i] <= '9')) | (h[i] == '-')); host = h; cnl = (int)sym_pick(0, sym_param("c", 4) + 1, "name length") - 1; if (cnl > 0) sym_bytes(cn, cnl, "name");
  int* f[] = {&f_ctx, &f_ca, &f_cert, &f_key, &f_dns, &f_tcp, &f_new, &f_fd, &f_shake, &f_verify, &f_peer}; int bad = sym_pick(0, 11, "failure"); if (bad) *f[bad - 1] = 0; int secure = sym_pick(0, 1, "secure"); int cert = sym_param("cert", 1);
  Network* n = new Network(); n->setSecure(secure); A(!n->isValid(), "a connection is there before it is made"); bool r = conn(n); uint8_t m[3] = {1, 2, 3};
  int may = secure && (bad == 0 || (!cert && (bad == 3 || bad == 4))); 
  if (r) { A(may, "a connection is taken for secure which is not"); A(names((uint8_t*)h, hl, 1), "the broker is not the one of the certificate"); A(ca_loaded && shook && (!cert || (cert_loaded && key_loaded)), "the certificates are not used"); A(n->isValid(), "a connection is not usable"); A(n->send(m, 3) == 3 && outn == 3 && memcmp(out, m, 3) == 0, "a packet is not sent"); sym_reach("connected"); }
  else { if (may) A(!names((uint8_t*)h, hl, 0), "the broker is rejected though all is well"); A(!n->isValid(), "a connection which failed is usable"); if (secure) A(n->send(m, 3) <= 0 && outn == 0, "something is sent over a connection which failed"); sym_reach("refused"); 
    /* once everything is well the next attempt succeeds, with everything in place */
    n->close(); fine(); cnl = hl; memcpy(cn, h, hl); if (secure && !(sym_concretize(h[0] == '*'))) { shook = 0; A(conn(n) == true, "a connection cannot be made after a failure"); A(ca_loaded && shook && (!cert || (cert_loaded && key_loaded)), "the certificates are not used"); sym_reach("second attempt"); } }
  if (secure) A(plain == 0, "something is sent in the clear"); n->close(); A(!n->isValid(), "a closed connection is usable"); delete n; A(nobj[CTX] == 0 && nobj[CON] == 0 && nobj[SES] == 0 && nobj[CERT] == 0 && nfd == 0, "a closed connection leaves something behind"); sym_reach("end"); }
/* two connections */
static void history(void) {
  Network* n[2]; int up[2] = {0, 0}; for (int i = 0; i < 2; i++) { n[i] = new Network(); n[i]->setSecure(true); } fine(); int k = sym_param("k", 4); uint8_t m[2] = {7, 8}, b[4];
  for (int s = 0; s < k; s++) { int i = sym_pick(0, 1, "which");
    switch (sym_pick(0, 3, "op")) {
      case 0: { if (up[i]) break; int bad = sym_pick(0, 3, "failure"); f_shake = bad != 1; f_tcp = bad != 2; f_verify = bad != 3; bool r = conn(n[i]); A(r == (bad == 0), "connecting is not as the broker has it"); up[i] = r; A(n[i]->isValid() == r, "a connection which failed is usable"); if (!r) n[i]->close(); sym_reach(r ? "connected" : "refused"); break; }
      case 1: { outn = 0; int r = n[i]->send(m, 2); A(up[i] ? r == 2 && outn == 2 : r <= 0 && outn == 0, "a packet is sent exactly while there is a connection"); break; }
      case 2: { rd_mode = sym_pick(0, 3, "read"); if (!up[i]) break; int r = n[i]->recv(b, 1); A(rd_mode == 0 ? r == 1 && b[0] == 0x42 : r == -1, "the end of a connection is not noticed"); if (rd_mode) { n[i]->close(); up[i] = 0; sym_reach("lost"); } break; }
      default: n[i]->close(); up[i] = 0; sym_reach("closed"); }
    for (int j = 0; j < 2; j++) A(n[j]->isValid() == (up[j] == 1), "a connection is usable exactly while it is up"); }
  for (int i = 0; i < 2; i++) { n[i]->close(); delete n[i]; } A(nobj[CTX] == 0 && nobj[CON] == 0 && nobj[SES] == 0 && nobj[CERT] == 0 && nfd == 0, "closed connections leave something behind"); A(plain == 0, "something is sent in the clear"); sym_reach("end"); }
/* a packet goes out whole and in order, whatever pieces the connection takes it in; an error is told */
static void whole(void) {
  fine(); int tls = sym_param("tls", 0), n = sym_pick(1, sym_param("n", 4), "length"); uint8_t* m = sym_bytes_new(n, "packet"); Network* w = new Network(); w->setSecure(tls); A(tls ? conn(w) : w->connect(host, port), "no connection"); steps = sym_param("k", 4); outn = 0;
  int r = w->send(m, n); A(r == n || failed, "a packet is not sent whole"); if (failed) { A(r <= 0, "a packet is taken for sent which is not"); sym_reach("failed"); } else { A(outn == n && memcmp(out, m, n) == 0, "a packet is not sent whole and in order"); sym_reach("sent"); }
  w->close(); delete w; A(nobj[CTX] == 0 && nobj[CON] == 0 && nobj[SES] == 0 && nobj[CERT] == 0 && nfd == 0, "closed connections leave something behind"); sym_reach("end"); }
void sym_main(void) { what = sym_param("what", 0); if (what == 0) who(); else if (what == 1) history(); else whole(); }
