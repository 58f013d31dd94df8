/* A client whose broker connection is TLS, with a stand-in for the TLS library; needs YIELD */
#include "gwfix.h"
#include "tlsstub.h"
static int lasterr, wrote, wn; static uint8_t wb_[64];
extern "C" {
int SSL_read(SSL*, void* b, int n) { YIELD; int av = br_n - br_pos; if (av <= 0) { lasterr = SSL_ERROR_ZERO_RETURN; return 0; } if (n > av) n = av; memcpy(b, br_in + br_pos, n); br_pos += n; lasterr = SSL_ERROR_NONE; return n; }
int SSL_write(SSL*, const void* b, int n) { YIELD; wrote++; A(wn + n <= 64, "too much is sent"); memcpy(wb_ + wn, b, n); wn += n; lasterr = SSL_ERROR_NONE; return n; }
int SSL_get_error(const SSL*, int) { return lasterr; }
int SSL_pending(const SSL*) { return br_pos > 0 ? br_n - br_pos : 0; }
}
static Client* secure(void) { start(); Client* c = join(1, "c"); tls_connect(c->getNetwork()); br_tls = 1; return c; }
