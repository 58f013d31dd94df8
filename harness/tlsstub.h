/* The TLS library as it is when all is well, for harnesses which are about what comes after the handshake: connected() makes a connection. */
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <string.h>
extern "C" {
static char tls_obj[4][8];
int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS*) { return 1; }
const SSL_METHOD* TLS_client_method(void) { return (const SSL_METHOD*)tls_obj[0]; }
SSL_CTX* SSL_CTX_new(const SSL_METHOD*) { return (SSL_CTX*)tls_obj[1]; }
void SSL_CTX_free(SSL_CTX*) {}
int SSL_CTX_load_verify_locations(SSL_CTX*, const char*, const char*) { return 1; }
int SSL_CTX_use_certificate_file(SSL_CTX*, const char*, int) { return 1; }
int SSL_CTX_use_PrivateKey_file(SSL_CTX*, const char*, int) { return 1; }
SSL* SSL_new(SSL_CTX*) { return (SSL*)tls_obj[2]; }
int SSL_set_fd(SSL*, int) { return 1; }
int SSL_set_session(SSL*, SSL_SESSION*) { return 1; }
int SSL_connect(SSL*) { return 1; }
long SSL_get_verify_result(const SSL*) { return X509_V_OK; }
const char* X509_verify_cert_error_string(long) { return ""; }
X509* SSL_get1_peer_certificate(const SSL*) { return (X509*)tls_obj[3]; }
X509_NAME* X509_get_subject_name(const X509* x) { return (X509_NAME*)x; }
int X509_NAME_get_text_by_NID(const X509_NAME*, int, char* b, int) { strcpy(b, "broker"); return 6; }
void X509_free(X509*) {}
SSL_SESSION* SSL_get1_session(SSL*) { return 0; }
void SSL_SESSION_free(SSL_SESSION*) {}
void SSL_free(SSL*) {}
int SSL_shutdown(SSL*) { return 1; }
unsigned long ERR_get_error(void) { return 0; }
void ERR_error_string_n(unsigned long, char* b, size_t n) { if (n) *b = 0; }
}
static void tls_connect(Network* n) { n->setSecure(true); A(n->connect("broker", "8883", "dir", "ca", 0, 0), "no connection though all is well"); }
