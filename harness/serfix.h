/* A stand-in for the serial ports below the radio networks: what is written; what arrives, in pieces with a pause behind each */
#include "sym.h"
#include "SensorNetwork.h"
#include "MQTTSNGWProcess.h"
#include "MQTTSNGWDefines.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <termios.h>
#include <fcntl.h>
#include <sys/select.h>
#include <sys/syscall.h>
#define A(c, l) sym_assert((c), l)
using namespace MQTTSNGW;
char* currentDateTime(void) { static char t[2]; return t; }
namespace MQTTSNGW { extern Process* theProcess; }
static const char* keys[8]; static char vals[8][24]; static int nkeys;
static void set(const char* k, const char* v) { keys[nkeys] = k; strcpy(vals[nkeys++], v); }
int Process::getParam(const char* k, char* v) { for (int i = 0; i < nkeys; i++) if (strcmp(keys[i], k) == 0) { strcpy(v, vals[i]); return 0; } return -1; }
struct Piece { const uint8_t* b; int n, pos; };
static Piece piece[8]; static int npiece, cur;
static void arrives(const uint8_t* b, int n) { piece[npiece].b = b; piece[npiece].n = n; piece[npiece++].pos = 0; }
static uint8_t out[4096]; static int nout, lastfd = 8, rxfd, txfd, waits; static void (*waiting)(void);
extern "C" {
int open(const char* f, int fl, ...) { if (strncmp(f, "/dev/sn", 7)) return syscall(SYS_open, f, fl, 0600); return ++lastfd; }
int close(int fd) { if (fd < 9) return syscall(SYS_close, fd); return 0; }
int cfsetspeed(struct termios*, speed_t) { return 0; }
int tcsetattr(int fd, int how, const struct termios*) { if (how == TCSAFLUSH && cur < npiece) { cur++; } return 0; }      /* what has arrived is thrown away */
int select(int n, fd_set* r, fd_set*, fd_set*, struct timeval*) {
  A(FD_ISSET(rxfd, r) && n > rxfd, "the port is not looked at");
  if (cur < npiece && piece[cur].pos < piece[cur].n) { FD_ZERO(r); FD_SET(rxfd, r); return 1; }
  if (cur < npiece) cur++;
  FD_ZERO(r); return 0; }
ssize_t read(int fd, void* b, size_t n) { if (fd < 9) return syscall(SYS_read, fd, b, n); A(fd == rxfd && n == 1 && cur < npiece && piece[cur].pos < piece[cur].n, "a byte is read which is not there"); *(uint8_t*)b = piece[cur].b[piece[cur].pos++]; return 1; }
ssize_t write(int fd, const void* b, size_t n) { if (fd < 9) return syscall(SYS_write, fd, b, n); A(fd == txfd && n >= 1, "a byte is written to the wrong port"); for (size_t i = 0; i < n; i++) out[nout++] = ((const uint8_t*)b)[i]; return n; }
}
namespace MQTTSNGW {
static int posted;
void Semaphore::post(void) { posted++; }
void Semaphore::timedwait(uint16_t) { waits++; if (waiting) waiting(); }
}
static int special(uint8_t c) { return c == 0x7e || c == 0x7d || c == 0x11 || c == 0x13; }
/* the bytes of a frame without and with escapes */
static int esc(const uint8_t* f, int n, uint8_t* w, int on) { int k = 0; for (int i = 0; i < n; i++) if (i && on && special(f[i])) { w[k++] = 0x7d; w[k++] = f[i] ^ 0x20; } else w[k++] = f[i]; return k; }
