/* C41: command line and signals of the gateway process */
#include "sym.h"
#include "MQTTSNGWProcess.h"
#include <string.h>
#include <stdlib.h>
#include <signal.h>
#include <unistd.h>
#define A(c, l) sym_assert((c), l)
using namespace MQTTSNGW;
char* currentDateTime(void) { static char t[2]; return t; }
namespace MQTTSNGW {
NamedSemaphore::NamedSemaphore(const char*, unsigned int) {} NamedSemaphore::~NamedSemaphore() {} void NamedSemaphore::post(void) {} void NamedSemaphore::timedwait(uint16_t) {}
RingBuffer::RingBuffer(const char*) {} RingBuffer::~RingBuffer() {} void RingBuffer::put(char*) {} int RingBuffer::get(char*, int) { return 0; } void RingBuffer::reset() {}
int Process::getParam(const char*, char*) { return -1; }
}
static void (*act[65])(int); static int flags[65];     /* 0 is SIG_DFL */
static int oi; static unsigned slept; static int at = -1, killed, raised, asked;
static void raise1(int s) { if (act[s] == SIG_DFL) killed = 1; else if (act[s] != SIG_IGN) act[s](s); if ((s == SIGINT || s == SIGTERM) && !asked) { asked = 1; at = slept; } }
extern "C" {
void (*signal(int s, void (*h)(int)))(int) { void (*o)(int) = act[s]; act[s] = h; return o; }
int sigaction(int s, const struct sigaction* a, struct sigaction* o) { if (o) memset(o, 0, sizeof(*o)); if (a) act[s] = a->sa_handler; return 0; }
int getopt(int argc, char* const argv[], const char* o) { if (oi == 0) oi = 1; if (oi >= argc || argv[oi][0] != '-') return -1; char c = argv[oi][1]; const char* p = strchr(o, c); if (!p) { oi++; return '?'; } if (p[1] == ':') { if (oi + 1 >= argc) return '?'; optarg = argv[oi + 1]; oi += 2; } else oi++; return c; }
unsigned sleep(unsigned) { static const int sg[4] = { SIGINT, SIGTERM, SIGHUP, SIGPIPE }; int n = raised < sym_param("k", 4) ? sym_pick(0, 2, "signals") : -1; slept++;
  if (n < 0) { raise1(SIGINT); return 0; } if (n == 0) return (raised++, 0); for (; n > 0; n--, raised++) { if (n == 2) sym_reach("several"); int w = sym_pick(0, 4, "signal"); if (w < 4) raise1(sg[w]); else { if (!asked) { asked = 1; at = slept; } theMultiTaskProcess->abort(); } } return 0; }
}
extern "C" void sym_main(void) {
  int what = sym_param("what", 0); MultiTaskProcess* p = new MultiTaskProcess(); theProcess = p; string d0 = *p->getConfigDirName(), f0 = *p->getConfigFileName();
  char a0[2] = "x", a1[3] = "-f"; char* argv[4] = { a0, a1, 0, 0 };
  if (what == 0) { int n = sym_pick(1, sym_param("n", 4), "length"); char* s = (char*)sym_bytes_new(n + 1, "path"); for (int i = 0; i < n; i++) sym_assume(s[i] != 0 && s[i] != '-'); s[n] = 0; int sl = -1; for (int i = 0; i < n; i++) if (s[i] == '/') sl = i; argv[2] = s; int use = sym_bool("given");
    p->initialize(use ? 3 : 1, argv); string full = *p->getConfigDirName() + *p->getConfigFileName();
    if (!use) { A(full == d0 + f0, "without an option not the default configuration is used"); sym_exit(); }
    sym_reach(sl < 0 ? "file" : "path"); A(full == (sl < 0 ? d0 + s : string(s)), "not the given configuration is used"); if (sl >= 0) A(p->getConfigDirName()->size() == (size_t)sl + 1, "the other files are not looked for beside the configuration"); }
  if (what == 1) {                                       /* runs until it is asked to stop, and only that stops it */
    p->initialize(1, argv); p->run(); A(!killed, "a signal ends the gateway at once"); A(asked, "the gateway stops though nobody asked"); A(slept <= (unsigned)at + 1, "the gateway does not stop when asked");
    sym_observe("slept", slept); sym_reach(at > 1 ? "runs on" : "stopped"); }
  sym_reach("end"); }
