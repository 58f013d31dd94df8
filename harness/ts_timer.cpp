/* C34: the timer of the tester's client library. what = 0 */
#include "testerfix.h"
#include "LTimer.h"
#include <sys/time.h>
#include <time.h>
OnPublishList theOnPublishList[] = { { MQTTSN_TOPIC_TYPE_NORMAL, 0, 0, 0, 0 } };
LMqttsnConfig theMqcon = { 60, true, 0, "", "", 0, false }; LUdpConfig theNetcon = { "c", { 225, 1, 1, 1 }, 1883, 12001 };
static long now_s, now_us;
extern "C" int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = now_s; tv->tv_usec = now_us; return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = now_s; t->tv_nsec = now_us * 1000; return 0; }
void sym_main(void) {
  LTimer t; A(!t.isTimeUp() && !t.isTimeUp(0), "a timer which was not started is up"); A(t.getRemain() == 0, "a timer which was not started has time left");
  now_s = sym_param("rem", 0) ? 1000000 : 1L + sym_u32("seconds"); long f = sym_range(0, 999, "fraction") & 1023; now_us = f * 1000; uint32_t ms = sym_u32("milliseconds"); t.start(ms); A(!t.isTimeUp(), "a timer is up at once"); A(t.getRemain() == ms, "a timer has not all its time left when it starts"); int was = 0; int64_t el = 0;
  for (int i = 0; i < sym_param("k", 1); i++) { uint32_t d = sym_u32("passed s"), u = sym_range(0, 999, "passed fraction") & 1023; now_s += d; f += u; if (sym_concretize(f > 999)) { f -= 1000; now_s++; } now_us = f * 1000;
    el += (int64_t)d * 1000 + u; int up = t.isTimeUp(); if (el > (int64_t)ms + 1) A(up, "a timer is not up after its time"); if (el < (int64_t)ms) A(!up, "a timer is up before its time"); if (was) A(up, "a timer is up no more"); was = up;
    if (sym_param("rem", 0)) { sym_assume(d < 131072); int64_t rem = t.getRemain(); if (el >= (int64_t)ms) A(rem <= 1, "a timer which is up has time left"); else { A(rem >= (int64_t)ms - el - 1, "the time left is too short"); A(rem <= (int64_t)ms - el + 1, "the time left is too long"); } sym_reach("remains"); continue; }
    uint32_t m2 = sym_u32("other"); up = t.isTimeUp(m2); if (el > (int64_t)m2 + 1) A(up, "another time is not up when it has passed"); if (el < (int64_t)m2) A(!up, "another time is up before it has passed"); }
  if (was) sym_reach("up"); else sym_reach("not up"); t.start(ms); A(!t.isTimeUp(), "a timer is up at once"); t.stop(); now_s += 5000000; A(!t.isTimeUp() && !t.isTimeUp(1) && t.getRemain() == 0, "a stopped timer is up"); sym_reach("end"); }
