// Topic filter matching against a reference written from MQTT 3.1.1 section 4.7. params: fl, tl = longest filter and topic; via = 0 Topic::isMatch, 1 Topics::match
#include "sym.h"
#include "MQTTSNGWTopic.h"
#include <string.h>
#include <stdlib.h>
using namespace MQTTSNGW;
static char f[16], t[16]; static int fl, tl;
static int valid_filter(void) { int i, ok = 1; for (i = 0; i < fl; i++) { int b = i == 0 || f[i - 1] == '/', e = i == fl - 1 || f[i + 1] == '/'; ok &= !(f[i] == '+') | (b & e); ok &= !(f[i] == '#') | (b & (i == fl - 1)); ok &= f[i] != 0; } return ok; }
static int valid_topic(void) { int i, ok = 1; for (i = 0; i < tl; i++) ok &= (t[i] != '+') & (t[i] != '#') & (t[i] != 0); return ok & (t[0] != '$'); }
/* r[i][j]: filter from i matches topic from j, both at level starts or inside equal levels */
static int ref(void) {
  static uint8_t r[16][16]; int i, j;
  for (i = fl; i >= 0; i--) for (j = tl; j >= 0; j--) {
    uint8_t v;
    if (i == fl) v = j == tl;
    else if (f[i] == '#') v = 1;
    else if (f[i] == '+') { v = 0; for (int e = j; e <= tl; e++) { v |= r[i + 1][e]; if (e < tl && t[e] == '/') break; } /* one level: [j,e) without '/' */
      v = 0; int open = 1; for (int e = j; e <= tl; e++) { int end = e == tl || t[e] == '/'; v |= (open & end) & r[i + 1][e]; open &= !end; } }
    else if (j == tl) v = f[i] == '/' && i + 2 == fl && f[i + 1] == '#';     /* "a/#" matches "a" */
    else v = (f[i] == t[j]) & r[i + 1][j + 1];
    r[i][j] = v; }
  return r[0][0]; }
void sym_main(void) {
  fl = (int)sym_pick(1, sym_param("fl", 4), "filterlen"); tl = (int)sym_pick(1, sym_param("tl", 4), "topiclen"); sym_bytes(f, fl, "filter"); sym_bytes(t, tl, "topic"); sym_assume(valid_filter()); sym_assume(valid_topic());
  int got;
  if (sym_param("via", 0) == 0) { string* fs = new string(f, fl); string ts(t, tl); Topic* tp = new Topic(fs, MQTTSN_TOPIC_TYPE_NORMAL); got = tp->isMatch(&ts) ? 1 : 0; delete tp; }
  else { Topics* ts = new Topics(); MQTTSN_topicid id; memset(&id, 0, sizeof id); id.type = MQTTSN_TOPIC_TYPE_NORMAL; id.data.long_.name = f; id.data.long_.len = fl; Topic* a = ts->add(&id); char* raw = (char*)malloc(tl); memcpy(raw, t, tl); id.data.long_.name = raw; id.data.long_.len = tl; Topic* m = ts->match(&id); sym_assert(m == 0 || m == a, "a topic matched an entry that is not in the list"); got = m != 0; free(raw); delete ts; }
  int want = ref(); sym_observe("match", got);
  if (got) sym_assert(want, "a topic name is taken to match a filter it does not match"); else sym_assert(!want, "a topic name that matches the filter is taken not to match");
  sym_reach(got ? "match" : "no match"); }
