// Configuration files. what=0 one key of any file, 1 the keys of the gateway, 2 list of clients, 3 predefined topics
#include "sym.h"
#include "MQTTSNGateway.h"
#include "MQTTSNGWClient.h"
#include "MQTTSNGWClientList.h"
#include "MQTTSNGWAdapterManager.h"
#include "SensorNetwork.h"
#include <string.h>
#include <stdio.h>
#include <arpa/inet.h>
#define A(c, l) sym_assert((c), l)
using namespace MQTTSNGW;
char* currentDateTime(void) { static char t[2]; return t; }
static char conf[600], clients[400], topics[400]; static const char *at; static int opened;
extern "C" FILE* fopen(const char* f, const char*) { at = strcmp(f, "dir/gw.conf") == 0 ? conf : strcmp(f, "cl") == 0 ? clients : strcmp(f, "pt") == 0 ? topics : 0; if (at) opened++; return at ? (FILE*)&at : 0; }
extern "C" int fclose(FILE*) { opened--; return 0; }
extern "C" char* fgets(char* b, int n, FILE*) { int i = 0; while (i < n - 1 && sym_concretize(*at != 0)) { b[i] = *at++; if (sym_concretize(b[i++] == '\n')) break; } b[i] = 0; return i ? b : 0; }
extern "C" in_addr_t inet_addr(const char* s) { uint32_t v = 0, k = 0; int d = 0, p = 0; for (;; s++) { if (*s >= '0' && *s <= '9') { k = k * 10 + *s - '0'; d = 1; if (k > 255) return 0xffffffff; } else { if (!d) return 0xffffffff; v = v << 8 | k; k = d = 0; p++; if (*s != '.') break; } } return *s || p != 4 ? 0xffffffff : htonl(v); }
static char net_ip[40]; static int net_m, net_u, net_t, nets;
int UDPPort::open(const char* ip, uint16_t m, uint16_t u, unsigned int t) { strcpy(net_ip, ip); net_m = m; net_u = u; net_t = t; nets++; return 0; }
namespace MQTTSNGW {
void LightIndicator::init() {} int LightIndicator::lit(int, const char*) { return 0; } void LightIndicator::pinMode(int) {}
void Process::initialize(int, char**) { _configDir = "dir/"; _configFile = "gw.conf"; }
void Process::resetRingBuffer() {}
}
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static char val[MQTTSNGW_PARAM_MAX];
/* the value of a key in a file, by the book */
static int ref(const char* f, const char* key, char* v) {
  int kl = strlen(key);
  while (sym_concretize(*f != 0)) { const char* e = f; while (sym_concretize((*e != 0) & (*e != '\n'))) e++;
    if (sym_concretize(*f != '#') && e - f > kl) { int ok = 1; for (int i = 0; i < kl; i++) ok &= f[i] == key[i]; ok &= f[kl] == '='; if (sym_concretize(ok)) { const char *b = f + kl + 1, *z = e; while (b < z && sym_concretize(sp((unsigned char)*b))) b++; while (z > b && sym_concretize(sp((unsigned char)z[-1]))) z--; memcpy(v, b, z - b); v[z - b] = 0; return 0; } }
    f = *e ? e + 1 : e; }
  return -1; }
struct P : MultiTaskProcess { };
static void key(void) {
  P* p = new P(); p->Process::initialize(0, 0); int n = sym_pick(0, sym_param("n", 6), "length"); sym_bytes(conf, n, "file"); for (int i = 0; i < n; i++) sym_assume(conf[i] != 0); conf[n] = 0; const char* k = sym_param("two", 0) ? "kk" : "k"; char a[MQTTSNGW_PARAM_MAX], b[MQTTSNGW_PARAM_MAX]; memset(a, 0x55, sizeof a); 
  int r = p->getParam(k, a), e = ref(conf, k, b); A((r == 0) == (e == 0), "a key is found exactly when it is in the file"); if (r == 0 && e == 0) { A(strlen(a) == strlen(b) && memcmp(a, b, strlen(b)) == 0, "the value of a key is wrong"); sym_reach("found"); } else { A((uint8_t)a[0] == 0x55, "a key which is not there gets a value"); sym_reach("not found"); } A(opened == 0, "a file is left open"); sym_reach("end"); }
static void add(const char* k, const char* v) { strcat(conf, k); strcat(conf, "="); strcat(conf, v); strcat(conf, "\n"); }
static int same(const char* a, const char* b) { return a && b && strlen(a) == strlen(b) && memcmp(a, b, strlen(b)) == 0; }
static int yes(int i) { return i >= 1 && i <= 3; }
static void num(char* b, int v);
static void gateway(void) {
  static const char *str[] = {"BrokerName", "BrokerPortNo", "BrokerSecurePortNo", "CertKey", "PrivateKey", "RootCApath", "RootCAfile", "DtlsCertsKey", "DtlsPrivKey", "GatewayName", "LoginID", "Password", "ClientsList", "RFCOMMAddress"}, *nums[] = {"GatewayID", "MQTTVersion", "MaxInflightMsgs", "KeepAlive", "MaxNumberOfClients"}, *bol[] = {"ClientAuthentication", "PredefinedTopic", "AggregatingGateway", "Forwarder", "QoS-1"}, *bv[] = {"", "YES", "yes", "Yes", "NO", "YE", "YESS"};
  int k = sym_param("g", 0), which = -1; char sv[8] = "", nv[8] = ""; long n = -1; int bi = 0; Gateway* g = new Gateway(); GatewayParams* p = g->getGWParams();
  add("#BrokerName", "x"); if (k == 0) { which = sym_pick(0, 13, "text"); int l = sym_pick(1, sym_param("n", 3), "length"); sym_bytes(sv, l, "value"); for (int i = 0; i < l; i++) sym_assume((sv[i] > ' ') & (sv[i] < 127)); add(str[which], sv); if (which == 9) strcat(conf, "GatewayID=7\n"); }
  if (k != 0 || which != 9) add("GatewayName", "gw"); if (!(k == 1 && (which = sym_pick(0, 4, "number")) == 0)) { if (!(k == 0 && which == 9)) add("GatewayID", "7"); }
  if (k == 1) { int l = sym_pick(1, 3, "digits"); n = 0; if (which == 4) l = 1; for (int i = 0; i < l; i++) { nv[i] = '0' + sym_range(0, 9, "digit"); n = n * 10 + nv[i] - '0'; } if (which == 4) { sym_assume(n <= 3); } if (which == 4) n = (long)sym_concretize(n); if (which == 4) num(nv, n); add(nums[which], nv); }
  if (k != 1 || which != 4) add("MaxNumberOfClients", "2");
  if (k == 2) { which = sym_pick(0, 4, "switch"); bi = sym_pick(0, 6, "setting"); if (bi) add(bol[which], bv[bi]); add("ClientsList", "cl"); add("PredefinedTopicList", "pt"); }
  add("MulticastIP", "225.1.1.1"); add("MulticastPortNo", "1883"); add("GatewayPortNo", "10000"); add("MulticastTTL", "3");
  int thrown = 0; try { g->initialize(0, 0); } catch (Exception& e) { thrown = 1; } catch (...) { A(0, "the wrong exception"); }
  if (k == 1 && which == 0) { A(thrown == (n < 1 || n > 255), "a gateway id is accepted exactly when it is 1 to 255"); if (thrown) { sym_reach("refused"); return; } A(p->gatewayId == n, "the gateway id is not the configured one"); } else { A(!thrown, "a good configuration is refused"); if (thrown) return; A(p->gatewayId == 7, "the gateway id is not the configured one"); }
  char* got[] = {p->brokerName, p->port, p->portSecure, p->certKey, p->privateKey, p->rootCApath, p->rootCAfile, p->gwCertskey, p->gwPrivatekey, p->gatewayName, p->loginId, p->password, p->clientListName, p->rfcommAddr};
  for (int i = 0; i < 14; i++) { if (k == 0 && i == which) A(same(got[i], sv), "a setting is not the configured one"); else if (i == 9) A(same(got[i], "gw"), "the name of the gateway is wrong"); else if (i == 12 && k == 2) A(same(got[i], "cl"), "a setting is not the configured one"); else A(got[i] == 0, "a setting is there which is not configured"); }
  uint8_t n8 = n; A(p->mqttVersion == (k == 1 && which == 1 ? n8 : 4), "the protocol version is not the configured one"); A(p->maxInflightMsgs == (k == 1 && which == 2 ? n : 10), "the number of messages in flight is not the configured one"); A(p->keepAlive == (k == 1 && which == 3 ? n : 900), "the keep alive time is not the configured one"); A(p->maxClients == (k == 1 && which == 4 ? n : 2), "the number of clients is not the configured one");
  int sw[] = {p->clientAuthentication, p->predefinedTopic, p->aggregatingGw, p->forwarder, p->qosMinus1}; for (int i = 0; i < 5; i++) A(sw[i] == (k == 2 && i == which && yes(bi)), "a switch is not set as configured"); if (sw[1]) A(same(p->predefinedTopicFileName, "pt"), "a setting is not the configured one");
  A(same(p->configName, "dir/gw.conf"), "the name of the configuration is wrong"); A(g->getClientList()->isAuthorized() == (sw[0] == 1), "clients are checked exactly when configured"); A(g->getAdapterManager()->isAggregaterActive() == (sw[2] == 1), "clients are aggregated exactly when configured"); A(g->getAdapterManager()->getQoSm1Proxy()->isActive() == (sw[4] == 1), "the proxy is active exactly when configured");
  A(nets == 1 && same(net_ip, "225.1.1.1") && net_m == 1883 && net_u == 10000 && net_t == 3, "the sensor network is not opened as configured"); 
  int mx = p->maxInflightMsgs * p->maxClients; (void)mx; A(opened == 0, "a file is left open"); sym_reach("end"); }
static Gateway* mkgw(int max) { Gateway* g = new Gateway(); GatewayParams* p = g->getGWParams(); p->maxClients = max; p->clientListName = strdup("cl"); p->predefinedTopicFileName = strdup("pt"); g->getClientList()->allocate(); return g; }
static void num(char* b, int v) { char t[12]; int i = 0, j = 0; do t[i++] = '0' + v % 10; while (v /= 10); while (i) b[j++] = t[--i]; b[j] = 0; }
static char ids[4][4]; static void mkid(int i) { int l = sym_pick(1, 2, "id length"); sym_bytes(ids[i], l, "id"); for (int j = 0; j < l; j++) sym_assume((ids[i][j] > ' ') & (ids[i][j] < 127) & (ids[i][j] != ',') & (ids[i][j] != '#')); ids[i][l] = 0; }
static int idis(Client* c, const char* id) { return strlen(c->getClientId()) == strlen(id) && memcmp(c->getClientId(), id, strlen(id)) == 0; }
static void list(void) {
  int k = sym_param("k", 2), max = sym_pick(k - 1, k, "limit"), n = 0, fl[4], ad[4], id[4]; int type = sym_param("type", 0);
  for (int i = 0; i < k; i++) switch (sym_pick(0, 3, "line")) {
    case 0: strcat(clients, "# c,10.0.0.9:9\n"); break;
    case 1: strcat(clients, sym_pick(0, 1, "blank") ? " \t\n" : "\n"); break;
    case 2: strcat(clients, "x,"); { static const char* bad[] = {"10.0.0.1", "10.0.0:5", "10.0.0.1:0", "a:5", ":", "10.0.0.256:5"}; strcat(clients, bad[sym_pick(0, 5, "bad address")]); } strcat(clients, "\n"); break;
    default: { mkid(i); id[n] = i; ad[n] = i; fl[n] = sym_pick(0, 3, "flags"); for (int j = 0; j < n; j++) sym_assume(strcmp(ids[id[j]], ids[i]) != 0); char b[16]; int s = i == 0 ? sym_pick(0, 1, "spaces") : 0; strcat(clients, ids[i]); strcat(clients, s ? " , " : ","); strcat(clients, "10.1.2."); num(b, i + 1); strcat(clients, b); strcat(clients, ":"); num(b, 1000 + i); strcat(clients, b); if (fl[n] & 1) strcat(clients, ",unstableLine"); if (fl[n] & 2) strcat(clients, s ? ", secureConnection" : ",secureConnection"); if (i < k - 1 || sym_pick(0, 1, "newline")) strcat(clients, "\n"); n++; } }
  Gateway* g = mkgw(max); ClientList* l = g->getClientList(); g->getGWParams()->clientAuthentication = true; l->initialize(type); int m = n < max ? n : max; A(l->isAuthorized(), "clients are not checked"); A(l->getClientCount() == m, "the list does not hold the clients of the file"); Client* c = l->getClient(0);
  for (int i = 0; i < m; i++) { if (!c) { A(0, "the list does not hold the clients of the file"); return; } A(idis(c, ids[id[i]]), "the id of a client in the list is wrong"); SensorNetAddress a; a.setAddress(htonl(0x0a010200 + ad[i] + 1), htons(1000 + ad[i])); A(c->getSensorNetAddress()->isMatch(&a), "the address of a client in the list is wrong"); A(l->getClient(&a) == c, "a client in the list is not found by its address");
    MQTTSNString s = MQTTSNString_initializer; s.cstring = ids[id[i]]; A(l->getClient(&s) == c, "a client in the list is not found by its id"); A(c->isSecureNetwork() == ((fl[i] & 2) != 0), "a client is not secure as the list says"); A(c->isSensorNetStable() == ((fl[i] & 1) == 0), "a client is not stable as the list says"); A(c->isAggregated() == (type == 1), "a client is aggregated exactly when the gateway is"); A(!c->isQoSm1() && c->isDisconnect(), "a client in the list is not as new"); c = c->getNextClient(); }
  A(c == 0 && opened == 0, "the list holds more than the clients of the file"); if (m) sym_reach("client"); if (m < n) sym_reach("full"); sym_reach("end"); }
static const char* name(Topics* t, int id) { MQTTSN_topicid q; memset(&q, 0, sizeof q); q.type = MQTTSN_TOPIC_TYPE_PREDEFINED; q.data.id = id; Topic* r = t->getTopicById(&q); return r ? r->getTopicName()->c_str() : 0; }
static void predef(void) {
  int k = sym_param("k", 2), auth = sym_pick(0, 1, "list"), n = 0, own[4], id[4]; static char nm[4][6]; int agg = sym_param("type", 0); if (auth) strcpy(clients, "a,10.0.0.1:5\n");
  for (int i = 0; i < k; i++) switch (sym_pick(0, 3, "line")) {
    case 0: strcat(topics, "#a,t,1\n"); break;
    case 1: { static const char* bad[] = {"\n", "a\n", "a,t\n", "a,t,0\n", "a,t,x\n", "a,t,65536\n", ",\n", ",,\n", "a,t,\n"}; strcat(topics, bad[sym_pick(0, 8, "bad line")]); break; }
    default: { static const char* w[] = {"a", "b", "*"}; own[n] = sym_pick(0, 2, "owner"); int l = sym_pick(1, 3, "topic length"); sym_bytes(nm[n], l, "topic"); for (int j = 0; j < l; j++) sym_assume((nm[n][j] > ' ') & (nm[n][j] < 127) & (nm[n][j] != ',') & (nm[n][j] != '#') & (nm[n][j] != '+')); for (int j = 0; j < n; j++) sym_assume(strcmp(nm[j], nm[n]) != 0); static const int idv[] = {1, 9, 255, 256, 65535}; id[n] = idv[sym_pick(0, 4, "id")]; for (int j = 0; j < n; j++) sym_assume(id[j] != id[n]); char b[16]; strcat(topics, w[own[n]]); strcat(topics, ","); strcat(topics, nm[n]); strcat(topics, ","); num(b, id[n]); strcat(topics, b); if (i < k - 1 || sym_pick(0, 1, "newline")) strcat(topics, "\n"); n++; } }
  Gateway* g = mkgw(3); ClientList* l = g->getClientList(); g->getGWParams()->clientAuthentication = auth; g->getGWParams()->predefinedTopic = true; l->initialize(agg); MQTTSNString sa = MQTTSNString_initializer, sb = MQTTSNString_initializer; sa.cstring = (char*)"a"; sb.cstring = (char*)"b"; Client *c[2] = {l->getClient(&sa), l->getClient(&sb)};
  int has[3] = {auth, 0, 1}; for (int i = 0; i < n; i++) if (own[i] == 0 || (own[i] == 1 && !auth)) has[own[i]] = 1; for (int i = 0; i < 2; i++) { A((c[i] != 0) == has[i], "a client is known exactly when a list names it"); if (c[i]) A(c[i]->isAggregated() == (agg == 1) && c[i]->isDisconnect(), "a client with predefined topics is not as new"); } A(l->getClientCount() == has[0] + has[1], "a client with predefined topics is there twice");
  for (int i = 0; i < n; i++) for (int o = 0; o < 3; o++) { Topics* t = o == 2 ? g->getTopics() : c[o] ? c[o]->getTopics() : 0; const char* r = t ? name(t, id[i]) : 0; int want = own[i] == o && has[o]; A((r != 0) == want, "a predefined topic is known to the wrong clients"); if (r && want) { A(same(r, nm[i]), "the name of a predefined topic is wrong"); sym_reach(o == 2 ? "for all" : "for one"); } }
  A(opened == 0, "a file is left open"); sym_reach("end"); }
void sym_main(void) { int what = sym_param("what", 0); if (what == 0) key(); else if (what == 1) gateway(); else if (what == 2) list(); else predef(); }
