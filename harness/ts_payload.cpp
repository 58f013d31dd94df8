/* C42: MessagePack payloads. what = 0 what was set is got, and is MessagePack; 1 a payload of somebody else is read inside its bytes */
#include "testerfix.h"
OnPublishList theOnPublishList[] = { { MQTTSN_TOPIC_TYPE_NORMAL, 0, 0, 0, 0 } };
LMqttsnConfig theMqcon = { 60, true, 0, "", "", 0, false }; LUdpConfig theNetcon = { "c", { 225, 1, 1, 1 }, 1883, 12001 };
enum { BOOL, U32, I32, FLT, STR, ARR };
/* MessagePack: the element at p, of at most n bytes. Returns its size, or 0; v is the value, *s the string */
struct El { int kind; uint32_t v; const uint8_t* s; };
static unsigned ref(const uint8_t* p, unsigned n, El* e) {
  if (!n) return 0; uint8_t t = p[0]; unsigned b = 1, l = 0; e->s = 0; e->v = 0;
  if (t < 0x80) { e->kind = I32; e->v = t; } else if (t >= 0xe0) { e->kind = I32; e->v = 0xffffff00u | t; }
  else if (t < 0x90) return 0; else if (t < 0xa0) { e->kind = ARR; e->v = t & 15; } else if (t < 0xc0) { e->kind = STR; l = t & 31; e->v = l; e->s = p + 1; b += l; }
  else switch (t) {
    case 0xc2: case 0xc3: e->kind = BOOL; e->v = t & 1; break;
    case 0xca: if (n < 5) return 0; e->kind = FLT; b = 5; e->v = (uint32_t) p[1] << 24 | p[2] << 16 | p[3] << 8 | p[4]; break;
    case 0xcc: if (n < 2) return 0; e->kind = U32; b = 2; e->v = p[1]; break;
    case 0xcd: if (n < 3) return 0; e->kind = U32; b = 3; e->v = p[1] << 8 | p[2]; break;
    case 0xce: if (n < 5) return 0; e->kind = U32; b = 5; e->v = (uint32_t) p[1] << 24 | p[2] << 16 | p[3] << 8 | p[4]; break;
    case 0xd0: if (n < 2) return 0; e->kind = I32; b = 2; e->v = p[1] & 128 ? 0xffffff00u | p[1] : p[1]; break;
    case 0xd1: if (n < 3) return 0; e->kind = I32; b = 3; e->v = p[1] << 8 | p[2]; if (p[1] & 128) e->v |= 0xffff0000u; break;
    case 0xd2: if (n < 5) return 0; e->kind = I32; b = 5; e->v = (uint32_t) p[1] << 24 | p[2] << 16 | p[3] << 8 | p[4]; break;
    case 0xd9: if (n < 2) return 0; e->kind = STR; l = p[1]; e->v = l; e->s = p + 2; b = 2 + l; break;
    case 0xda: if (n < 3) return 0; e->kind = STR; l = p[1] << 8 | p[2]; e->v = l; e->s = p + 3; b = 3 + l; break;
    case 0xdc: if (n < 3) return 0; e->kind = ARR; b = 3; e->v = p[1] << 8 | p[2]; break;
    default: return 0; }
  return b <= n ? b : 0; }
static float flt(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static void get(Payload* p, int i, int kind, uint32_t v, const char* s) {
  switch (kind) {
  case BOOL: A(p->get_bool(i) == !!v, "a truth value comes back changed"); break;
  case U32: A(p->get_uint32(i) == v, "a number comes back changed"); break;
  case I32: A(p->get_int32(i) == (int32_t) v, "a signed number comes back changed"); A(p->get_int32(i) == (int32_t) v, "reading a number changes it"); break;
  case FLT: A(bits(p->get_float(i)) == v, "a floating point number comes back changed"); break;
  case STR: { uint16_t l = 7; const char* q = p->get_str(i, &l); A(q != 0 && l == v, "a string comes back with another length"); if (q && l == v) A(memcmp(q, s, v) == 0, "a string comes back changed"); break; }
  case ARR: A(p->getArray(i) == v, "the size of an array comes back changed"); break; } }
void sym_main(void) {
  int what = sym_param("what", 0), k = sym_param("k", 3), cap = sym_param("cap", 600), smax = sym_param("smax", 300); El e[8]; char* str[8]; unsigned used = 0; int n = 0;
  if (what == 0) {
    Payload* p = new Payload(cap); A(p->getLen() == 0, "a new payload is not empty");
    for (int i = 0; i < k; i++) { int kind = sym_pick(0, 5, "kind"), rc = 0; uint32_t v = 0; str[n] = 0; unsigned need = 6;
      if (kind == BOOL) { v = sym_pick(0, 1, "truth"); rc = p->set_bool(v); }
      else if (kind == U32) { v = sym_u32("number"); rc = p->set_uint32(v); }
      else if (kind == I32) { v = sym_u32("signed"); rc = p->set_int32((int32_t) v); }
      else if (kind == FLT) { v = sym_u32("float"); rc = p->set_float(flt(v)); }
      else if (kind == ARR) { v = sym_u8("size"); rc = p->set_array(v); need = 3 + v; }
      else { static const int ls[] = { 0, 1, 15, 16, 31, 32, 255, 256, 300 }; int l = ls[sym_pick(0, 8, "length")]; if (l > smax) sym_exit(); v = l; need = 3 + l; char* s = (char*) malloc(l + 1); sym_bytes(s, l, "string"); for (int j = 0; j < l; j++) sym_assume(s[j] != 0); s[l] = 0; str[n] = s; rc = p->set_str((const char*) s); }
      if (rc) { A(used + need > (unsigned) cap, "an element is refused though there is room"); A(p->getLen() == used, "a refused element changes the payload"); sym_reach("refused"); continue; }
      /* the bytes are MessagePack for the value */
      unsigned len = p->getLen(); A(len > used && len <= (unsigned) cap && p->getAvailableLength() == cap - len, "the length of the payload is wrong"); El r; unsigned b = ref(p->getRowData() + used, len - used, &r); A(b && b == len - used, "an element is not MessagePack");
      if (b) { A(r.v == v && (r.kind == kind || (kind == U32 && r.kind == I32 && !(v >> 31)) || (kind == I32 && r.kind == U32 && !(v >> 31))), "an element is another value in MessagePack"); if (kind == STR) A(memcmp(r.s, str[n], v) == 0, "a string is another one in MessagePack"); }
      used = len; e[n].kind = kind; e[n].v = v; n++; }
    Payload* q = p; uint8_t* c = 0; int own = sym_pick(0, 2, "received"); if (own) { q = own == 2 ? new Payload(10) : new Payload(); c = (uint8_t*) malloc(used ? used : 1); memcpy(c, p->getRowData(), used); q->setRowData(c, used); A(q->getLen() == used, "the length of a received payload is wrong"); sym_reach("received"); }
    for (int i = 0; i < n; i++) get(q, i, e[i].kind, e[i].v, str[i]);
    { uint16_t l = 7; A(q->get_uint32(n) == 0 && q->get_str(n, &l) == 0 && l == 0, "there is something behind the last element"); }
    p->init(); A(p->getLen() == 0, "init does not empty the payload"); delete p; if (c) { delete q; c[0] = 0; free(c); }      /* what was received is the caller's */
  } else {
    int m = sym_pick(0, sym_param("n", 6), "bytes"); uint8_t* b = sym_bytes_new(m, "payload"); uint8_t c[16]; memcpy(c, b, m); uint8_t* x = (uint8_t*) malloc(m); memcpy(x, b, m); Payload* p = new Payload(); p->setRowData(x, m);
    int i = sym_pick(0, k, "index"); unsigned o = 0; El r; r.kind = -1; unsigned s = 0; for (int j = 0; j <= i; j++) { o += s; s = o <= (unsigned) m ? ref(b + o, m - o, &r) : 0; if (!s) break; }
    if (!s) r.kind = -1;
    uint16_t l = 7; const char* q = p->get_str(i, &l);
    if (r.kind == STR) { A(q == (const char*) x + (r.s - b) && l == r.v, "a string of a received payload is not as MessagePack says"); sym_reach("string"); } else A(!q && l == 0, "there is a string where none is");
    uint32_t u = p->get_uint32(i); if (r.kind == U32 || (r.kind == I32 && b[o] < 0x80)) A(u == r.v, "a number of a received payload is not as MessagePack says");
    int32_t d = p->get_int32(i); if (r.kind == I32) { A(d == (int32_t) r.v, "a signed number of a received payload is not as MessagePack says"); sym_reach("signed"); }
    float f = p->get_float(i); if (r.kind == FLT) A(bits(f) == r.v, "a floating point number of a received payload is not as MessagePack says"); else A(bits(f) == 0, "there is a floating point number where none is");
    bool t = p->get_bool(i); if (r.kind == BOOL) A(t == !!r.v, "a truth value of a received payload is not as MessagePack says");
    uint8_t a = p->getArray(i); if (r.kind == ARR && r.v < 256) A(a == r.v, "the size of an array of a received payload is not as MessagePack says");
    if (r.kind == -1) { A(u == 0 && d == 0 && a == 0, "there is a value where none is"); sym_reach("none"); }
    A(memcmp(x, b, m) == 0, "reading a payload changes it");
  }
  sym_reach("end"); }
