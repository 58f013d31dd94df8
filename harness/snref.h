/* Reference encoder/decoder for MQTT-SN 1.2, written from the specification; used as the oracle. */
#ifndef SNREF_H
#define SNREF_H
#include <string.h>
#include <stdint.h>
typedef struct { uint8_t b[1200]; int n; } W;          /* message body: type byte onwards */
static inline void w8(W* w, int v) { w->b[w->n++] = (uint8_t)v; }
static inline void w16(W* w, int v) { w8(w, v >> 8); w8(w, v); }
static inline void wb(W* w, const void* p, int n) { memcpy(w->b + w->n, p, n); w->n += n; }
/* Adds the length field (one octet up to 255 octets in total, else 0x01 and two octets). Returns the total. */
static inline int wfinish(const W* w, uint8_t* out) {
  int h;
  if (w->n + 1 <= 255) { h = 1; out[0] = (uint8_t)(w->n + 1); }
  else { h = 3; out[0] = 1; out[1] = (uint8_t)((w->n + 3) >> 8); out[2] = (uint8_t)(w->n + 3); }
  memcpy(out + h, w->b, w->n); return w->n + h; }
enum { F_DUP = 0x80, F_RETAIN = 0x10, F_WILL = 0x08, F_CLEAN = 0x04 };
#define F_QOS(q) (((q) & 3) << 5)
/* message types */
enum { T_ADVERTISE = 0, T_SEARCHGW, T_GWINFO, T_CONNECT = 4, T_CONNACK, T_WILLTOPICREQ, T_WILLTOPIC, T_WILLMSGREQ, T_WILLMSG, T_REGISTER, T_REGACK, T_PUBLISH, T_PUBACK,
  T_PUBCOMP, T_PUBREC, T_PUBREL, T_SUBSCRIBE = 18, T_SUBACK, T_UNSUBSCRIBE, T_UNSUBACK, T_PINGREQ, T_PINGRESP, T_DISCONNECT, T_WILLTOPICUPD = 26, T_WILLTOPICRESP, T_WILLMSGUPD, T_WILLMSGRESP, T_ENCAP = 0xfe };
#endif
