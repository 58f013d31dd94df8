/* MQTT 3.1.1 packets written from the specification */
#ifndef MQTTREF_H
#define MQTTREF_H
#include <string.h>
#include <stdint.h>
struct MB { uint8_t* b; int n; int cap; };
static void m8(MB* m, unsigned v) { m->b[m->n++] = (uint8_t)v; }
static void m16(MB* m, unsigned v) { m8(m, v >> 8); m8(m, v & 255); }
static void mraw(MB* m, const void* p, int n) { memcpy(m->b + m->n, p, n); m->n += n; }
static void mstr(MB* m, const void* p, int n) { m16(m, n); mraw(m, p, n); }
/* the fixed header: type and flags, then the remaining length, 7 bits a byte */
static void mhead(MB* m, int type, int flags, int rem) { m8(m, type << 4 | flags); do { int d = rem & 127; rem >>= 7; m8(m, d | (rem ? 128 : 0)); } while (rem); }
#endif
