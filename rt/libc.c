/* String functions executed symbolically (case split on the terminator), compiled to IR only. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
void* malloc(size_t); void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t); void* memmove(void*, const void*, size_t);
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* strcpy(char* d, const char* s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
char* stpcpy(char* d, const char* s) { size_t i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) return d + i; } }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char* strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return 0; } }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* d = malloc(n); memcpy(d, s, n); return d; }
char* strndup(const char* s, size_t n) { size_t l = strnlen(s, n); char* d = malloc(l + 1); memcpy(d, s, l); d[l] = 0; return d; }
char* strpbrk(const char* s, const char* a) { for (; *s; s++) for (const char* q = a; *q; q++) if (*q == *s) return (char*)s; return 0; }
char* strsep(char** p, const char* d) { char* s = *p; if (!s) return 0; char* e = strpbrk(s, d); if (e) *e++ = 0; *p = e; return s; }
char* strchrnul(const char* s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { const unsigned char *a = h, *b = n; if (!nn) return (void*)h; for (size_t i = 0; i + nn <= hn; i++) { size_t j = 0; while (j < nn && a[i + j] == b[j]) j++; if (j == nn) return (void*)(a + i); } return 0; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void bzero(void* d, size_t n) { memset(d, 0, n); }
void bcopy(const void* s, void* d, size_t n) { memmove(d, s, n); }
char* index(const char* s, int c) { return strchr(s, c); }
char* rindex(const char* s, int c) { return strrchr(s, c); }
size_t strlcpy(char* d, const char* s, size_t n) { size_t i = 0; for (; n && i < n - 1 && s[i]; i++) d[i] = s[i]; if (n) d[i] = 0; return strlen(s); }
size_t strlcat(char* d, const char* s, size_t n) { size_t l = strnlen(d, n); return l == n ? n + strlen(s) : l + strlcpy(d + l, s, n - l); }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
size_t strspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* q = a; while (*q && *q != s[n]) q++; if (!*q) break; } return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* q = a; while (*q && *q != s[n]) q++; if (*q) break; } return n; }
char* strtok_r(char* s, const char* d, char** sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char* e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
char* strtok(char* s, const char* d) { static char* sv; return strtok_r(s, d, &sv); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isprint(int c) { return c >= 32 && c < 127; }
int tolower(int c) { return lc(c); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static int dig(int c) { if (isdigit(c)) return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
unsigned long strtoul(const char* s, char** e, int b) {
  const char* st = s; while (isspace((unsigned char)*s)) s++; int neg = 0; if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
  if ((b == 0 || b == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && dig(s[2]) < 16) { s += 2; b = 16; } else if (b == 0) b = s[0] == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0; while (dig((unsigned char)*s) < b) { v = v * b + dig((unsigned char)*s++); any = 1; }
  if (e) *e = (char*)(any ? s : st); return neg ? -v : v; }
long strtol(const char* s, char** e, int b) { return (long)strtoul(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return (long)strtoul(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
long long atoll(const char* s) { return strtol(s, 0, 10); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
uint16_t htons(uint16_t v) { return (uint16_t)((v << 8) | (v >> 8)); }
uint16_t ntohs(uint16_t v) { return htons(v); }
uint32_t htonl(uint32_t v) { return __builtin_bswap32(v); }
uint32_t ntohl(uint32_t v) { return __builtin_bswap32(v); }
static int the_errno; int* __errno_location(void) { return &the_errno; }
char* strerror(int e) { (void)e; return (char*)"error"; }
int sprintf(char*, const char*, ...);
struct in_addr_ { uint32_t s_addr; };
char* inet_ntoa(struct in_addr_ a) { static char b[20]; uint32_t v = a.s_addr; sprintf(b, "%d.%d.%d.%d", v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24); return b; }
/* sscanf: %d %i %u %x %o %c %s %n %%, widths, h/hh/l/ll/z, assignment suppression */
int vsscanf(const char* s, const char* f, va_list ap) {
  const char* s0 = s; int r = 0;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return *s || r ? r : -1; s++; continue; }
    f++; int sup = 0, w = 0, l = 0; if (*f == '*') { sup = 1; f++; }
    while (isdigit((unsigned char)*f)) w = w * 10 + *f++ - '0';
    for (; *f == 'h' || *f == 'l' || *f == 'z'; f++) l += *f == 'h' ? -1 : *f == 'l' ? 1 : 2;
    if (*f == 'n') { *va_arg(ap, int*) = (int)(s - s0); continue; }
    if (*f != 'c') while (isspace((unsigned char)*s)) s++;
    if (*f == '%') { if (*s != '%') return *s || r ? r : -1; s++; continue; }
    if (!*s) return r ? r : -1;
    if (*f == 'c') { char* d = sup ? 0 : va_arg(ap, char*); if (!w) w = 1; for (int i = 0; i < w; i++) { if (!*s) return r; if (d) d[i] = *s; s++; } if (d) r++; continue; }
    if (*f == 's') { char* d = sup ? 0 : va_arg(ap, char*); int n = 0; while (*s && !isspace((unsigned char)*s) && (!w || n < w)) { if (d) d[n] = *s; n++; s++; } if (d) { d[n] = 0; r++; } continue; }
    int b = *f == 'd' || *f == 'u' ? 10 : *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : 0; char t[32]; int n = 0; if (!w || w > 31) w = 31;
    while (n < w && s[n] && (isalnum((unsigned char)s[n]) || s[n] == '-' || s[n] == '+')) { t[n] = s[n]; n++; }
    t[n] = 0; char* e; unsigned long v = strtoul(t, &e, b); if (e == t) return r; s += e - t;
    if (!sup) { if (l == -2) *va_arg(ap, unsigned char*) = (unsigned char)v; else if (l == -1) *va_arg(ap, unsigned short*) = (unsigned short)v; else if (l > 0) *va_arg(ap, unsigned long*) = v; else *va_arg(ap, unsigned*) = (unsigned)v; r++; }
  }
  return r;
}
int sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
void qsort(void* v, size_t n, size_t z, int (*cmp)(const void*, const void*)) {
  char* b = v; for (size_t i = 1; i < n; i++) for (size_t j = i; j && cmp(b + (j - 1) * z, b + j * z) > 0; j--) for (size_t k = 0; k < z; k++) { char t = b[(j - 1) * z + k]; b[(j - 1) * z + k] = b[j * z + k]; b[j * z + k] = t; } }
void* bsearch(const void* k, const void* v, size_t n, size_t z, int (*cmp)(const void*, const void*)) {
  size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; int c = cmp(k, (const char*)v + m * z); if (!c) return (void*)((const char*)v + m * z); if (c < 0) hi = m; else lo = m + 1; } return 0; }
