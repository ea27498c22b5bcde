/* C library functions that must see symbolic bytes; compiled to bitcode and instrumented as well. */
#include <stddef.h>
#include <errno.h>
typedef unsigned char uc;
int __symstub_memcmp(const void *a, const void *b, size_t n) { const uc *x = (const uc *)a, *y = (const uc *)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int __symstub_bcmp(const void *a, const void *b, size_t n) { const uc *x = (const uc *)a, *y = (const uc *)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return 1; return 0; }
void *__symstub_memchr(const void *a, int c, size_t n) { const uc *x = (const uc *)a; for (size_t i = 0; i < n; ++i) if (x[i] == (uc)c) return (void *)(x + i); return 0; }
size_t __symstub_strlen(const char *a) { size_t n = 0; while (a[n]) ++n; return n; }
int __symstub_strcmp(const char *a, const char *b) { for (;; ++a, ++b) { uc x = (uc)*a, y = (uc)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int __symstub_strncmp(const char *a, const char *b, size_t n) { for (; n; ++a, ++b, --n) { uc x = (uc)*a, y = (uc)*b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *__symstub_strchr(const char *a, int c) { for (;; ++a) { if (*a == (char)c) return (char *)a; if (!*a) return 0; } }
int __symstub_isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int __symstub_isdigit(int c) { return (c >= '0') & (c <= '9'); }
int __symstub_isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int __symstub_islower(int c) { return (c >= 'a') & (c <= 'z'); }
int __symstub_isalpha(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
int __symstub_isalnum(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')); }
int __symstub_isxdigit(int c) { return ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')) | ((c >= '0') & (c <= '9')); }
int __symstub_isprint(int c) { return (c >= 32) & (c < 127); }
int __symstub_ispunct(int c) { return __symstub_isprint(c) & !__symstub_isalnum(c) & (c != ' '); }
int __symstub_toupper(int c) { return __symstub_islower(c) ? c - 32 : c; }
int __symstub_tolower(int c) { return __symstub_isupper(c) ? c + 32 : c; }
static int digitval(uc c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
long __symstub_strtol(const char *s, char **end, int base) {
  const char *p = s; while (__symstub_isspace((uc)*p)) ++p;
  int neg = 0; if (*p == '-') { neg = 1; ++p; } else if (*p == '+') ++p;
  if (base == 0) base = 10;
  unsigned long v = 0; int any = 0;
  for (;;) { int d = digitval((uc)*p); if (d >= base) break; v = v * (unsigned long)base + (unsigned long)d; any = 1; ++p; }
  if (end) *end = (char *)(any ? p : s);
  return neg ? -(long)v : (long)v;
}
unsigned long __symstub_strtoul(const char *s, char **end, int base) { return (unsigned long)__symstub_strtol(s, end, base); }
long long __symstub_strtoll(const char *s, char **end, int base) { return __symstub_strtol(s, end, base); }
unsigned long long __symstub_strtoull(const char *s, char **end, int base) { return (unsigned long long)__symstub_strtol(s, end, base); }
int __symstub_atoi(const char *s) { return (int)__symstub_strtol(s, 0, 10); }
/* Decimal numbers with at most 15 significant digits and a small exponent: mantissa and power of ten
   are exact doubles, so one multiplication or division rounds correctly. */
double __symstub_strtod(const char *s, char **end) {
  const char *p = s; while (__symstub_isspace((uc)*p)) ++p;
  int neg = 0; if (*p == '-') { neg = 1; ++p; } else if (*p == '+') ++p;
  if (*p == 'i' && p[1] == 'n' && p[2] == 'f') { if (end) *end = (char *)p + 3; return neg ? -__builtin_inf() : __builtin_inf(); }
  if (*p == 'n' && p[1] == 'a' && p[2] == 'n') { if (end) *end = (char *)p + 3; return __builtin_nan(""); }
  long v = 0; int any = 0, ex = 0;
  for (;; ++p) { uc c = (uc)*p; if (!__symstub_isdigit(c)) break; v = v * 10 + (c - '0'); any = 1; }
  if (*p == '.') { const char *q = p + 1; int any2 = 0; for (;; ++q) { uc c = (uc)*q; if (!__symstub_isdigit(c)) break; v = v * 10 + (c - '0'); any2 = 1; --ex; } if (any || any2) { p = q; any = 1; } }
  if (!any) { if (end) *end = (char *)s; return 0; }
  if (*p == 'e' || *p == 'E') {
    const char *q = p + 1; int en = 0; if (*q == '-') { en = 1; ++q; } else if (*q == '+') ++q;
    if (__symstub_isdigit((uc)*q)) { int e = 0; for (; __symstub_isdigit((uc)*q); ++q) e = e * 10 + (*q - '0'); ex += en ? -e : e; p = q; }
  }
  if (end) *end = (char *)p;
  double d = (double)v, t = 1;
  int n = ex < 0 ? -ex : ex;
  for (int i = 0; i < n; ++i) t *= 10;
  if (ex < 0) d /= t; else if (ex > 0) d *= t;
  return neg ? -d : d;
}
float __symstub_strtof(const char *s, char **end) { return (float)__symstub_strtod(s, end); }
