/* Instrumented models of the libc functions the code under test calls (compiled with the pass,
   so that string scanning, comparison and character classification stay symbolic). C locale. */
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
typedef unsigned char u8;
extern long strtol(const char *, char **, int);
extern double strtod(const char *, char **);
extern float strtof(const char *, char **);
extern void __sx_api_concbuf(const char *p, uint64_t n);
extern void *__sx_malloc(size_t);
size_t __sxm_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t __sxm_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int __sxm_memcmp(const void *a, const void *b, size_t n) {
  const u8 *x = a, *y = b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int __sxm_bcmp(const void *a, const void *b, size_t n) {
  const u8 *x = a, *y = b; int d = 0;
  for (size_t i = 0; i < n; i++) d |= (x[i] != y[i]);
  return d;
}
void *__sxm_memchr(const void *a, int c, size_t n) {
  const u8 *x = a;
  for (size_t i = 0; i < n; i++) if (x[i] == (u8)c) return (void *)(x + i);
  return 0;
}
void *__sxm_rawmemchr(const void *a, int c) { const u8 *x = a; while (*x != (u8)c) x++; return (void *)x; }
void *__sxm_memrchr(const void *a, int c, size_t n) { const u8 *x = a; while (n-- > 0) if (x[n] == (u8)c) return (void *)(x + n); return 0; }
int __sxm_strcmp(const char *a, const char *b) {
  const u8 *x = (const u8 *)a, *y = (const u8 *)b;
  for (;; x++, y++) { if (*x != *y) return *x < *y ? -1 : 1; if (!*x) return 0; }
}
int __sxm_strncmp(const char *a, const char *b, size_t n) {
  const u8 *x = (const u8 *)a, *y = (const u8 *)b;
  for (; n; x++, y++, n--) { if (*x != *y) return *x < *y ? -1 : 1; if (!*x) return 0; }
  return 0;
}
char *__sxm_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *__sxm_strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *__sxm_strstr(const char *h, const char *n) {
  size_t l = __sxm_strlen(n);
  for (;; h++) { if (__sxm_strncmp(h, n, l) == 0) return (char *)h; if (!*h) return 0; }
}
size_t __sxm_strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && __sxm_strchr(a, s[n])) n++; return n; }
size_t __sxm_strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !__sxm_strchr(a, s[n])) n++; return n; }
char *__sxm_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *__sxm_stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *__sxm_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *__sxm_strcat(char *d, const char *s) { __sxm_strcpy(d + __sxm_strlen(d), s); return d; }
char *__sxm_strdup(const char *s) { size_t n = __sxm_strlen(s) + 1; char *d = __sx_malloc(n); for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
char *__sxm_strtok_r(char *s, const char *d, char **save) {
  if (!s) s = *save;
  s += __sxm_strspn(s, d);
  if (!*s) { *save = s; return 0; }
  char *e = s + __sxm_strcspn(s, d);
  if (*e) *e++ = 0;
  *save = e;
  return s;
}
int __sxm_isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int __sxm_isblank(int c) { return (c == ' ') | (c == '\t'); }
int __sxm_isdigit(int c) { return (c >= '0') & (c <= '9'); }
int __sxm_isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int __sxm_islower(int c) { return (c >= 'a') & (c <= 'z'); }
int __sxm_isalpha(int c) { return __sxm_isupper(c) | __sxm_islower(c); }
int __sxm_isalnum(int c) { return __sxm_isalpha(c) | __sxm_isdigit(c); }
int __sxm_isgraph(int c) { return (c > 32) & (c < 127); }
int __sxm_isprint(int c) { return (c >= 32) & (c < 127); }
int __sxm_iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int __sxm_ispunct(int c) { return __sxm_isgraph(c) & !__sxm_isalnum(c); }
int __sxm_isxdigit(int c) { return __sxm_isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int __sxm_tolower(int c) { return __sxm_isupper(c) ? c + 32 : c; }
int __sxm_toupper(int c) { return __sxm_islower(c) ? c - 32 : c; }
static long strtol_core(const char *s, char **e, int base, int uns) {
  const char *p = s;
  while (__sxm_isspace((u8)*p)) p++;
  int neg = 0;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && __sxm_isxdigit((u8)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0, over = 0;
  for (;; p++) {
    int c = (u8)*p, d;
    if (__sxm_isdigit(c)) d = c - '0'; else if (__sxm_isalpha(c)) d = __sxm_tolower(c) - 'a' + 10; else break;
    if (d >= base) break;
    any = 1;
    unsigned long lim = ULONG_MAX;
    if (v > (lim - d) / base) over = 1;
    v = v * base + d;
  }
  if (e) *e = (char *)(any ? p : s);
  if (uns) return over ? (long)ULONG_MAX : (long)(neg ? 0 - v : v);
  if (over || v > (unsigned long)LONG_MAX + neg) return neg ? LONG_MIN : LONG_MAX;
  return neg ? (long)(0 - v) : (long)v;
}
long __sxm_strtol(const char *s, char **e, int b) { return strtol_core(s, e, b, 0); }
long long __sxm_strtoll(const char *s, char **e, int b) { return strtol_core(s, e, b, 0); }
unsigned long __sxm_strtoul(const char *s, char **e, int b) { return (unsigned long)strtol_core(s, e, b, 1); }
unsigned long long __sxm_strtoull(const char *s, char **e, int b) { return (unsigned long)strtol_core(s, e, b, 1); }
int __sxm_atoi(const char *s) { return (int)strtol_core(s, 0, 10, 0); }
long __sxm_atol(const char *s) { return strtol_core(s, 0, 10, 0); }
/* decimal floating point conversion: the characters of the numeral become concrete (one path per numeral) */
static size_t numeral(const char *s) {
  size_t n = 0;
  while (__sxm_isspace((u8)s[n])) n++;
  while (s[n] && (__sxm_isalnum((u8)s[n]) | (s[n] == '.') | (s[n] == '+') | (s[n] == '-'))) n++;
  __sx_api_concbuf(s, n + 1);
  return n;
}
double __sxm_strtod(const char *s, char **e) { numeral(s); return strtod(s, e); }
float __sxm_strtof(const char *s, char **e) { numeral(s); return strtof(s, e); }
double __sxm_atof(const char *s) { numeral(s); return strtod(s, 0); }
