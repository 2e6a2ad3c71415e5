/* C models of libc functions, executed symbolically (prefix m_). */
#include <stddef.h>
#include <stdlib.h>
typedef unsigned char uc;
size_t m_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t m_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int m_strcmp(const char *a, const char *b) { for (;; a++, b++) { if (*(uc *)a != *(uc *)b) return *(uc *)a < *(uc *)b ? -1 : 1; if (!*a) return 0; } }
int m_strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*(uc *)a != *(uc *)b) return *(uc *)a < *(uc *)b ? -1 : 1; if (!*a) return 0; } return 0; }
static int lo_(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int m_strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = lo_(*(uc *)a), y = lo_(*(uc *)b); if (x != y) return x - y; if (!x) return 0; } }
int m_strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = lo_(*(uc *)a), y = lo_(*(uc *)b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int m_memcmp(const void *a, const void *b, size_t n) { const uc *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int m_bcmp(const void *a, const void *b, size_t n) { return m_memcmp(a, b, n); }
void *m_memchr(const void *a, int c, size_t n) { const uc *x = a; for (size_t i = 0; i < n; i++) if (x[i] == (uc)c) return (void *)(x + i); return 0; }
char *m_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *m_strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *m_strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *m_stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *m_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *m_strcat(char *d, const char *s) { m_strcpy(d + m_strlen(d), s); return d; }
char *m_strncat(char *d, const char *s, size_t n) { char *p = d + m_strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char *m_strdup(const char *s) { size_t n = m_strlen(s) + 1; char *p = malloc(n); if (p) for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
char *m_strstr(const char *h, const char *n) { size_t k = m_strlen(n); for (;; h++) { if (!m_strncmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
size_t m_strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && m_strchr(a, s[n])) n++; return n; }
size_t m_strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !m_strchr(a, s[n])) n++; return n; }
int m_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int m_tolower(int c) { return lo_(c); }
int m_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int m_isdigit(int c) { return c >= '0' && c <= '9'; }
int m_isalnum(int c) { return m_isalpha(c) || m_isdigit(c); }
int m_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int m_islower(int c) { return c >= 'a' && c <= 'z'; }
int m_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int m_isxdigit(int c) { return m_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
/* ctype tables, C locale */
static unsigned short mm_ctb[384]; static int mm_ctu[384], mm_ctl[384]; static const unsigned short *mm_ctbp; static const int *mm_ctup, *mm_ctlp;
const unsigned short **m___ctype_b_loc(void) { for (int i = 0; i < 128; i++) { unsigned short v = 0; if (m_isupper(i)) v |= 0x100; if (m_islower(i)) v |= 0x200; if (m_isalpha(i)) v |= 0x400; if (m_isdigit(i)) v |= 0x800; if (m_isxdigit(i)) v |= 0x1000; if (m_isspace(i)) v |= 0x2000; if (i >= 32 && i < 127) v |= 0x4000; if (i > 32 && i < 127) v |= 0x8000; if (i == 32 || i == 9) v |= 1; if (i < 32 || i == 127) v |= 2; if (i > 32 && i < 127 && !m_isalnum(i)) v |= 4; if (m_isalnum(i)) v |= 8; mm_ctb[128 + i] = v; } mm_ctbp = mm_ctb + 128; return &mm_ctbp; }
const int **m___ctype_toupper_loc(void) { for (int i = 0; i < 384; i++) mm_ctu[i] = m_toupper(i - 128); mm_ctup = mm_ctu + 128; return &mm_ctup; }
const int **m___ctype_tolower_loc(void) { for (int i = 0; i < 384; i++) mm_ctl[i] = lo_(i - 128); mm_ctlp = mm_ctl + 128; return &mm_ctlp; }
void *m_bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { size_t l = 0, u = n; while (l < u) { size_t i = (l + u) / 2; const void *p = (const char *)base + i * sz; int c = cmp(key, p); if (c < 0) u = i; else if (c > 0) l = i + 1; else return (void *)p; } return 0; }
/* less usual ones */
char *m_strndup(const char *s, size_t m) { size_t n = m_strnlen(s, m); char *p = malloc(n + 1); if (p) { for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; } return p; }
void *m_reallocarray(void *p, size_t n, size_t m) { return realloc(p, n * m); }
void *m_aligned_alloc(size_t a, size_t n) { return malloc(n); }
void *m_mempcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((uc *)d)[i] = ((const uc *)s)[i]; return (uc *)d + n; }
void *m_memrchr(const void *a, int c, size_t n) { const uc *x = a; while (n--) if (x[n] == (uc)c) return (void *)(x + n); return 0; }
char *m_strpbrk(const char *s, const char *a) { for (; *s; s++) if (m_strchr(a, *s)) return (char *)s; return 0; }
char *m_strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *m_stpncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; size_t r = i; for (; i < n; i++) d[i] = 0; return d + r; }
char *m_strcasestr(const char *h, const char *n) { size_t k = m_strlen(n); for (;; h++) { if (!m_strncasecmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
long m_strtol(const char *s, char **e, int b) { const char *p = s; int neg = 0, any = 0; unsigned long v = 0; while (m_isspace(*(uc *)p)) p++; if (*p == '-' || *p == '+') neg = *p++ == '-'; if ((b == 0 || b == 16) && p[0] == '0' && (p[1] | 32) == 'x' && m_isxdigit((uc)p[2])) p += 2, b = 16; else if (b == 0) b = *p == '0' ? 8 : 10;
  for (;; p++) { int d = m_isdigit((uc)*p) ? *p - '0' : m_isalpha((uc)*p) ? (*p | 32) - 'a' + 10 : 99; if (d >= b) break; v = v * b + d; any = 1; } if (e) *e = (char *)(any ? p : s); return neg ? -(long)v : (long)v; }
unsigned long m_strtoul(const char *s, char **e, int b) { return (unsigned long)m_strtol(s, e, b); }
int m_atoi(const char *s) { return (int)m_strtol(s, 0, 10); }
void m_qsort(void *base, size_t n, size_t z, int (*cmp)(const void *, const void *)) { uc *b = base; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * z, b + j * z) > 0; j--) for (size_t k = 0; k < z; k++) { uc t = b[(j - 1) * z + k]; b[(j - 1) * z + k] = b[j * z + k]; b[j * z + k] = t; } }
char *m_getenv(const char *n) { return 0; }
int m_isprint(int c) { return c >= 32 && c < 127; }
int m_ispunct(int c) { return m_isprint(c) && c != 32 && !m_isalnum(c); }
int m_iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int m_isblank(int c) { return c == 32 || c == 9; }
/* one thread at a time */
int m_pthread_mutex_lock(void *m) { return 0; }
int m_pthread_mutex_unlock(void *m) { return 0; }
int m_pthread_mutex_init(void *m, void *a) { return 0; }
int m_pthread_mutex_destroy(void *m) { return 0; }
int m_pthread_once(int *o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
int m___cxa_guard_acquire(char *g) { return !*g; }
void m___cxa_guard_release(char *g) { *g = 1; }
void m___cxa_guard_abort(char *g) { }
