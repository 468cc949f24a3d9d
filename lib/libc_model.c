// C models of string functions and qsort; linked into the symbolic module only.
#include <stddef.h>
typedef unsigned char uc;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { if (*a != *b) return (uc)*a < (uc)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return (uc)*a < (uc)*b ? -1 : 1; if (!*a) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d = *s)) { d++; s++; } return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
static int inset(char c, const char *set) { for (; *set; set++) if (*set == c) return 1; return 0; }
size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && inset(s[n], set)) n++; return n; }
size_t strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !inset(s[n], set)) n++; return n; }
char *strpbrk(const char *s, const char *set) { for (; *s; s++) if (inset(*s, set)) return (char *)s; return 0; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
static char *tokp;
char *strtok_r(char *s, const char *sep, char **p) {
  if (!s) s = *p;
  if (!s) return 0;
  while (*s && inset(*s, sep)) s++;
  if (!*s) { *p = s; return 0; }
  char *t = s;
  while (*s && !inset(*s, sep)) s++;
  if (*s) { *s = 0; *p = s + 1; } else *p = s;
  return t;
}
char *strtok(char *s, const char *sep) { return strtok_r(s, sep, &tokp); }
int memcmp(const void *a, const void *b, size_t n) { const uc *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x < *y ? -1 : 1; return 0; }
void *memchr(const void *s, int c, size_t n) { const uc *p = s; for (; n; n--, p++) if (*p == (uc)c) return (void *)p; return 0; }
extern void *malloc(size_t); extern void *__model_malloc(size_t); extern void free(void *); extern void *memcpy(void *, const void *, size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
// insertion sort, stable, using element copies
void qsort(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  char *b = base; size_t i, j;
  if (n < 2) return;
  char *t = __model_malloc(w);
  for (i = 1; i < n; i++) {
    memcpy(t, b + i * w, w);
    for (j = i; j > 0 && cmp(b + (j - 1) * w, t) > 0; j--) memcpy(b + j * w, b + (j - 1) * w, w);
    memcpy(b + j * w, t, w);
  }
  free(t);
}
