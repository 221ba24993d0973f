/* C library functions that CBMC has no body for; linked only when the sources call one of them.  Native runs use libc. */
#include <stddef.h>
#include <stdlib.h>
typedef int cmp_fn(const void *, const void *);
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char) c) return (void *) (p + i); return NULL; }
void *memrchr(const void *s, int c, size_t n) { const unsigned char *p = s; while (n > 0) { n--; if (p[n] == (unsigned char) c) return (void *) (p + n); } return NULL; }
void *rawmemchr(const void *s, int c) { const unsigned char *p = s; while (*p != (unsigned char) c) p++; return (void *) p; }
void *mempcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *) d)[i] = ((const char *) s)[i]; return (char *) d + n; }
int bcmp(const void *a, const void *b, size_t n) { for (size_t i = 0; i < n; i++) if (((const char *) a)[i] != ((const char *) b)[i]) return 1; return 0; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *stpcpy(char *d, const char *s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d + i; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char) c) s++; return (char *) s; }
static int in_set(char c, const char *set) { for (; *set; set++) if (*set == c) return 1; return 0; }
size_t strspn(const char *s, const char *set) { size_t i = 0; while (s[i] && in_set(s[i], set)) i++; return i; }
size_t strcspn(const char *s, const char *set) { size_t i = 0; while (s[i] && !in_set(s[i], set)) i++; return i; }
char *strpbrk(const char *s, const char *set) { for (; *s; s++) if (in_set(*s, set)) return (char *) s; return NULL; }
char *strstr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *) h; if (!*h) return NULL; } }
void *memmem(const void *h, size_t hn, const void *n, size_t nn)
{
    for (size_t i = 0; i + nn <= hn; i++) { size_t k = 0; while (k < nn && ((const char *) h)[i + k] == ((const char *) n)[k]) k++; if (k == nn) return (char *) h + i; }
    return NULL;
}
char *strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *r = malloc(l + 1); for (size_t i = 0; i < l; i++) r[i] = s[i]; r[l] = 0; return r; }
char *strsep(char **sp, const char *set)
{
    char *s = *sp, *p;
    if (!s) return NULL;
    for (p = s; *p && !in_set(*p, set); p++) { }
    if (*p) { *p = 0; *sp = p + 1; } else *sp = NULL;
    return s;
}
char *strtok_r(char *s, const char *set, char **save)
{
    if (!s) s = *save;
    while (*s && in_set(*s, set)) s++;
    if (!*s) { *save = s; return NULL; }
    char *p = s;
    while (*p && !in_set(*p, set)) p++;
    if (*p) { *p = 0; *save = p + 1; } else *save = p;
    return s;
}
char *strtok(char *s, const char *set) { static char *save; return strtok_r(s, set, &save); }
int strcoll(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char) *a - (unsigned char) *b; }
void *reallocarray(void *p, size_t n, size_t m) { return realloc(p, n * m); }
void qsort(void *base, size_t n, size_t sz, cmp_fn *cmp)
{
    char *b = base;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--)
            for (size_t k = 0; k < sz; k++) { char t = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = b[j * sz + k]; b[j * sz + k] = t; }
}
void *bsearch(const void *key, const void *base, size_t n, size_t sz, cmp_fn *cmp)
{
    const char *b = base;
    for (size_t i = 0; i < n; i++) if (cmp(key, b + i * sz) == 0) return (void *) (b + i * sz);
    return NULL;
}
