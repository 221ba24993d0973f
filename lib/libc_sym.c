/* C library functions that CBMC knows by itself; for symx. */
#include <stddef.h>
#include <stdlib.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char) *a - (unsigned char) *b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char) *a - (unsigned char) *b; if (!*a) break; } return 0; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && low(*a) == low(*b)) { a++; b++; } return low((unsigned char) *a) - low((unsigned char) *b); }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (low(*a) != low(*b)) return low((unsigned char) *a) - low((unsigned char) *b); if (!*a) break; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char) c) r = s; if (!*s) return (char *) r; } }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strdup(const char *s) { char *r = malloc(strlen(s) + 1); return strcpy(r, s); }
