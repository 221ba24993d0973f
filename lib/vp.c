#include "vp.h"
#include <stdlib.h>
#include <string.h>
#ifdef VP_CBMC
uint64_t nondet_uint64_t(void);
uint32_t nondet_uint32_t(void);
uint16_t nondet_uint16_t(void);
uint8_t nondet_uint8_t(void);
uint64_t vp_log;
uint64_t vp_u64(void) { uint64_t v = nondet_uint64_t(); vp_log = v; return v; }
uint32_t vp_u32(void) { uint32_t v = nondet_uint32_t(); vp_log = v; return v; }
uint16_t vp_u16(void) { uint16_t v = nondet_uint16_t(); vp_log = v; return v; }
uint8_t vp_u8(void) { uint8_t v = nondet_uint8_t(); vp_log = v; return v; }
int64_t vp_i64(void) { return (int64_t) vp_u64(); }
int vp_int(void) { return (int) vp_u32(); }
int vp_bool(void) { uint8_t v = nondet_uint8_t(); __CPROVER_assume(v <= 1); vp_log = v; return v; }
unsigned vp_range(unsigned lo, unsigned hi) { unsigned v = nondet_uint32_t(); __CPROVER_assume(v >= lo && v <= hi); vp_log = v; return v; }
void *vp_alloc(size_t n) { return malloc(n); }
void *vp_zalloc(size_t n) { return calloc(1, n); }
#elif defined(VP_SYMX)
/* symx provides them */
#else
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
static FILE *vp_in;
static uint64_t vp_next(void)
{
    unsigned long long v = 0;
    if (!vp_in) {
        const char *f = getenv("VP_REPLAY");
        vp_in = f ? fopen(f, "r") : NULL;
        if (!vp_in) { fprintf(stderr, "no VP_REPLAY file\n"); _exit(78); }
    }
    for (;;) {
        char line[256];
        if (!fgets(line, sizeof line, vp_in)) return 0;     /* values past the failing step are irrelevant */
        if (line[0] == '#' || line[0] == '\n') continue;
        v = strtoull(line, NULL, 0);
        return v;
    }
}
uint64_t vp_u64(void) { return vp_next(); }
uint32_t vp_u32(void) { return (uint32_t) vp_next(); }
uint16_t vp_u16(void) { return (uint16_t) vp_next(); }
uint8_t vp_u8(void) { return (uint8_t) vp_next(); }
int64_t vp_i64(void) { return (int64_t) vp_next(); }
int vp_int(void) { return (int) (uint32_t) vp_next(); }
int vp_bool(void) { return vp_next() != 0; }
unsigned vp_range(unsigned lo, unsigned hi)
{
    unsigned v = (unsigned) vp_next();
    if (v < lo || v > hi) v = lo;
    return v;
}
void vp_native_assume(int c, const char *what)
{
    if (!c) { fprintf(stderr, "VP-ASSUME-FALSE %s\n", what); fflush(NULL); _exit(77); }
}
void vp_native_assert(int c, const char *msg, const char *file, int line)
{
    if (!c) { fprintf(stderr, "VP-ASSERT-FAILED %s (%s:%d)\n", msg, file, line); fflush(NULL); _exit(42); }
}
void *vp_alloc(size_t n)
{
    void *p = malloc(n ? n : 1);
    const char *f = getenv("VP_FILL");
    if (!p) _exit(79);
    if (f && f[0] == 'm') {
        /* varied content, different in every block */
        static unsigned x = 12345;
        for (size_t i = 0; i < n; i++) { x = x * 1103515245u + 12345u; ((unsigned char *) p)[i] = (unsigned char) (x >> 16); }
    } else if (!f || f[0] != 'n')
        memset(p, f ? (int) strtol(f, NULL, 0) : 0xA5, n);
    return p;
}
void *vp_zalloc(size_t n) { void *p = calloc(1, n ? n : 1); if (!p) _exit(79); return p; }
void vp_harness(void);
int main(void) { vp_harness(); fprintf(stderr, "VP-OK\n"); return 0; }
#endif
/* character classes of the C locale; the argument must be an unsigned char or EOF */
static int vp_ct(int c) { VP_ASSERT(c >= -1 && c <= 255, "argument of a character class function is an unsigned char"); return c; }
int vp_isspace(int c) { vp_ct(c); return c == ' ' || (c >= 9 && c <= 13); }
int vp_isdigit(int c) { vp_ct(c); return c >= '0' && c <= '9'; }
int vp_isupper(int c) { vp_ct(c); return c >= 'A' && c <= 'Z'; }
int vp_islower(int c) { vp_ct(c); return c >= 'a' && c <= 'z'; }
int vp_isalpha(int c) { return vp_isupper(c) || vp_islower(c); }
int vp_isalnum(int c) { return vp_isalpha(c) || vp_isdigit(c); }
int vp_isprint(int c) { vp_ct(c); return c >= 32 && c < 127; }
int vp_isgraph(int c) { vp_ct(c); return c > 32 && c < 127; }
int vp_ispunct(int c) { return vp_isgraph(c) && !vp_isalnum(c); }
int vp_isxdigit(int c) { return vp_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int vp_isblank(int c) { vp_ct(c); return c == ' ' || c == 9; }
int vp_iscntrl(int c) { vp_ct(c); return (c >= 0 && c < 32) || c == 127; }
int vp_toupper(int c) { return vp_islower(c) ? c - 32 : c; }
int vp_tolower(int c) { return vp_isupper(c) ? c + 32 : c; }
