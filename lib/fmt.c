/* printf-style formatting for the harnesses: flags 0 - +, width, precision of strings, d i u x X c s p %, f with up to
 * a few decimals for values that fit 64 bits. */
#include "vp.h"
#include "vp_fmt.h"
#include <stdarg.h>
#include <stddef.h>
#include <string.h>
#include <apr_strings.h>
#include <apr_pools.h>
#include "vp_nocheck.h"
#ifdef VP_CBMC
#define VA_CHAR(ap) va_arg(ap, char)      /* CBMC passes a char as a char */
#else
#define VA_CHAR(ap) va_arg(ap, int)
#endif

#ifndef VP_STRMAX
#define VP_STRMAX 64         /* longest string printed */
#endif
static void put(struct vp_sink *s, int c)
{
    if (s->buf) {
        if (s->n + 1 < s->cap) s->buf[s->n] = (char) c;
    }
    else vp_emit(c);
    s->n++;
}
static void put_num(struct vp_sink *s, uint64_t v, unsigned base, int upper, int neg, int plus, int width, int zero, int left)
{
    char tmp[24];
    int n = 0;
    do {
        unsigned d = base == 16 ? (unsigned) (v & 15) : (unsigned) (v % 10);
        tmp[n++] = (char) (d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
        v = base == 16 ? v >> 4 : v / 10;
        if (zero && !left && n < width - (neg || plus) && n < 20) continue;   /* leading zeroes come out the same way */
#ifdef VP_FITS_WIDTH
        if (zero && !left && n == width) { VP_ASSUME(v == 0); break; }
#endif
        if (v == 0) break;
    } while (n < 20);
    int sign = neg || plus;
    int pad = width - n - sign;
    if (!zero && !left) for (int i = 0; i < pad; i++) put(s, ' ');
    if (neg) put(s, '-');
    else if (plus) put(s, '+');
    if (zero && !left) for (int i = 0; i < pad; i++) put(s, '0');
    for (int i = n - 1; i >= 0; i--) put(s, tmp[i]);
    if (left) for (int i = 0; i < pad; i++) put(s, ' ');
}
void vp_vformat(struct vp_sink *s, const char *f, va_list ap)
{
    for (; *f; f++) {
        if (*f != '%') { put(s, *f); continue; }
        f++;
        int zero = 0, left = 0, plus = 0, width = 0, prec = -1, lng = 0;
        for (;; f++) {
            if (*f == '0') zero = 1;
            else if (*f == '-') left = 1;
            else if (*f == '+') plus = 1;
            else if (*f != ' ' && *f != '#') break;
        }
        if (*f == '*') { width = va_arg(ap, int); f++; }
        else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') {
            prec = 0; f++;
            if (*f == '*') { prec = va_arg(ap, int); f++; }
            else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
        }
        int half = 0;
        while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') { if (*f == 'h') half++; else lng = 1; f++; }
        if (*f == 'd' || *f == 'i') {
            int64_t v = lng ? va_arg(ap, int64_t) : (int64_t) va_arg(ap, int);
            put_num(s, v < 0 ? 0 - (uint64_t) v : (uint64_t) v, 10, 0, v < 0, plus, width, zero, left);
        }
        else if (*f == 'u' || *f == 'x' || *f == 'X') {
            uint64_t v = lng ? va_arg(ap, uint64_t) : (uint64_t) va_arg(ap, unsigned);
            if (half == 2) v &= 0xff; else if (half == 1) v &= 0xffff;
            put_num(s, v, *f == 'u' ? 10 : 16, *f == 'X', 0, 0, width, zero, left);
        }
        else if (*f == 'c') put(s, VA_CHAR(ap));
        else if (*f == 's') {
            const char *t = va_arg(ap, const char *);
            if (!t) t = "(null)";
            int n = 0;
            if (width > 0) {
                int k = 0;
                while (t[k] && (prec < 0 || k < prec)) k++;
                if (!left) for (int i = k; i < width; i++) put(s, ' ');
            }
            for (; n < VP_STRMAX && t[n] && (prec < 0 || n < prec); n++) put(s, t[n]);
            VP_ASSUME(n < VP_STRMAX || t[n] == 0);
            if (left) for (int i = n; i < width; i++) put(s, ' ');
        }
        else if (*f == 'f') {
            double d = va_arg(ap, double);
            if (prec < 0) prec = 6;
            if (d < 0) { put(s, '-'); d = -d; }
            vp_put_double(s, d, prec);
        }
        else if (*f == 'p') { (void) va_arg(ap, void *); put(s, 'P'); }
        else if (*f == '%') put(s, '%');
        else { VP_ASSERT(0, "format directive known to the stand-in"); VP_ASSUME(0); }
    }
    if (s->buf && s->cap) s->buf[s->n < s->cap ? s->n : s->cap - 1] = 0;
}
#ifndef VP_DOUBLES
void vp_put_double(struct vp_sink *s, double d, int prec) { (void) d; (void) prec; put(s, 'F'); }
#endif
#ifndef VP_PSPRINTF_MAX
#define VP_PSPRINTF_MAX 64
#endif
char *apr_pvsprintf(apr_pool_t *p, const char *fmt, va_list ap)
{
    struct vp_sink s;
    s.buf = apr_palloc(p, VP_PSPRINTF_MAX); s.cap = VP_PSPRINTF_MAX; s.n = 0;
    vp_vformat(&s, fmt, ap);
    VP_ASSUME(s.n < VP_PSPRINTF_MAX);
    return s.buf;
}
char *apr_psprintf(apr_pool_t *p, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char *r = apr_pvsprintf(p, fmt, ap);
    va_end(ap);
    return r;
}
int apr_snprintf(char *buf, apr_size_t len, const char *fmt, ...)
{
    va_list ap;
    struct vp_sink s;
    s.buf = buf; s.cap = len; s.n = 0;
    va_start(ap, fmt);
    vp_vformat(&s, fmt, ap);
    va_end(ap);
    return (int) (s.n < len ? s.n : len - 1);
}
int vp_snprintf(char *buf, size_t len, const char *fmt, ...)
{
    va_list ap;
    struct vp_sink s;
    s.buf = buf; s.cap = len; s.n = 0;
    va_start(ap, fmt);
    vp_vformat(&s, fmt, ap);
    va_end(ap);
    return (int) s.n;
}
