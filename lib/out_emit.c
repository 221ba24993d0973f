/* Standard output handed to the harness, one character at a time; standard error discarded. */
#include "vp.h"
#include "vp_fmt.h"
#include <stdio.h>
#include "vp_nocheck.h"
FILE vp_out_file, vp_err_file, vp_in_file;
int vp_printf(const char *fmt, ...)
{
    struct vp_sink s = { 0, 0, 0 };
    va_list ap;
    va_start(ap, fmt);
    vp_vformat(&s, fmt, ap);
    va_end(ap);
    return (int) s.n;
}
int vp_vfprintf(FILE *f, const char *fmt, va_list ap)
{
    struct vp_sink s = { 0, 0, 0 };
    if (f == &vp_out_file) vp_vformat(&s, fmt, ap);
    return (int) s.n;
}
int vp_fprintf(FILE *f, const char *fmt, ...)
{
    struct vp_sink s = { 0, 0, 0 };
    va_list ap;
    if (f != &vp_out_file) return 0;
    va_start(ap, fmt);
    vp_vformat(&s, fmt, ap);
    va_end(ap);
    return (int) s.n;
}
int vp_fflush(FILE *f) { (void) f; return 0; }
int vp_putchar(int c) { vp_emit(c); return c; }
int vp_putc(int c, FILE *f) { if (f == &vp_out_file) vp_emit(c); return c; }
int vp_fputs(const char *s, FILE *f) { if (f == &vp_out_file) for (; *s; s++) vp_emit(*s); return 0; }
int vp_puts(const char *s) { for (; *s; s++) vp_emit(*s); vp_emit('\n'); return 0; }
size_t vp_fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    if (f == &vp_out_file) for (size_t i = 0; i < s * n; i++) vp_emit(((const char *) p)[i]);
    return n;
}
void vp_perror(const char *s) { (void) s; }
#ifndef VP_OWN_EXIT
void vp_exit(int code) { (void) code; VP_ASSERT(0, "the program does not exit here"); VP_ASSUME(0); }
#endif
#ifndef VP_TTY
#define VP_TTY 0
#endif
int vp_isatty(int fd) { (void) fd; return VP_TTY; }
