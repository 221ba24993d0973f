#ifndef VP_FMT_H
#define VP_FMT_H
#include <stdarg.h>
#include <stddef.h>
struct vp_sink { char *buf; size_t cap, n; };
void vp_vformat(struct vp_sink *s, const char *fmt, va_list ap);
void vp_put_double(struct vp_sink *s, double d, int prec);
void vp_emit(int c);        /* one character of standard output, given by the harness */
#endif
