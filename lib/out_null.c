/* Output that is not the subject of the property: discarded. */
#include <stdio.h>
#include <stdarg.h>
#include "vp.h"
FILE vp_out_file, vp_err_file, vp_in_file;
int vp_printf(const char *fmt, ...) { (void) fmt; return 0; }
int vp_fprintf(FILE *f, const char *fmt, ...) { (void) f; (void) fmt; return 0; }
int vp_vfprintf(FILE *f, const char *fmt, va_list ap) { (void) f; (void) fmt; (void) ap; return 0; }
int vp_fflush(FILE *f) { (void) f; return 0; }
int vp_puts(const char *s) { (void) s; return 0; }
int vp_fputs(const char *s, FILE *f) { (void) s; (void) f; return 0; }
int vp_putc(int c, FILE *f) { (void) f; return c; }
int vp_putchar(int c) { return c; }
size_t vp_fwrite(const void *p, size_t s, size_t n, FILE *f) { (void) p; (void) s; (void) f; return n; }
void vp_perror(const char *s) { (void) s; }
#ifndef VP_OWN_EXIT
void vp_exit(int code) { (void) code; VP_ASSERT(0, "the program does not exit here"); VP_ASSUME(0); }
#endif
int vp_isatty(int fd) { (void) fd; return 0; }
