/* Forced into every repository source: stdio output goes to the harness instead of the terminal. */
#ifndef VP_REDIRECT_H
#define VP_REDIRECT_H
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern FILE vp_out_file, vp_err_file, vp_in_file;
#undef stdout
#undef stderr
#undef stdin
#define stdout (&vp_out_file)
#define stderr (&vp_err_file)
#define stdin (&vp_in_file)
#include <ctype.h>
int vp_isspace(int c); int vp_isdigit(int c); int vp_isalpha(int c); int vp_isalnum(int c); int vp_isupper(int c); int vp_islower(int c); int vp_isprint(int c); int vp_ispunct(int c); int vp_isxdigit(int c); int vp_isblank(int c); int vp_iscntrl(int c); int vp_isgraph(int c);
int vp_toupper(int c); int vp_tolower(int c);
#undef isspace
#undef isdigit
#undef isalpha
#undef isalnum
#undef isupper
#undef islower
#undef isprint
#undef ispunct
#undef isxdigit
#undef isblank
#undef iscntrl
#undef isgraph
#undef toupper
#undef tolower
#define isspace vp_isspace
#define isdigit vp_isdigit
#define isalpha vp_isalpha
#define isalnum vp_isalnum
#define isupper vp_isupper
#define islower vp_islower
#define isprint vp_isprint
#define ispunct vp_ispunct
#define isxdigit vp_isxdigit
#define isblank vp_isblank
#define iscntrl vp_iscntrl
#define isgraph vp_isgraph
#define toupper vp_toupper
#define tolower vp_tolower
long vp_strtol(const char *s, char **end, int base);
long long vp_strtoll(const char *s, char **end, int base);
unsigned long vp_strtoul(const char *s, char **end, int base);
int vp_atoi(const char *s);
long vp_atol(const char *s);
#undef strtol
#undef strtoll
#undef strtoul
#undef atoi
#undef atol
#define strtol vp_strtol
#define strtoll vp_strtoll
#define strtoul vp_strtoul
#define atoi vp_atoi
#define atol vp_atol
#include <grp.h>
int vp_getgroups(int n, unsigned *list);
unsigned vp_getegid(void);
#define getgroups vp_getgroups
#define getegid vp_getegid
double vp_strtod(const char *s, char **end);
#define strtod vp_strtod
void vp_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *));
#define qsort vp_qsort
int vp_snprintf(char *buf, size_t len, const char *fmt, ...);
#undef snprintf
#define snprintf vp_snprintf
int vp_printf(const char *fmt, ...);
int vp_fprintf(FILE *f, const char *fmt, ...);
int vp_vfprintf(FILE *f, const char *fmt, va_list ap);
int vp_fflush(FILE *f);
int vp_puts(const char *s);
int vp_fputs(const char *s, FILE *f);
int vp_putc(int c, FILE *f);
int vp_putchar(int c);
size_t vp_fwrite(const void *p, size_t s, size_t n, FILE *f);
void vp_perror(const char *s);
void vp_exit(int code);
int vp_isatty(int fd);
#undef printf
#undef fprintf
#undef vfprintf
#undef fflush
#undef puts
#undef fputs
#undef putc
#undef fputc
#undef putchar
#undef fwrite
#undef perror
#define printf vp_printf
#define fprintf vp_fprintf
#define vfprintf vp_vfprintf
#define fflush vp_fflush
#define puts vp_puts
#define fputs vp_fputs
#define putc vp_putc
#define fputc vp_putc
#define putchar vp_putchar
#define fwrite vp_fwrite
#define perror vp_perror
#define exit vp_exit
#define isatty vp_isatty
#endif
