/* Text to integer, base 10, for texts of up to VP_NUMMAX characters. */
#include "vp.h"
#include <apr_strings.h>
#ifndef VP_NUMMAX
#define VP_NUMMAX 8
#endif
long vp_strtol(const char *s, char **end, int base)
{
    unsigned i = 0, neg = 0, digits = 0;
    long v = 0;
    VP_ASSERT(base == 10, "decimal numbers");
    while (i < VP_NUMMAX && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++;
    if (s[i] == '-' || s[i] == '+') neg = s[i++] == '-';
    while (i < VP_NUMMAX && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (s[i++] - '0'); digits++; }
    if (end) *end = (char *) s + (digits ? i : 0);
    return neg ? -v : v;
}
long long vp_strtoll(const char *s, char **end, int base) { return vp_strtol(s, end, base); }
unsigned long vp_strtoul(const char *s, char **end, int base) { return (unsigned long) vp_strtol(s, end, base); }
int vp_atoi(const char *s) { return (int) vp_strtol(s, NULL, 10); }
long vp_atol(const char *s) { return vp_strtol(s, NULL, 10); }
apr_int64_t apr_atoi64(const char *s) { return vp_strtol(s, NULL, 10); }
apr_int64_t apr_strtoi64(const char *s, char **end, int base) { return vp_strtol(s, end, base); }
