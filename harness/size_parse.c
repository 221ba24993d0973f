/* parse_human_size() on any short text, or on any number at all followed by any text. */
#include "vp.h"
#include "vp_apr.h"
#include "human_size.h"
#include "vp_nocheck.h"
#ifndef VP_TEXT
#define VP_TEXT 4
#endif
static int ws(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int dg(int c) { return c >= '0' && c <= '9'; }
#ifdef VP_ANY_NUMBER
/* the number the text stands for: anything strtod() can return */
static double number;
double nondet_double(void);
static char text[4];
double vp_strtod(const char *s, char **end) { if (end) *end = (char *) s + 1; return number; }
void vp_harness(void)
{
    union { double d; uint64_t u; } x;
    x.u = vp_u64();
    number = x.d;
    text[0] = '7';
    text[1] = (char) vp_u8();
    text[2] = 0;
    int c = text[1];
    double mult = c == 'k' || c == 'K' ? 1024.0 : c == 'm' || c == 'M' ? 1048576.0 : c == 'g' || c == 'G' ? 1073741824.0 : c == 't' || c == 'T' ? 1099511627776.0 : 1.0;
    int unit_ok = c == 0 || mult != 1.0 || ws(c);
    apr_off_t r = parse_human_size(text);
    if (!unit_ok) VP_ASSERT(r < 0, "an unknown unit is rejected");
    else {
        if (!(number >= 0)) VP_ASSERT(r < 0 || (number > -1.0 && r == 0), "negative numbers and non-numbers are rejected");
        if (!(number < 9223372036854775808.0 / mult)) VP_ASSERT(r < 0, "a size that does not fit is rejected");
        if (number >= 0 && number < 4096.0) VP_ASSERT(r >= 0, "a size that fits is accepted");
        if (r >= 0 && number >= 0 && number * mult < 4503599627370496.0) VP_ASSERT((double) r <= number * mult && number * mult < (double) r + 1.0, "the size is the number times its unit");
    }
    if (r > 4096) VP_COVER("accepted");
    if (r < 0) VP_COVER("rejected");
    if (r < 0 && unit_ok && number > 0) VP_COVER("too large");
}
#else
/* strtod() for plain decimal text; other notations (exponents, hexadecimal, infinities) are left to the other harness */
static char text[VP_TEXT + 1];
double vp_strtod(const char *s, char **end)
{
    unsigned i = 0, neg = 0, digits = 0;
    unsigned v = 0, frac = 0, scale = 1;
    while (i < VP_TEXT && ws(s[i])) i++;
    if (s[i] == '-' || s[i] == '+') neg = s[i++] == '-';
    while (i < VP_TEXT && dg(s[i])) { v = v * 10 + (unsigned) (s[i++] - '0'); digits++; }
    if (s[i] == '.') {
        unsigned k = i + 1;
        while (k < VP_TEXT && dg(s[k])) { frac = frac * 10 + (unsigned) (s[k++] - '0'); scale *= 10; digits++; }
        if (digits) i = k;
    }
    if (!digits) { if (end) *end = (char *) s; return 0; }
    if (end) *end = (char *) s + i;
    VP_ASSUME(frac == 0);
    return neg ? -(double) v : (double) v;
}
void vp_harness(void)
{
    for (unsigned i = 0; i < VP_TEXT; i++) {
        int c = vp_u8();
        VP_ASSUME(c < 128 && c != 'e' && c != 'E' && c != 'x' && c != 'X' && c != 'i' && c != 'I' && c != 'n' && c != 'N');
        text[i] = (char) c;
    }
    apr_off_t r = parse_human_size(text);
    /* what the text says */
    unsigned i = 0, neg = 0, v = 0, digits = 0, shift = 0;
    int bad = 0;
    while (i < VP_TEXT && ws(text[i])) i++;
    if (text[i] == '-' || text[i] == '+') neg = text[i++] == '-';
    while (i < VP_TEXT && dg(text[i])) { v = v * 10 + (unsigned) (text[i++] - '0'); digits++; }
    VP_ASSUME(text[i] != '.');
    while (i < VP_TEXT && ws(text[i])) i++;
    switch (text[i]) {
    case 0: break;
    case 'k': case 'K': shift = 10; break;
    case 'm': case 'M': shift = 20; break;
    case 'g': case 'G': shift = 30; break;
    case 't': case 'T': shift = 40; break;
    default: bad = 1;
    }
    int rest = text[i] != 0 && i + 1 < VP_TEXT && text[i + 1] != 0;    /* text after the unit: not judged */
    if (!digits) VP_ASSERT(r < 0, "text without a number is rejected");
    else if (bad) VP_ASSERT(r < 0, "an unknown unit is rejected");
    else if (neg && v) VP_ASSERT(r < 0, "a negative size is rejected");
    else if (!rest) VP_ASSERT(r == (apr_off_t) ((uint64_t) v << shift), "the size is the number times its unit");
    if (digits && !bad && !neg && shift == 40 && v > 9) VP_COVER("terabytes");
    if (r < 0) VP_COVER("rejected");
    if (r == 1023) VP_COVER("bytes");
}
#endif
