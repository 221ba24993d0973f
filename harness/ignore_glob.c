/* Patterns are concrete, paths symbolic: a rule matches exactly the paths its gitignore glob denotes.
 * Under CBMC pcre is lib/minipcre.c; counterexamples are replayed with the real library. */
#include "vp.h"
#include "vp_apr.h"
#include "ft_ignore.h"
#include <string.h>
#ifndef VP_SUBJ
#define VP_SUBJ 6
#endif
#define PMAX 24

#ifdef VP_CBMC
extern int vp_pcre_unsupported;
#else
static int vp_pcre_unsupported;
#endif

/* --- what a gitignore glob denotes --- */
enum { LIT, ANY, STAR, CLASS, DDIRS, DEND };
struct el { int k; unsigned char c; int from, to; };
static struct el e[PMAX];
static int ne, bad, neg, dironly, anchored, skip;
static const char *pat;

static int same(const char *a, const char *b, int n) { for (int k = 0; k < n; k++) if (a[k] != b[k]) return 0; return 1; }
static int posix_in(const char *name, unsigned n, unsigned char c)
{
    int up = c >= 'A' & c <= 'Z', lo = c >= 'a' & c <= 'z', dg = c >= '0' & c <= '9';
    if (n == 5 && same(name, "alpha", 5)) return up | lo;
    if (n == 5 && same(name, "digit", 5)) return dg;
    if (n == 5 && same(name, "alnum", 5)) return up | lo | dg;
    if (n == 5 && same(name, "upper", 5)) return up;
    if (n == 5 && same(name, "lower", 5)) return lo;
    if (n == 5 && same(name, "space", 5)) return c == ' ' | (c >= 9 & c <= 13);
    if (n == 6 && same(name, "xdigit", 6)) return dg | (c >= 'a' & c <= 'f') | (c >= 'A' & c <= 'F');
    return 0;
}
/* is c in the bracket expression pat[from..to) (without the brackets)? */
static int in_class(int from, int to, unsigned char c)
{
    int r = 0, inv = 0, i = from;
    if (pat[i] == '!' || pat[i] == '^') { inv = 1; i++; }
    while (i < to) {
        unsigned char lo, hi;
        if (pat[i] == '[' && pat[i + 1] == ':') {
            int k = i + 2;
            while (k < to && pat[k] != ':') k++;
            if (k + 1 < to && pat[k + 1] == ']') { r |= posix_in(pat + i + 2, k - i - 2, c); i = k + 2; continue; }
        }
        if (pat[i] == '\\' && i + 1 < to) i++;
        lo = hi = (unsigned char) pat[i++];
        if (i + 1 < to && pat[i] == '-') {
            i++;
            if (pat[i] == '\\' && i + 1 < to) i++;
            hi = (unsigned char) pat[i++];
            if (hi < lo) skip = 1;              /* a reversed range: not specified here */
        }
        r |= c >= lo & c <= hi;
    }
    return (inv ? !r : r) & c != '/';
}
static void parse(void)
{
    int i = 0, n = (int) strlen(pat), start;
    ne = bad = neg = dironly = anchored = skip = 0;
    if (pat[0] == '#') { bad = 1; return; }
    if (pat[0] == '!') { neg = 1; i++; if (pat[1] == ' ') skip = 1; }
    if (n > i && pat[n - 1] == '/') { dironly = 1; n--; }
    for (int k = i; k < n; k++) if (pat[k] == '/') anchored = 1;
    if (i < n && pat[i] == '/') i++;
    start = i;
    if (i >= n) { bad = 1; return; }
    while (i < n) {
        struct el *x = &e[ne++];
        x->c = 0; x->from = x->to = 0;
        if (pat[i] == '*') {
            int k = i;
            while (k < n && pat[k] == '*') k++;
            if (k - i > 2) skip = 1;
            if (k - i == 2 && (i == start || pat[i - 1] == '/') && k < n && pat[k] == '/') { x->k = DDIRS; i = k + 1; }
            else if (k - i == 2 && (i == start || pat[i - 1] == '/') && k == n) { x->k = DEND; i = k; }
            else { x->k = STAR; i = k; }
        }
        else if (pat[i] == '?') { x->k = ANY; i++; }
        else if (pat[i] == '[') {
            int k = i + 1;
            if (k < n && (pat[k] == '!' || pat[k] == '^')) k++;
            if (k < n && pat[k] == ']') k++;
            while (k < n && pat[k] != ']') {
                if (pat[k] == '[' && k + 1 < n && pat[k + 1] == ':') {
                    int z = k + 2;
                    while (z < n && pat[z] != ':') z++;
                    if (z + 1 < n && pat[z + 1] == ']') { k = z + 2; continue; }
                    skip = 1;
                }
                if (pat[k] == '\\') k++;
                k++;
            }
            if (k >= n) { bad = 1; if (dironly) skip = 1; return; }      /* never closed: matches nothing */
            x->k = CLASS; x->from = i + 1; x->to = k;
            in_class(x->from, x->to, 'a');
            i = k + 1;
        }
        else {
            x->k = LIT;
            if (pat[i] == '\\') {
                i++;
                if (i >= n) { skip = 1; return; }
            }
            x->c = (unsigned char) pat[i++];
        }
    }
}
static unsigned char s[VP_SUBJ + 2];
/* does the path, or for directory rules one of the directories it lies in, match? */
static int denoted(void)
{
    static unsigned char m[2][VP_SUBJ + 2];
    if (bad) return 0;
    for (int j = 0; j <= VP_SUBJ; j++) m[ne & 1][j] = s[j] == 0 | (dironly & s[j] == '/' & j > 0);
    m[0][VP_SUBJ + 1] = m[1][VP_SUBJ + 1] = 0;
    for (int i = ne - 1; i >= 0; i--) {
        unsigned char *a = m[i & 1], *b = m[(i + 1) & 1];
        for (int j = VP_SUBJ; j >= 0; j--) {
            unsigned char c = s[j];
            int name = c != 0 & c != '/';
            switch (e[i].k) {
            case LIT: a[j] = c == e[i].c & b[j + 1]; break;
            case ANY: a[j] = name & b[j + 1]; break;
            case CLASS: a[j] = c != 0 & in_class(e[i].from, e[i].to, c) & b[j + 1]; break;
            case STAR: a[j] = b[j] | (name & a[j + 1]); break;
            case DDIRS: {
                int r = b[j];
                for (int k = j + 1; k <= VP_SUBJ; k++) r |= s[k - 1] == '/' & b[k];
                a[j] = r;
                break;
            }
            case DEND: a[j] = c != 0; break;
            }
        }
    }
    int r = m[0][0];
    if (!anchored) for (int j = 1; j < VP_SUBJ; j++) r |= s[j - 1] == '/' & s[j] != 0 & m[0][j];
    return r;
}

/* --- the patterns of this unit --- */
static char text[PMAX];
#ifdef VP_LIST
static const char *const list[] = VP_LIST;
#define NPAT ((int) (sizeof list / sizeof *list))
static void make(int n) { strcpy(text, list[n]); }
#elif defined(VP_BYTES)
#define NPAT (VP_TO - VP_FROM)
static void make(int n) { text[0] = 'a'; text[1] = (char) (n + VP_FROM); text[2] = 'b'; text[3] = 0; }
#else
static const char alpha[] = VP_ALPHA;
#define NA ((int) sizeof alpha - 1)
#define NPAT (VP_TO - VP_FROM)
static void make(int n)
{
    n += VP_FROM;
    for (int i = 0; i < VP_LEN; i++) { text[i] = alpha[n % NA]; n /= NA; }
    text[VP_LEN] = 0;
}
#endif

void vp_harness(void)
{
    static char full[VP_SUBJ + 4];
    int is_dir = vp_bool(), n = 0, seen = 0, hits = 0, misses = 0;
    full[0] = 'b'; full[1] = '/';
    for (int j = 0; j < VP_SUBJ; j++) s[j] = vp_u8();
    for (int j = 0; j < VP_SUBJ; j++) {
        if (!s[j]) VP_ASSUME(j > 0 && !s[j + 1]);
        VP_ASSUME(!(s[j] == '/' && (j == 0 || s[j + 1] == '/' || s[j + 1] == 0)));
        if (s[j]) n = j + 1;
        full[j + 2] = (char) s[j];
    }
    (void) n;
    for (int k = 0; k < NPAT; k++) {
        make(k);
        pat = text;
        parse();
        if (skip) continue;
        ft_ignore_context_t *ctx = ft_ignore_context_create(vp_pool(), NULL, "b");
        apr_status_t st = ft_ignore_add_pattern_str(ctx, text);
#ifdef VP_STRICT
        VP_ASSERT(!vp_pcre_unsupported, "strict");
#endif
        if (vp_pcre_unsupported) continue;
        VP_ASSERT(bad || st == APR_SUCCESS, "a well-formed pattern is accepted");
        int want = denoted() & (is_dir | !dironly);
        ft_ignore_match_result_t got = ft_ignore_match(ctx, full, is_dir);
        VP_ASSERT(want || got == FT_IGNORE_MATCH_NONE, "a pattern matches only the paths its glob denotes");
        VP_ASSERT(!want || got == (neg ? FT_IGNORE_MATCH_WHITELISTED : FT_IGNORE_MATCH_IGNORED), "a pattern matches every path its glob denotes");
        seen++;
        hits |= want;
        misses |= !want;
    }
    VP_ASSERT(seen > 0, "the unit has patterns");
    if (hits) VP_COVER("match");
    if (misses) VP_COVER("no match");
}
