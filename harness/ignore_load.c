/* ft_ignore_load_file(): the bytes of the file are symbolic (VP_K of them, out of VP_ALPHA), it may end or fail anywhere.
 * VP_REFUSE: lines with this byte are no valid patterns.  The rules that result are those of the effective lines, in order.  FTWIN_VERIF_PATTERN_LEN makes the line buffer small. */
#include "vp.h"
#include "vp_apr.h"
#include "ft_ignore.h"
#include <string.h>
#include <pcre.h>
#include <apr_file_io.h>

static const char alpha[] = VP_ALPHA;
#define K VP_K
#define MAXL FTWIN_VERIF_PATTERN_LEN
static char data[K + 1];
static int len, pos, opened, closed, fails, open_fails;
struct apr_file_t { int x; };
static struct apr_file_t the_file;
static char code;

apr_status_t apr_file_open(apr_file_t **f, const char *name, apr_int32_t flag, apr_fileperms_t perm, apr_pool_t *p)
{
    (void) perm; (void) p;
    VP_ASSERT(name[0] == 'f' && !name[1] && (flag & APR_READ) && !(flag & (APR_WRITE | APR_CREATE | APR_TRUNCATE)), "the ignore file is opened for reading");
    *f = &the_file;
    if (open_fails) return APR_ENOENT;
    opened++;
    return APR_SUCCESS;
}
apr_status_t apr_file_close(apr_file_t *f) { VP_ASSERT(f == &the_file && opened > closed, "an open file is closed"); closed++; return APR_SUCCESS; }
apr_status_t apr_file_gets(char *str, int n, apr_file_t *f)
{
    int k = 0;
    VP_ASSERT(f == &the_file && opened > closed, "the open file is read");
    if (n <= 1) return APR_SUCCESS;
    while (k < n - 1 && pos < len) {
        char c = data[pos++];
        str[k++] = c;
        if (c == '\n') break;
    }
    str[k] = 0;
    if (k) return APR_SUCCESS;
    if (fails) return APR_EGENERAL;
    return APR_EOF;
}
pcre *pcre_compile(const char *text, int opt, const char **err, int *off, const unsigned char *tab)
{
    (void) opt; (void) tab;
#ifdef VP_REFUSE
    if (strchr(text, VP_REFUSE)) { *err = "bad"; *off = 0; return NULL; }
#else
    (void) err; (void) off; (void) text;
#endif
    return (pcre *) (void *) &code;
}
void pcre_free_stub(void *p) { (void) p; }
void (*pcre_free)(void *) = pcre_free_stub;

static int blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }

void vp_harness(void)
{
    ft_ignore_context_t *ctx = ft_ignore_context_create(vp_pool(), NULL, "b");
    int nrule = 0, i = 0, nul = 0;
#ifdef VP_FAIL
    open_fails = vp_bool();
    fails = vp_bool();
#endif
#ifdef VP_EXACT
    len = K;
#else
    unsigned n = vp_range(0, K);
    for (len = 0; len < K; len++) if (n == (unsigned) len) break;
    VP_ASSUME(n == (unsigned) len);
#endif
    for (int k = 0; k < len; k++) {
        unsigned char c = vp_u8();
        int a = 0;
        /* one path per choice: the translator's branches then fold */
        while (a < (int) sizeof alpha - 1 && c != (unsigned char) alpha[a]) a++;
        VP_ASSUME(a < (int) sizeof alpha - 1);
        data[k] = alpha[a];
    }
    apr_status_t st = ft_ignore_load_file(ctx, "f");
    VP_ASSERT(opened == closed, "the file is closed");
    if (open_fails) {
        VP_ASSERT(st != APR_SUCCESS && ctx->patterns->nelts == 0, "an ignore file that cannot be opened gives an error and no rule");
#ifdef VP_FAIL
        VP_COVER("cannot open");
#endif
        return;
    }
    if (!fails) VP_ASSERT(st == APR_SUCCESS, "a readable file is loaded");
    while (i < len) {
        int e = i, a, b;
        while (e < len && data[e] != '\n') { nul |= data[e] == 0; e++; }
        a = i; b = e;
        while (a < b && blank(data[a])) a++;
        while (b > a && blank(data[b - 1])) {
            int q = b - 1;
            while (q > a && data[q - 1] == '\\') q--;
            /* a quoted blank belongs to the pattern (a carriage return that ends the line does not) */
            if ((b - 1 - q) % 2 && !(data[b - 1] == '\r' && b == e)) break;
            b--;
        }
        if (nul) return;                       /* a NUL inside a line: nothing is specified */
        int refused = 0;
#ifdef VP_REFUSE
        for (int k = a; k < b; k++) refused |= data[k] == VP_REFUSE;
        if (refused) VP_COVER("a refused line");
#endif
        if (a < b && data[a] != '#' && e - i < MAXL && !refused) {
            int same = nrule < ctx->patterns->nelts;
            if (same) {
                const char *t = APR_ARRAY_IDX(ctx->patterns, nrule, ft_ignore_pattern_t *)->pattern_str;
                for (int k = 0; k < b - a; k++) if (same && t[k] != data[a + k]) same = 0;
                if (same && t[b - a] != 0) same = 0;
            }
            if (e - i == MAXL - 1 && !same) { i = e + 1; continue; }   /* the boundary is not specified */
            VP_ASSERT(same, "every effective line is a rule, in order");
            nrule++;
            VP_COVER("a rule");
            if (nrule == 2) VP_COVER("two rules");
        }
        i = e + 1;
    }
    VP_ASSERT(nrule == ctx->patterns->nelts, "nothing else is a rule");
}
