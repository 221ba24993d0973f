/* Any pattern text is taken without a memory error: the regular expression it is turned into fits where it is built. */
#include "vp.h"
#include "vp_apr.h"
#include "ft_ignore.h"
#include <string.h>
#include <pcre.h>
static const char alpha[] = VP_ALPHA;
static char code;
static int ncompiled;
pcre *pcre_compile(const char *text, int opt, const char **err, int *off, const unsigned char *tab)
{
    (void) opt; (void) tab;
    size_t n = strlen(text);
    VP_ASSERT(n > 0, "the expression is a string");
    ncompiled++;
    if (ncompiled == 2) { *err = "e"; *off = 0; return NULL; }
    return (pcre *) (void *) &code;
}
void pcre_free_stub(void *p) { (void) p; }
void (*pcre_free)(void *) = pcre_free_stub;
void vp_harness(void)
{
    ft_ignore_context_t *ctx = ft_ignore_context_create(vp_pool(), NULL, "b");
    char *t = vp_alloc(VP_K + 1);
    for (int k = 0; k < VP_K; k++) {
        unsigned char c = vp_u8();
        int a = 0;
        while (a < (int) sizeof alpha - 1 && c != (unsigned char) alpha[a]) a++;
        VP_ASSUME(a < (int) sizeof alpha - 1);
        t[k] = alpha[a];
    }
    t[VP_K] = 0;
    apr_status_t st = ft_ignore_add_pattern_str(ctx, t);
    VP_ASSERT(st == APR_SUCCESS && ctx->patterns->nelts <= 1, "a pattern adds at most one rule");
    if (ctx->patterns->nelts == 1) VP_COVER("a rule");
    int n = ctx->patterns->nelts;
    if (n == 1) {
        st = ft_ignore_add_pattern_str(ctx, t);
        VP_ASSERT(ctx->patterns->nelts == n, "a pattern that is no valid expression adds no rule");
    }
}
