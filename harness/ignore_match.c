/* ft_ignore_match(): a chain of ignore files with plain, negated and directory-only rules, each of which
 * matches the path or not (symbolic; a rule that does not match is as good as absent).  Rules and paths are concrete. */
#include "vp.h"
#include "vp_apr.h"
#include "ft_ignore.h"
#include <string.h>
#include <pcre.h>

static const char *const base[] = VP_BASES;     /* outermost first */
#define NC ((int) (sizeof base / sizeof *base))
static const char *const rules[] = VP_RULES;    /* P plain, N negated, D for directories, M negated for directories */
#define NR 24
static struct rule { int ctx, neg, dir, hit; char text[4]; } r[NR];
static int nr, ncompiled, nexec[NR];
static char code[NR];
static const char full[] = VP_PATH;

/* the path below the context's directory, or NULL when it is not below it */
static const char *below(int c)
{
    size_t n = strlen(base[c]);
    if (n > sizeof full || memcmp(full, base[c], n)) return NULL;
    const char *q = full + n;
    if (n && base[c][n - 1] != '/' && *q != '/' && *q) return NULL;
    while (*q == '/') q++;
    return q;
}
pcre *pcre_compile(const char *text, int opt, const char **err, int *off, const unsigned char *tab)
{
    (void) text; (void) opt; (void) err; (void) off; (void) tab;
    VP_ASSERT(ncompiled < nr, "one expression per rule");
    return (pcre *) (void *) &code[ncompiled++];
}
int pcre_exec(const pcre *p, const pcre_extra *x, const char *s, int n, int start, int opt, int *ov, int ovn)
{
    (void) x; (void) opt; (void) ov; (void) ovn;
    for (int i = 0; i < nr; i++)
        if ((char *) (void *) p == &code[i]) {
            const char *want = below(r[i].ctx);
            VP_ASSERT(want != NULL, "rules of a directory concern paths below it only");
            VP_ASSERT(want && start == 0 && n == (int) strlen(want) && !strncmp(s, want, n), "rules are matched against the path relative to their directory");
            nexec[i]++;
            if (r[i].hit == 1) return vp_range(0, 1);   /* 0: matched, no room in the vector */
            return -(int) vp_range(1, 9);               /* no match, or an error */
        }
    VP_ASSERT(0, "a rule's expression is used");
    return -1;
}
void pcre_free_stub(void *p) { (void) p; }
void (*pcre_free)(void *) = pcre_free_stub;
void (*vp_pcre_free)(void *) = pcre_free_stub;

void vp_harness(void)
{
    ft_ignore_context_t *ctx = NULL;
    int is_dir = vp_bool();
    for (int c = 0; c < NC; c++) {
        ctx = ft_ignore_context_create(vp_pool(), ctx, base[c]);
        for (int k = 0; rules[c][k]; k++) {
            struct rule *q = &r[nr++];
            q->ctx = c;
            q->neg = rules[c][k] == 'N' || rules[c][k] == 'M';
            q->dir = rules[c][k] == 'D' || rules[c][k] == 'M';
            q->hit = vp_bool();
            q->text[0] = q->neg ? '!' : 'y';
            q->text[1] = 'x';
            q->text[2] = q->dir ? '/' : 'z';
            q->text[3] = 0;
            VP_ASSERT(ft_ignore_add_pattern_str(ctx, q->text) == APR_SUCCESS, "a rule is added");
            VP_ASSERT(ncompiled == nr, "a rule has an expression");
        }
    }
    ft_ignore_match_result_t got = ft_ignore_match(ctx, full, is_dir), want = FT_IGNORE_MATCH_NONE;
    int decided = 0;
    for (int c = NC - 1; c >= 0 && !decided; c--) {
        if (!below(c)) continue;
        for (int i = 0; i < nr; i++)
            if (r[i].ctx == c && r[i].hit && (is_dir || !r[i].dir)) {
                want = r[i].neg ? FT_IGNORE_MATCH_WHITELISTED : FT_IGNORE_MATCH_IGNORED;
                decided = 1;
            }
    }
    VP_ASSERT((got == FT_IGNORE_MATCH_IGNORED) == (want == FT_IGNORE_MATCH_IGNORED), "a path is ignored exactly when the deciding rule says so");
    VP_ASSERT(got == want, "the last matching rule of the nearest ignore file decides");
    VP_ASSERT(ft_ignore_match(NULL, full, is_dir) == FT_IGNORE_MATCH_NONE, "without rules nothing is ignored");
    if (got == FT_IGNORE_MATCH_IGNORED) VP_COVER("ignored");
    if (got == FT_IGNORE_MATCH_WHITELISTED) VP_COVER("kept by a rule");
    if (got == FT_IGNORE_MATCH_NONE) VP_COVER("no rule");
}
