/* -i LIST through ft_config_parse_args(): exactly the names of the list are ignored, however often they are repeated. */
#include "vp.h"
#include "vp_apr.h"
#include "ft_types.h"
#include "ft_config.h"
#include "human_size.h"
#include "ft_system.h"
#include "ft_ignore.h"
#include <apr_getopt.h>
#include <apr_user.h>
#include <pcre.h>
#include <string.h>
#include "vp_nocheck.h"
#ifndef VP_LEN
#define VP_LEN 5
#endif
#define NLISTS VP_NLISTS
static char *list[NLISTS];
static unsigned step;
apr_status_t apr_getopt_init(apr_getopt_t **os, apr_pool_t *p, int argc, const char *const *argv)
{
    (void) p;
    apr_getopt_t *o = vp_zalloc(sizeof *o);
    o->argc = argc; o->argv = (const char **) argv; o->ind = 1;
    *os = o;
    return APR_SUCCESS;
}
apr_status_t apr_getopt_long(apr_getopt_t *os, const apr_getopt_option_t *opts, int *optch, const char **optarg)
{
    (void) opts;
    if (step > NLISTS) VP_ASSUME(0);
    if (step == NLISTS) { step++; os->ind = os->argc - 1; return APR_EOF; }
    *optch = 'i';
    *optarg = list[step++];
    return APR_SUCCESS;
}
apr_off_t parse_human_size(const char *s) { (void) s; return 0; }
unsigned int ft_get_cpu_cores(void) { return 7; }
const void *ft_fsize_get_key(const void *o) { return &((const ft_fsize_t *) o)->val; }
const void *ft_gids_get_key(const void *o) { return &((const ft_gid_t *) o)->val; }
apr_size_t ft_fsize_get_key_len(const void *d) { (void) d; return 8; }
apr_size_t ft_gid_get_key_len(const void *d) { (void) d; return 4; }
apr_uint32_t apr_off_t_key_hash(const void *k, apr_size_t n) { (void) k; (void) n; return 0; }
int apr_off_t_key_cmp(const void *a, const void *b, apr_size_t n) { (void) n; return a != b; }
apr_uint32_t gid_t_key_hash(const void *k, apr_size_t n) { (void) k; (void) n; return 0; }
int gid_t_key_cmp(const void *a, const void *b, apr_size_t n) { (void) n; return a != b; }
static int dummy, names_h, others_h;
ft_ignore_context_t *ft_ignore_context_create(apr_pool_t *p, ft_ignore_context_t *parent, const char *base) { (void) p; (void) parent; (void) base; return (ft_ignore_context_t *) (void *) &dummy; }
apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *c, const char *s) { (void) c; (void) s; return APR_SUCCESS; }
napr_heap_t *napr_heap_make(apr_pool_t *p, napr_heap_cmp_callback_fn_t *c) { (void) p; (void) c; return (napr_heap_t *) (void *) &dummy; }
/* The table of names; like the real one it copes with a few elements of one key (8 of them), not with more. */
#define NMAX (VP_LEN * NLISTS + 4)
static unsigned char key[NMAX][2];      /* the first two characters of each stored name; a name has no more here */
static unsigned nkeys;
napr_hash_t *napr_hash_str_make(apr_pool_t *p, apr_size_t n, apr_size_t f) { (void) p; (void) n; (void) f; return (napr_hash_t *) (void *) &names_h; }
napr_hash_t *napr_hash_make_ex(napr_hash_create_args_t *a) { (void) a; return (napr_hash_t *) (void *) &others_h; }
static int stored(unsigned char a, unsigned char b)
{
    int n = 0;
    for (unsigned i = 0; i < NMAX; i++) if (i < nkeys && key[i][0] == a && key[i][1] == b) n++;
    return n;
}
static char hit;
void *napr_hash_search(napr_hash_t *h, const void *k, apr_size_t n, apr_uint32_t *v)
{
    const unsigned char *s = k;
    if (v) *v = 1;
    if (h != (void *) &names_h) return NULL;
    VP_ASSERT(n <= 2 || VP_LEN > 5, "names are cut at the commas");
    return stored(n > 0 ? s[0] : 0, n > 1 ? s[1] : 0) ? &hit : NULL;
}
apr_status_t napr_hash_set(napr_hash_t *h, void *d, apr_uint32_t v)
{
    const unsigned char *s = d;
    (void) v;
    if (h != (void *) &names_h) return APR_SUCCESS;
    VP_ASSERT(nkeys < NMAX, "no more names are stored than were given");
    unsigned char a = s[0], b = a ? s[1] : 0;
    VP_ASSERT(!b || !s[2], "names are cut at the commas");
    VP_ASSERT(stored(a, b) < 8, "a repeated name does not overload the table");
    key[nkeys][0] = a; key[nkeys][1] = b;
    nkeys++;
    return APR_SUCCESS;
}
apr_pool_t *napr_hash_pool_get(const napr_hash_t *h) { (void) h; return vp_pool(); }
int vp_getgroups(int n, unsigned *l) { (void) n; l[0] = 4; return 1; }
unsigned vp_getegid(void) { return 5; }
apr_status_t apr_uid_current(apr_uid_t *u, apr_gid_t *g, apr_pool_t *p) { (void) p; *u = 10; *g = 11; return APR_SUCCESS; }
apr_status_t apr_uid_name_get(char **n, apr_uid_t u, apr_pool_t *p) { (void) u; (void) p; *n = "u"; return APR_SUCCESS; }
static void vp_pcre_free(void *p) { (void) p; }
void (*pcre_free)(void *) = vp_pcre_free;
pcre *pcre_compile(const char *pat, int options, const char **err, int *off, const unsigned char *t) { (void) pat; (void) options; (void) t; (void) err; (void) off; return NULL; }
char *apr_pstrdup(apr_pool_t *p, const char *s) { (void) p; char *r = vp_zalloc(VP_LEN + 1); for (int i = 0; i < VP_LEN && s[i]; i++) r[i] = s[i]; return r; }
char *apr_pstrndup(apr_pool_t *p, const char *s, apr_size_t n) { (void) p; char *r = vp_zalloc(VP_LEN + 1); for (int i = 0; i < VP_LEN; i++) if (i < (int) n) r[i] = s[i]; return r; }

void vp_harness(void)
{
    static const char *argv[] = { "ftwin", "-", "dir" };
    for (int l = 0; l < NLISTS; l++) {
        list[l] = vp_zalloc(VP_LEN + 1);
        for (int i = 0; i < VP_LEN; i++) {
#ifdef VP_COMMAS
            if (i % 2) { list[l][i] = ','; continue; }
            list[l][i] = 'a' + vp_range(0, 1);
#else
            list[l][i] = (char) vp_u8();
            VP_ASSUME(list[l][i]);
            if (i > 1) VP_ASSUME(list[l][i] == ',' || list[l][i - 1] == ',' || list[l][i - 2] == ',');
#endif
        }
    }
    ft_config_set_should_exit_on_error(0);
    ft_conf_t *conf = ft_config_create(vp_pool());
    unsigned base = nkeys;
    VP_ASSERT(stored('.', 0) == 1 && stored('.', '.') == 1 && base == 2, "the directory itself and its parent are always ignored");
    int first = -1;
    apr_status_t r = ft_config_parse_args(conf, 3, argv, &first);
    VP_ASSERT(r == APR_SUCCESS && first == 2, "an ignore list is accepted");
    unsigned given = 0;
    for (int l = 0; l < NLISTS; l++)
        for (int i = 0; i < VP_LEN; i++) {
            if (list[l][i] == ',' || (i && list[l][i - 1] != ',')) continue;
            given++;
            char b = i + 1 < VP_LEN ? list[l][i + 1] : 0;
            VP_ASSERT(stored(list[l][i], b == ',' ? 0 : b) >= 1, "every name of the list is ignored");
        }
    /* and nothing else is: every stored name is one of the list, or empty */
    unsigned q = vp_range(0, NMAX - 1);
    if (q >= base && q < nkeys && key[q][0]) {
        int found = 0;
        for (int l = 0; l < NLISTS; l++)
            for (int i = 0; i < VP_LEN; i++) {
                if (list[l][i] == ',' || (i && list[l][i - 1] != ',')) continue;
                char b = i + 1 < VP_LEN ? list[l][i + 1] : 0;
                if (key[q][0] == (unsigned char) list[l][i] && key[q][1] == (unsigned char) (b == ',' ? 0 : b)) found = 1;
            }
        VP_ASSERT(found, "only names of the list are ignored");
    }
    if (given == (VP_LEN + 1) / 2 * NLISTS) VP_COVER("all one-letter names");
}
