/* ft_config_parse_args() on any sequence of VP_STEPS documented options: the settings are those documented. */
#include "vp.h"
#include "vp_apr.h"
#include "ft_types.h"
#include "ft_config.h"
#include "human_size.h"
#include "ft_system.h"
#include "ft_ignore.h"
#include <apr_getopt.h>
#include <apr_user.h>
#include <pcre.h>
#include <string.h>
#include "vp_nocheck.h"
#ifndef VP_STEPS
#define VP_STEPS 3
#endif
/* the options as the manual documents them */
static const struct { const char *name; char ch; int arg; } doc[] = {
    { "hidden", 'a', 0 }, { "case-unsensitive", 'c', 0 }, { "display-size", 'd', 0 }, { "dry-run", 'n', 0 }, { "regex-ignore-file", 'e', 1 },
    { "follow-symlink", 'f', 0 }, { "help", 'h', 0 }, { "image-cmp", 'I', 0 }, { "image-threshold", 'T', 1 }, { "json", 'J', 0 },
    { "minimal-length", 'm', 1 }, { "max-size", 'M', 1 }, { "optimize-memory", 'o', 0 }, { "priority-path", 'p', 1 }, { "recurse-subdir", 'r', 0 },
    { "no-recurse", 'R', 0 }, { "separator", 's', 1 }, { "tar-cmp", 't', 0 }, { "threads", 'j', 1 }, { "verbose", 'v', 0 }, { "version", 'V', 0 },
    { "whitelist-regex-file", 'w', 1 }, { "excessive-size", 'x', 1 },
};
#define NDOC (sizeof doc / sizeof doc[0])
static unsigned choice[VP_STEPS];
static char *args[VP_STEPS];
static int64_t sizes[VP_STEPS];
#define steps VP_STEPS
static unsigned step;
static int by_long;             /* options come by their long names rather than by their letters */
static int bad_option;          /* the option list ends with one that is unknown */
static int no_files;
static int letter[NDOC];

apr_status_t apr_getopt_init(apr_getopt_t **os, apr_pool_t *p, int argc, const char *const *argv)
{
    (void) p;
    apr_getopt_t *o = vp_zalloc(sizeof *o);
    o->argc = argc;
    o->argv = (const char **) argv;
    o->ind = 1;
    *os = o;
    return APR_SUCCESS;
}
apr_status_t apr_getopt_long(apr_getopt_t *os, const apr_getopt_option_t *opts, int *optch, const char **optarg)
{
    if (step == 0)
        for (unsigned d = 0; d < NDOC; d++) {
            int found = 0;
            for (unsigned k = 0; opts[k].name || opts[k].optch; k++) {
                if (by_long ? opts[k].name && !strcmp(opts[k].name, doc[d].name) : opts[k].optch == doc[d].ch) {
                    VP_ASSERT(!found, "an option is listed once");
                    found = 1;
                    VP_ASSERT(!!opts[k].has_arg == doc[d].arg, "an option takes an argument exactly when documented");
                    letter[d] = opts[k].optch;
                }
            }
            VP_ASSERT(found, "every documented option is known");
        }
    if (step > steps) { VP_ASSERT(0, "no option is asked for after the last one"); VP_ASSUME(0); }
    if (step == steps) {
        step++;
        os->ind = no_files ? os->argc : os->argc - 1;
        return bad_option ? APR_BADCH : APR_EOF;
    }
    unsigned c = choice[step];
    *optch = letter[c];
    *optarg = args[step];
    step++;
    return APR_SUCCESS;
}
apr_off_t parse_human_size(const char *s)
{
    VP_ASSERT(step > 0 && s[0] == args[step - 1][0] && s[1] == args[step - 1][1], "a size is read from the option's argument");
    return sizes[step - 1];
}
char *apr_pstrdup(apr_pool_t *p, const char *s) { (void) p; return (char *) s; }
char *apr_pstrndup(apr_pool_t *p, const char *s, apr_size_t n) { (void) p; (void) n; return (char *) s; }
unsigned int ft_get_cpu_cores(void) { return 7; }
const void *ft_fsize_get_key(const void *o) { return &((const ft_fsize_t *) o)->val; }
const void *ft_gids_get_key(const void *o) { return &((const ft_gid_t *) o)->val; }
apr_size_t ft_fsize_get_key_len(const void *d) { (void) d; return 8; }
apr_size_t ft_gid_get_key_len(const void *d) { (void) d; return 4; }
apr_uint32_t apr_off_t_key_hash(const void *k, apr_size_t n) { (void) k; (void) n; return 0; }
int apr_off_t_key_cmp(const void *a, const void *b, apr_size_t n) { (void) n; return a != b; }
apr_uint32_t gid_t_key_hash(const void *k, apr_size_t n) { (void) k; (void) n; return 0; }
int gid_t_key_cmp(const void *a, const void *b, apr_size_t n) { (void) n; return a != b; }
static int dummy;
ft_ignore_context_t *ft_ignore_context_create(apr_pool_t *p, ft_ignore_context_t *parent, const char *base) { (void) p; (void) parent; (void) base; return (ft_ignore_context_t *) (void *) &dummy; }
apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *c, const char *s) { (void) c; (void) s; return APR_SUCCESS; }
napr_heap_t *napr_heap_make(apr_pool_t *p, napr_heap_cmp_callback_fn_t *c) { (void) p; (void) c; return (napr_heap_t *) (void *) &dummy; }
napr_hash_t *napr_hash_str_make(apr_pool_t *p, apr_size_t n, apr_size_t f) { (void) p; (void) n; (void) f; return (napr_hash_t *) (void *) &dummy; }
napr_hash_t *napr_hash_make_ex(napr_hash_create_args_t *a) { (void) a; return (napr_hash_t *) (void *) &dummy; }
void *napr_hash_search(napr_hash_t *h, const void *k, apr_size_t n, apr_uint32_t *v) { (void) h; (void) k; (void) n; if (v) *v = 0; return NULL; }
apr_status_t napr_hash_set(napr_hash_t *h, void *d, apr_uint32_t v) { (void) h; (void) d; (void) v; return APR_SUCCESS; }
apr_pool_t *napr_hash_pool_get(const napr_hash_t *h) { (void) h; return vp_pool(); }
int vp_getgroups(int n, unsigned *list) { (void) n; list[0] = 4; return 1; }
unsigned vp_getegid(void) { return 5; }
apr_status_t apr_uid_current(apr_uid_t *u, apr_gid_t *g, apr_pool_t *p) { (void) p; *u = 10; *g = 11; return APR_SUCCESS; }
apr_status_t apr_uid_name_get(char **n, apr_uid_t u, apr_pool_t *p) { (void) u; (void) p; *n = "u"; return APR_SUCCESS; }

struct vpre { char c0, c1; int opts; };
static void vp_pcre_free(void *p) { (void) p; }
void (*pcre_free)(void *) = vp_pcre_free;
static int bad_regex;           /* expressions do not compile */
pcre *pcre_compile(const char *pat, int options, const char **err, int *off, const unsigned char *t)
{
    (void) t;
    if (bad_regex) { *err = "bad"; *off = 0; return NULL; }
    struct vpre *r = vp_alloc(sizeof *r);
    r->c0 = pat[0]; r->c1 = pat[0] ? pat[1] : 0; r->opts = options;
    return (pcre *) (void *) r;
}

/* what the documentation says the settings are */
static struct { unsigned mask; int64_t min, max, excess; long threads; char sep; double thr; int pp, ig, wl, ar, wl_image; } want;
static int reject, informational;
static void expect(void)
{
    want.mask = OPTION_RECSD; want.excess = 50LL * 1024 * 1024; want.threads = 7; want.sep = '\n';
    want.thr = PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD;
    want.pp = want.ig = want.wl = -1;
    for (unsigned s = 0; s < VP_STEPS; s++) {
        if (s >= steps || reject || informational) break;
        const char *a = args[s];
        switch (doc[choice[s]].ch) {
        case 'a': want.mask |= OPTION_SHOW_HIDDEN; break;
        case 'c': want.mask |= OPTION_ICASE; break;
        case 'd': want.mask |= OPTION_SIZED; break;
        case 'n': want.mask |= OPTION_DRY_RUN; break;
        case 'e': want.ig = (int) s; break;
        case 'f': want.mask |= OPTION_FSYML; break;
        case 'h': case 'V': informational = 1; break;
        case 'I': want.mask |= OPTION_ICASE | OPTION_PUZZL; want.wl_image = 1; break;
        case 'T':
            if (a[0] == '1') want.thr = PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD;
            else if (a[0] == '2') want.thr = PUZZLE_CVEC_SIMILARITY_LOW_THRESHOLD;
            else if (a[0] == '3') want.thr = 0.5;
            else if (a[0] == '4') want.thr = PUZZLE_CVEC_SIMILARITY_THRESHOLD;
            else if (a[0] == '5') want.thr = PUZZLE_CVEC_SIMILARITY_HIGH_THRESHOLD;
            else reject = 1;
            break;
        case 'J': want.mask |= OPTION_JSON; break;
        case 'm': want.min = sizes[s]; if (sizes[s] < 0) reject = 1; break;
        case 'M': want.max = sizes[s]; if (sizes[s] < 0) reject = 1; break;
        case 'x': want.excess = sizes[s]; if (sizes[s] < 0) reject = 1; break;
        case 'o': want.mask |= OPTION_OPMEM; break;
        case 'p': want.pp = (int) s; break;
        case 'r': want.mask |= OPTION_RECSD; break;
        case 'R': want.mask &= ~(unsigned) OPTION_RECSD; break;
        case 's': want.sep = a[0]; break;
        case 't': want.mask |= OPTION_UNTAR; want.ar = 1; break;
        case 'j': {
            long v = 0; int ok = a[0] != 0;
            for (int i = 0; i < 3 && a[i]; i++) { if (a[i] < '0' || a[i] > '9') ok = 0; else v = v * 10 + (a[i] - '0'); }
            if (!ok || v < 1 || v > 256) reject = 1;
            want.threads = v;
            break;
        }
        case 'v': want.mask |= OPTION_VERBO; break;
        case 'w': want.wl = (int) s; break;
        default: break;
        }
    }
    if (want.mask & OPTION_JSON) want.mask &= ~(unsigned) OPTION_VERBO;
    if (!informational && (bad_option || no_files)) reject = 1;
    if (!informational && bad_regex && (want.ig >= 0 || want.wl >= 0 || want.wl_image || want.ar)) reject = 1;
}
void vp_exit(int code)
{
    VP_ASSERT(reject || informational, "the program ends only for a rejected or informational option");
    if (reject) VP_ASSERT(code != 0, "a rejected option ends the program with a failure");
    else VP_ASSERT(code == 0, "an informational option ends the program with success");
    VP_ASSUME(0);
}
void vp_harness(void)
{
    static const char *argv[] = { "ftwin", "-", "dir" };
    for (unsigned s = 0; s < VP_STEPS; s++) {
        choice[s] = vp_range(0, NDOC - 1);
        args[s] = vp_zalloc(4);
        for (int i = 0; i < 3; i++) { args[s][i] = (char) vp_u8(); VP_ASSUME(args[s][i] != '.' && args[s][i] != ' ' && args[s][i] != '+' && !(args[s][i] >= 9 && args[s][i] <= 13)); }
        sizes[s] = vp_i64();
    }
    by_long = VP_BY_LONG;
    bad_option = vp_bool();
    no_files = vp_bool();
    bad_regex = vp_bool();
    expect();
    ft_config_set_should_exit_on_error(vp_bool());
    ft_conf_t *conf = ft_config_create(vp_pool());
    int first = -1;
    apr_status_t r = ft_config_parse_args(conf, 3, argv, &first);
    if (reject) VP_ASSERT(r != APR_SUCCESS, "invalid values, expressions and options are rejected");
    else if (!informational) {
        VP_ASSERT(r == APR_SUCCESS, "valid options are accepted");
        VP_ASSERT(first == 2, "the files follow the options");
        VP_ASSERT(conf->mask == want.mask, "switches are set exactly as documented");
        VP_ASSERT(conf->minsize == want.min && conf->maxsize == want.max, "size limits are those given");
        VP_ASSERT(conf->excess_size == want.excess, "the mapping threshold is the one given");
        VP_ASSERT((long) conf->num_threads == want.threads, "the number of threads is the one given");
        VP_ASSERT(conf->sep == want.sep, "the separator is the one given");
        VP_ASSERT(conf->threshold == want.thr, "the image threshold is the one given");
        VP_ASSERT(conf->respect_gitignore == 1 && conf->global_ignores != NULL, "ignore files are respected");
        VP_ASSERT((conf->p_path != NULL) == (want.pp >= 0), "a priority path is set exactly when given");
        if (want.pp >= 0 && conf->p_path) {
            const char *a = args[want.pp];
            unsigned n = a[0] ? a[1] ? a[2] ? 3 : 2 : 1 : 0;
            VP_ASSERT(conf->p_path_len == n && !strcmp(conf->p_path, a), "the priority path is the one given");
        }
        struct vpre *ig = (struct vpre *) (void *) conf->ig_regex, *wl = (struct vpre *) (void *) conf->wl_regex, *ar = (struct vpre *) (void *) conf->ar_regex;
        int icase = (want.mask & OPTION_ICASE) != 0;
        VP_ASSERT((ig != NULL) == (want.ig >= 0), "an ignore expression is set exactly when given");
        if (ig && want.ig >= 0) VP_ASSERT(ig->c0 == args[want.ig][0] && (!ig->c0 || ig->c1 == args[want.ig][1]) && !(ig->opts & PCRE_CASELESS) == !icase, "the ignore expression is the one given, with the case rule given");
        VP_ASSERT((wl != NULL) == (want.wl >= 0 || want.wl_image), "an accept expression is set exactly when asked for");
        if (wl && want.wl >= 0 && !want.wl_image) VP_ASSERT(wl->c0 == args[want.wl][0] && (!wl->c0 || wl->c1 == args[want.wl][1]) && !(wl->opts & PCRE_CASELESS) == !icase, "the accept expression is the one given, with the case rule given");
        VP_ASSERT((ar != NULL) == want.ar, "archives are recognised exactly when asked for");
        if ((conf->mask & OPTION_JSON)) VP_COVER("json");
#if VP_STEPS > 1
        if (ig && wl) VP_COVER("expressions");
#endif
        if (conf->num_threads == 256) VP_COVER("threads");
    }
    else VP_ASSERT(r != APR_SUCCESS, "an informational option stops the program");
    if (reject) VP_COVER("rejected");
    if (informational) VP_COVER("informational");
}
