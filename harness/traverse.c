/* ft_traverse_path() over a small tree whose entries' kinds, attributes, filters and failures are symbolic. */
#include "vp.h"
#include "vp_apr.h"
#include "ft_types.h"
#include "ft_config.h"
#include "ft_traverse.h"
#include "ft_ignore.h"
#include "napr_heap.h"
#include "napr_hash.h"
#include <apr_file_info.h>
#include <apr_strings.h>
#include <pcre.h>
#include <string.h>
#include "vp_nocheck.h"

/* The tree: r is the path given; the others are found in it.  Paths are concrete. */
enum { R, A, B, H, AX, AS, ASY, NN };
static const char *const path_of[NN] = { "r", "r/a", "r/b", "r/.h", "r/a/x", "r/a/s", "r/a/s/y" };
static const char *const name_of[NN] = { "r", "a", "b", ".h", "x", "s", "y" };
static const int parent_of[NN] = { -1, R, R, R, A, A, AS };

static struct node {
    int type;                   /* what lstat() says */
    int target;                 /* what stat() says; -1: nothing there; APR_DIR with loop: a directory above it */
    int loop;                   /* the link leads back to the directory number loop - 1 */
    apr_off_t size;
    apr_time_t mtime;
    int user, group;
    int prot;
    int stat_fault, open_fault, incomplete;
    int by_name, ig, wl, ign;   /* filters that match this path */
    int has_ignore_file, load_fault;
} t[NN];
static int options, groups_in;
static ft_conf_t conf;
static int tok_ig, tok_wl, tok_names, tok_sizes, tok_gids, tok_heap, tok_global;
static int ctx_tok[NN];

static int same(const char *a, const char *b)
{
    for (int i = 0; i < 8; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; }
    return 0;
}
static int node(const char *path)
{
    for (int i = 0; i < NN; i++) if (same(path, path_of[i])) return i;
    VP_ASSERT(0, "only paths of the tree are examined");
    VP_ASSUME(0);
    return 0;
}
static int effective(int i) { return (options & OPTION_FSYML) && t[i].type == APR_LNK ? t[i].target : t[i].type; }

struct apr_dir_t { int node, pos, open; };
apr_status_t apr_stat(apr_finfo_t *f, const char *path, apr_int32_t wanted, apr_pool_t *p)
{
    (void) p;
    for (int i = 0; i < NN; i++) {
        /* the ignore files */
        const char *q = path_of[i];
        int k = 0;
        while (k < 6 && q[k] && q[k] == path[k]) k++;
        if (!q[k] && path[k] == '/' && path[k + 1] == '.' && path[k + 2] == 'g') {
            if (!t[i].has_ignore_file) return APR_ENOENT;
            f->filetype = t[i].has_ignore_file == 1 ? APR_REG : APR_DIR;
            f->valid = APR_FINFO_TYPE;
            return APR_SUCCESS;
        }
    }
    int i = node(path);
    if (t[i].stat_fault) return APR_EACCES;
    int link = t[i].type == APR_LNK && (wanted & APR_FINFO_LINK);
    int type = link || t[i].type != APR_LNK ? t[i].type : t[i].target;
    if (type < 0) return APR_ENOENT;
    int me = !link && t[i].loop && t[i].type == APR_LNK ? t[i].loop - 1 : i;
    f->filetype = type;
    f->valid = wanted & ~APR_FINFO_LINK;
    f->size = t[me].size;
    f->mtime = t[me].mtime;
    f->user = t[me].user;
    f->group = t[me].group;
    f->protection = t[me].prot;
    f->inode = 100 + me;
    f->device = 1;
    return APR_SUCCESS;
}
apr_status_t apr_dir_open(apr_dir_t **d, const char *path, apr_pool_t *p)
{
    (void) p;
    int i = node(path);
    VP_ASSERT(t[i].type == APR_DIR || (t[i].type == APR_LNK && (options & OPTION_FSYML)), "a link is entered only when following links");
    *d = vp_zalloc(sizeof **d);
    (*d)->node = i;
    if (t[i].open_fault) return APR_EACCES;
    (*d)->open = 1;
    return APR_SUCCESS;
}
apr_status_t apr_dir_close(apr_dir_t *d) { VP_ASSERT(d->open, "only an open directory is closed"); d->open = 0; return APR_SUCCESS; }
apr_status_t apr_dir_read(apr_finfo_t *f, apr_int32_t wanted, apr_dir_t *d)
{
    (void) wanted;
    VP_ASSERT(d->open, "only an open directory is read");
    int n = -1;
    for (int i = d->pos; i < NN; i++) if (parent_of[i] == d->node) { n = i; d->pos = i + 1; break; }
    if (n < 0) { d->pos = NN; return APR_ENOENT; }
    f->name = name_of[n];
    f->valid = APR_FINFO_NAME;
    if (t[n].incomplete) return APR_INCOMPLETE;
    f->valid |= APR_FINFO_TYPE;
    f->filetype = t[n].type;
    return APR_SUCCESS;
}
int pcre_exec(const pcre *c, const pcre_extra *e, const char *s, int len, int start, int opts, int *ov, int ovn)
{
    (void) e; (void) opts; (void) ov; (void) ovn;
    int i = node(s);
    VP_ASSERT(start == 0 && len == (int) strlen(path_of[i]), "expressions are matched against the whole path");
    if ((void *) c == &tok_ig) return t[i].ig ? 1 : -1;
    VP_ASSERT((void *) c == &tok_wl, "only the given expressions are matched");
    return t[i].wl ? 1 : -1;
}
static int ctx_ready[NN];
/* the nearest ignore file above an entry */
static void *rules_for(int i)
{
    void *want = &tok_global;
    if (i != R && ctx_ready[R]) want = &ctx_tok[R];
    if (i >= AX && ctx_ready[A]) want = &ctx_tok[A];
    if (i >= ASY && ctx_ready[AS]) want = &ctx_tok[AS];
    return want;
}
ft_ignore_context_t *ft_ignore_context_create(apr_pool_t *p, ft_ignore_context_t *parent, const char *base)
{
    (void) p;
    int i = node(base);
    VP_ASSERT((void *) parent == rules_for(i), "an ignore file's rules come after those of the directories above");
    return (ft_ignore_context_t *) (void *) &ctx_tok[i];
}
apr_status_t ft_ignore_load_file(ft_ignore_context_t *c, const char *f)
{
    int i = (void *) c == &ctx_tok[R] ? R : (void *) c == &ctx_tok[AS] ? AS : A;
    VP_ASSERT((void *) c == &ctx_tok[i] && f[0] == 'r', "the ignore file of the directory is loaded");
    if (t[i].load_fault) return APR_EACCES;
    ctx_ready[i] = 1;
    return APR_SUCCESS;
}
ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *c, const char *path, int is_dir)
{
    int i = node(path);
    VP_ASSERT(!is_dir == !(effective(i) == APR_DIR), "ignore rules are told what is a directory");
    VP_ASSERT((void *) c == rules_for(i), "a path is matched with the ignore files of its own directory and those above");
    return t[i].ign ? FT_IGNORE_MATCH_IGNORED : FT_IGNORE_MATCH_NONE;
}
/* queue and tables */
static ft_file_t *got[NN];
static int extra_files;
int napr_heap_insert(napr_heap_t *h, void *d)
{
    VP_ASSERT((void *) h == &tok_heap, "files are queued");
    ft_file_t *f = d;
    int i = node(f->path);
    if (got[i]) extra_files = 1;
    got[i] = f;
    return 0;
}
#define SMAX 6
static ft_fsize_t *sz[SMAX];
void *napr_hash_search(napr_hash_t *h, const void *k, apr_size_t n, apr_uint32_t *v)
{
    if (v) *v = 7;
    if ((void *) h == &tok_names) {
        for (int i = 0; i < NN; i++) if (same(k, name_of[i])) { VP_ASSERT(n == strlen(name_of[i]), "whole names are looked up"); return t[i].by_name ? &tok_names : NULL; }
        return NULL;
    }
    if ((void *) h == &tok_gids) return groups_in && *(const gid_t *) k == 1 ? &tok_gids : NULL;
    VP_ASSERT((void *) h == &tok_sizes && n == sizeof(apr_off_t), "sizes are looked up");
    for (int i = 0; i < SMAX; i++) if (sz[i] && sz[i]->val == *(const apr_off_t *) k) return sz[i];
    return NULL;
}
apr_status_t napr_hash_set(napr_hash_t *h, void *d, apr_uint32_t v)
{
    VP_ASSERT((void *) h == &tok_sizes && v == 7, "sizes are recorded under their own hash");
    ft_fsize_t *s = d;
    VP_ASSERT(s->nb_checksumed == 0 && s->chksum_array == NULL && s->nb_files <= 1, "a size starts without hashes");
    for (int i = 0; i < SMAX; i++) {
        if (!sz[i]) { sz[i] = s; return APR_SUCCESS; }
        VP_ASSERT(sz[i]->val != s->val, "a size is recorded once");
    }
    VP_ASSERT(0, "no more sizes than files");
    return APR_SUCCESS;
}
static char lower(char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }

static int readable(int i)
{
    int me = (options & OPTION_FSYML) && t[i].loop && t[i].type == APR_LNK ? t[i].loop - 1 : i;
    int dir = effective(i) == APR_DIR;
    int u = dir ? APR_UEXECUTE : APR_UREAD, g = dir ? APR_GEXECUTE : APR_GREAD, w = dir ? APR_WEXECUTE : APR_WREAD;
    if (conf.userid == 0) return 1;
    if (t[me].user == (int) conf.userid) return (t[me].prot & u) != 0;
    if (groups_in && t[me].group == 1) return (t[me].prot & g) != 0;
    return (t[me].prot & w) != 0;
}
static int reached(int i);
static int entered(int i)
{
    if (!reached(i) || effective(i) != APR_DIR || t[i].open_fault) return 0;
    if (i != R && !(options & OPTION_RECSD)) return 0;
    if (i != R && t[i].type == APR_LNK && t[i].loop) return 0;
    return 1;
}
/* examined and not excluded by a filter that concerns files and directories alike */
static int reached(int i)
{
    if (t[i].stat_fault || t[i].ign || effective(i) < 0 || !readable(i)) return 0;
    if (i == R) return 1;
    if (!entered(parent_of[i])) return 0;
    if (t[i].by_name || (name_of[i][0] == '.' && !(options & OPTION_SHOW_HIDDEN)) || (conf.ig_regex && t[i].ig)) return 0;
    return 1;
}
static int wanted(int i)
{
    if (!reached(i) || effective(i) != APR_REG) return 0;
    if (i != R && conf.wl_regex && !t[i].wl) return 0;
    return t[i].size >= conf.minsize && (conf.maxsize == 0 || t[i].size <= conf.maxsize);
}
void vp_harness(void)
{
    static const unsigned char kinds[] = { APR_REG, APR_DIR, APR_LNK, APR_CHR };
    for (int i = 0; i < NN; i++) {
        struct node *n = &t[i];
        n->size = (apr_off_t) vp_range(0, 3);
        n->mtime = (apr_time_t) vp_i64();
        n->user = (int) vp_range(0, 2);
        n->group = (int) vp_range(0, 1);
        n->prot = (int) vp_u16();
        n->by_name = vp_bool();
        n->ig = vp_bool();
        n->wl = vp_bool();
        n->ign = vp_bool();
        n->target = APR_REG;
        n->type = APR_REG;
#ifdef VP_TREE
        n->stat_fault = vp_bool();
        n->open_fault = vp_bool();
        n->incomplete = vp_bool();
        n->has_ignore_file = (int) vp_range(0, 2);
        n->load_fault = vp_bool();
#endif
    }
#ifdef VP_TREE
    t[R].type = APR_DIR;
#if VP_TREE == 4
    t[A].type = APR_DIR;
    t[AS].type = APR_LNK;
    t[AS].target = vp_bool() ? APR_DIR : vp_bool() ? APR_REG : -1;
    t[AS].loop = t[AS].target == APR_DIR ? (int) vp_range(0, A + 1) : 0;
#else
    t[A].type = kinds[VP_TREE];
#if VP_TREE == 1
    t[AS].type = APR_DIR;
#endif
#endif
    if (t[A].type == APR_LNK) {
        t[A].target = vp_bool() ? APR_DIR : vp_bool() ? APR_REG : -1;
        t[A].loop = t[A].target == APR_DIR && vp_bool() ? R + 1 : 0;
    }
    t[B].type = vp_bool() ? APR_LNK : APR_REG;
    t[B].target = vp_bool() ? APR_REG : -1;
#else
    t[R].type = VP_ROOT;
    t[A].type = kinds[vp_bool() ? 0 : 3];
#endif
    options = 0;
    if (vp_bool()) options |= OPTION_RECSD;
    if (vp_bool()) options |= OPTION_FSYML;
    if (vp_bool()) options |= OPTION_SHOW_HIDDEN;
    if (vp_bool()) options |= OPTION_ICASE;
    conf.mask = options;
    conf.pool = vp_pool();
    conf.heap = (napr_heap_t *) (void *) &tok_heap;
    conf.sizes = (napr_hash_t *) (void *) &tok_sizes;
    conf.gids = (napr_hash_t *) (void *) &tok_gids;
    conf.ig_files = (napr_hash_t *) (void *) &tok_names;
    conf.userid = vp_bool() ? 2 : 0;
    groups_in = vp_bool();
    conf.minsize = (apr_off_t) vp_range(0, 3);
    conf.maxsize = (apr_off_t) vp_range(0, 3);
    if (vp_bool()) conf.ig_regex = (pcre *) (void *) &tok_ig;
    if (vp_bool()) conf.wl_regex = (pcre *) (void *) &tok_wl;
    conf.respect_gitignore = 1;
    conf.global_ignores = (ft_ignore_context_t *) (void *) &tok_global;
    char *pp = NULL;
    unsigned pl = 0;
    if (vp_bool()) {
        pp = vp_zalloc(4);
        pl = vp_range(0, 3);
        for (unsigned i = 0; i < 3; i++) { char c = (char) vp_u8(); if (i < pl) { VP_ASSUME(c > 0); pp[i] = c; } }
        conf.p_path = pp;
        conf.p_path_len = pl;
    }
    apr_status_t r = ft_traverse_path(&conf, path_of[R]);
    if (!t[R].stat_fault && !(reached(R) && t[R].type == APR_DIR && t[R].open_fault)) VP_ASSERT(r == APR_SUCCESS, "a bad entry is not a failure of the scan");
    else VP_ASSERT(r != APR_SUCCESS, "an argument that cannot be examined or opened is a failure");
    VP_ASSERT(!extra_files, "a file is collected once");
    int n = 0;
    for (int i = 0; i < NN; i++) {
        int w = wanted(i);
        n += w;
        if (w) VP_ASSERT(got[i] != NULL, "a file that the filters allow is collected");
        else VP_ASSERT(got[i] == NULL, "a file that the filters exclude is not collected");
        if (!w || !got[i]) continue;
        VP_ASSERT(got[i]->size == t[i].size && got[i]->mtime == t[i].mtime, "a collected file has its own size and date");
        VP_ASSERT(got[i]->subpath == NULL && !got[i]->cvec_ok, "a collected file is a plain file");
        int pr = pp != NULL;
        for (unsigned k = 0; pp && k < 3; k++) if (k < pl) {
            char a = pp[k], b = path_of[i][k];
            if (k > strlen(path_of[i])) { pr = 0; break; }
            if (options & OPTION_ICASE ? lower(a) != lower(b) : a != b) pr = 0;
        }
        VP_ASSERT(!got[i]->prioritized == !pr, "a collected file has priority exactly when it is under the priority path");
        unsigned same_size = 0, count = 0;
        for (int k = 0; k < NN; k++) if (wanted(k) && t[k].size == t[i].size) same_size++;
        for (int k = 0; k < SMAX; k++) if (sz[k] && sz[k]->val == t[i].size) count += sz[k]->nb_files;
        VP_ASSERT(count == same_size, "the number of files of each size is recorded");
    }
    if (n == 0) VP_COVER("nothing collected");
#ifdef VP_TREE
    if (n >= 2 && t[A].stat_fault) VP_COVER("a bad entry skipped");
#if VP_TREE == 4
    if (got[AX] && t[AS].loop == A + 1 && (options & OPTION_FSYML) && !t[AS].stat_fault && !t[AS].by_name && !t[AS].ig && !t[AS].ign) VP_COVER("loop avoided");
    if (got[ASY]) VP_COVER("link followed");
#endif
#if VP_TREE == 1
    if (got[ASY]) VP_COVER("descended twice");
    if (got[AX] && got[B]) VP_COVER("descended");
#endif
#if VP_TREE == 2
    if (got[AX] && t[A].type == APR_LNK) VP_COVER("link to a directory followed");
    if (got[B] && t[A].loop) VP_COVER("loop avoided");
#endif
#else
    if (VP_ROOT == APR_REG ? n == 1 : n == 3) VP_COVER("all collected");
#endif
}
