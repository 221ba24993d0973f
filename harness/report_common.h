/* Scanned files with concrete names and sizes and symbolic hashes, contents, priorities and comparison failures. */
#include "vp.h"
#include "vp_apr.h"
#include "vp_fmt.h"
#include "ft_types.h"
#include "ft_config.h"
#include "ft_report.h"
#include "ft_file.h"
#include "ft_archive.h"
#include "napr_heap.h"
#include "napr_hash.h"
#include "key_hash.h"
#include <string.h>
#include "vp_nocheck.h"

#ifndef VP_SIZES
#define VP_SIZES { 5, 5, 5 }
#endif
static const int vp_sizes[] = VP_SIZES;
#define N ((int) (sizeof vp_sizes / sizeof vp_sizes[0]))
#define NMAX 5

static ft_file_t files[NMAX];
static ft_fsize_t groups[NMAX];
static ft_chksum_t arrays[NMAX][NMAX];
static unsigned char cls[NMAX];         /* content class */
static unsigned char prio[NMAX];
static unsigned char fault[NMAX][NMAX]; /* comparing this pair fails */
static unsigned char xfault[NMAX];      /* extracting this archive member fails */
static char names[NMAX][2] = { "a", "b", "c", "d", "e" };
static char tmps[NMAX][2] = { "A", "B", "C", "D", "E" };
static ft_hash_t hashes[NMAX];
static ft_conf_t conf;
static int live[NMAX];                  /* extracted temporary copies that exist */
static int leftovers;

int ft_file_cmp(const void *a, const void *b)
{
    const ft_file_t *x = a, *y = b;
    return x->size < y->size ? -1 : x->size > y->size;
}
/* The table of sizes: a list (the real one is the subject of another property). */
static const void *fs_key(const void *p) { return &((const ft_fsize_t *) p)->val; }
static apr_size_t fs_len(const void *p) { (void) p; return sizeof(apr_off_t); }
static int off_cmp(const void *a, const void *b, apr_size_t n) { (void) n; return *(const apr_off_t *) a != *(const apr_off_t *) b; }
static apr_uint32_t off_hash(const void *a, apr_size_t n) { (void) n; return (apr_uint32_t) *(const apr_off_t *) a; }

static int same_content(int i, int j) { return vp_sizes[i] == vp_sizes[j] && cls[i] == cls[j]; }

static int by_path(const char *p)
{
    for (int i = 0; i < N; i++) if (p[0] == names[i][0] && p[1] == 0) return i;
    for (int i = 0; i < N; i++) if (p[0] == tmps[i][0] && p[1] == 0) { VP_ASSERT(live[i], "an extracted member is used only while it exists"); return i; }
    VP_ASSERT(0, "only the files' own paths are compared");
    return 0;
}
apr_status_t filecmp(apr_pool_t *pool, const char *f1, const char *f2, apr_off_t size, apr_off_t excess, int *result)
{
    (void) pool; (void) excess;
    int i = by_path(f1), j = by_path(f2);
    VP_ASSERT(vp_sizes[i] == size && vp_sizes[j] == size, "files are compared over their whole size");
    if (fault[i][j]) return APR_EACCES;
    *result = cls[i] == cls[j] ? 0 : (cls[i] < cls[j] ? -1 : 1);
    return APR_SUCCESS;
}
char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *p)
{
    (void) p;
    for (int i = 0; i < N; i++) if (file == &files[i]) {
        if (xfault[i]) return NULL;
        VP_ASSERT(!live[i], "a member is not extracted over its own copy");
        live[i] = 1;
        return tmps[i];
    }
    VP_ASSERT(0, "only scanned members are extracted");
    return NULL;
}
apr_status_t apr_file_remove(const char *path, apr_pool_t *p)
{
    (void) p;
    int ok = 0;
    for (int i = 0; i < N; i++) if (path[0] == tmps[i][0]) { VP_ASSERT(live[i], "an extracted copy is removed once"); live[i] = 0; ok = 1; }
    VP_ASSERT(ok, "no scanned file is removed");
    return APR_SUCCESS;
}
const char *format_human_size(apr_off_t size, apr_pool_t *pool)
{
    char *s = apr_palloc(pool, 2);
    s[0] = (char) ('0' + size); s[1] = 0;
    return s;
}
/* sorts records of the table (typed, so that pointers stay pointers) */
void vp_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    VP_ASSERT(sz == sizeof(ft_chksum_t), "the records sorted are checksum records");
    ft_chksum_t *a = base;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0; j--) {
            ft_chksum_t x = a[j - 1], y = a[j];
            if (cmp(&x, &y) > 0) { a[j - 1] = y; a[j] = x; }
        }
}

static void setup(void)
{
    for (int i = 0; i < N; i++) {
        files[i].size = vp_sizes[i];
        files[i].path = names[i];
        cls[i] = (unsigned char) vp_range(0, N - 1);
#ifndef VP_NOPRIO
        prio[i] = (unsigned char) vp_bool();
#endif
        files[i].prioritized = prio[i];
#ifdef VP_SUBPATHS
        if ((VP_SUBPATHS >> i) & 1) { files[i].subpath = "s"; xfault[i] = (unsigned char) vp_bool(); }
#endif
#ifdef VP_FIXED_HASH
        hashes[i].high64 = VP_FIXED_HASH; hashes[i].low64 = 0;
#else
        hashes[i].high64 = vp_range(0, 1);
        hashes[i].low64 = vp_range(0, 1);
#endif
    }
    /* equal files have equal hashes; different ones may collide */
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) {
        if (same_content(i, j)) VP_ASSUME(hashes[i].high64 == hashes[j].high64 && hashes[i].low64 == hashes[j].low64);
#ifndef VP_NOFAULT
        fault[i][j] = fault[j][i] = (unsigned char) vp_bool();
#endif
    }
    conf.pool = vp_pool();
    conf.excess_size = vp_range(0, 9);
    conf.heap = napr_heap_make(vp_pool(), ft_file_cmp);
    conf.sizes = napr_hash_make(vp_pool(), 4, 8, fs_key, fs_len, off_cmp, off_hash);
    int ng = 0;
    for (int i = 0; i < N; i++) {
        int g = -1;
        for (int k = 0; k < ng; k++) if (groups[k].val == vp_sizes[i]) g = k;
        if (g < 0) {
            g = ng++;
            groups[g].val = vp_sizes[i];
            groups[g].chksum_array = arrays[g];
            apr_uint32_t h = 0;
            apr_off_t key = vp_sizes[i];
            napr_hash_search(conf.sizes, &key, sizeof key, &h);
            napr_hash_set(conf.sizes, &groups[g], h);
        }
        arrays[g][groups[g].nb_files].file = &files[i];
        arrays[g][groups[g].nb_files].hash_value = hashes[i];
        groups[g].nb_files++;
        groups[g].nb_checksumed++;
        napr_heap_insert(conf.heap, &files[i]);
    }
}
/* the sets observed: set_of[i] is the number of the set file i was reported in, 0 for none */
static int set_of[NMAX];
static int prev_prio = -1;
static int in_set, nsets;

static void member(int i)
{
    VP_ASSERT(set_of[i] == 0, "a file is reported once");
    if (in_set == 0) { nsets++; prev_prio = -1; }
    set_of[i] = nsets;
    if (prev_prio == 0) VP_ASSERT(!prio[i], "prioritised files come before the others");
    prev_prio = prio[i];
    in_set++;
}
static void end_set(void)
{
    VP_ASSERT(in_set != 1, "no set of a single file");
    in_set = 0;
}
static void check_sets(void)
{
    VP_ASSERT(in_set == 0, "the last set is complete");
    for (int i = 0; i < N; i++) VP_ASSERT(!live[i], "no extracted copy is left behind");
    int clean[NMAX];
    for (int i = 0; i < N; i++) {
        clean[i] = !xfault[i];
        for (int j = 0; j < N; j++) if (j != i && same_content(i, j) && (fault[i][j] || xfault[j])) clean[i] = 0;
    }
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) {
        if (set_of[i] && set_of[i] == set_of[j]) VP_ASSERT(same_content(i, j), "files reported together are identical");
        if (same_content(i, j) && clean[i] && clean[j]) VP_ASSERT(set_of[i] && set_of[i] == set_of[j], "identical files that can be compared are reported together");
    }
    int twins = 0, f = 0;
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) { if (set_of[i] && set_of[i] == set_of[j]) twins++; f |= fault[i][j]; }
    if (twins == 1) VP_COVER("one pair");
#ifndef VP_TWO
    if (twins >= 2) VP_COVER("many twins");
    if (twins && f) VP_COVER("twins despite a failed comparison");
#endif
    if (!twins) VP_COVER("no twins");
}
