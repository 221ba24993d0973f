/* ft_process_files(): which files reach the report, with which hash, whatever fails and in whatever order the workers run. */
#include "vp.h"
#include "vp_apr.h"
#include "ft_types.h"
#include "ft_config.h"
#include "ft_process.h"
#include "ft_file.h"
#include "ft_archive.h"
#include "napr_heap.h"
#include "napr_hash.h"
#include "napr_threadpool.h"
#include "key_hash.h"
#include <apr_file_io.h>
#include <string.h>
#include "vp_nocheck.h"

static const int vp_sizes[] = VP_SIZES;
#define N ((int) (sizeof vp_sizes / sizeof vp_sizes[0]))
#define NMAX 6
static ft_file_t files[NMAX];
static ft_fsize_t groups[NMAX];
static int group_of[NMAX], count_of[NMAX], ng;
static unsigned char fault[NMAX], xfault[NMAX];
static ft_hash_t hashes[NMAX];
static char names[NMAX][2] = { "a", "b", "c", "d", "e", "f" };
static char tmps[NMAX][2] = { "A", "B", "C", "D", "E", "F" };
static int live[NMAX];
static ft_conf_t conf;

int ft_file_cmp(const void *a, const void *b)
{
    const ft_file_t *x = a, *y = b;
    return x->size < y->size ? -1 : x->size > y->size;
}
static const void *fs_key(const void *p) { return &((const ft_fsize_t *) p)->val; }
static apr_size_t fs_len(const void *p) { (void) p; return sizeof(apr_off_t); }
static int off_cmp(const void *a, const void *b, apr_size_t n) { (void) n; return *(const apr_off_t *) a != *(const apr_off_t *) b; }
static apr_uint32_t off_hash(const void *a, apr_size_t n) { (void) n; return (apr_uint32_t) *(const apr_off_t *) a; }

/* The queues of files: sets of files, given back in some order (the real ones are the subject of another property). */
struct napr_heap_t { unsigned char has[NMAX]; };
napr_heap_t *napr_heap_make(apr_pool_t *p, napr_heap_cmp_callback_fn_t *c) { (void) p; (void) c; return vp_zalloc(sizeof(struct napr_heap_t)); }
int napr_heap_insert(napr_heap_t *h, void *d)
{
    int ok = 0;
    for (int i = 0; i < N; i++) if (d == &files[i]) { h->has[i]++; ok = 1; }
    VP_ASSERT(ok, "only scanned files are queued");
    return 0;
}
void *napr_heap_extract(napr_heap_t *h)
{
    for (int i = 0; i < N; i++) if (h->has[i]) { h->has[i]--; return &files[i]; }
    return NULL;
}
/* The pool of workers: tasks run when added, while another one runs, or when waited for. */
struct napr_threadpool_t { int down; };
static struct napr_threadpool_t pool_;
static threadpool_process_data_callback_fn_t *work;
static void *work_ctx;
#define TMAX 8
static void *tasks[TMAX];
static int ntasks, done[TMAX], early[TMAX], nest, nested;
apr_status_t napr_threadpool_init(napr_threadpool_t **t, void *ctx, unsigned long nb, threadpool_process_data_callback_fn_t *fn, apr_pool_t *p)
{
    (void) p;
    VP_ASSERT(nb == conf.num_threads, "the pool has the number of threads asked for");
    work = fn; work_ctx = ctx;
    *t = &pool_;
    return APR_SUCCESS;
}
static void run_task(int i)
{
    if (done[i]) return;
    done[i] = 1;
    work(work_ctx, tasks[i]);
}
apr_status_t napr_threadpool_add(napr_threadpool_t *t, void *data)
{
    (void) t;
    VP_ASSERT(!pool_.down, "no task is added after shutdown");
    VP_ASSERT(ntasks < N, "every file is hashed once");
#ifdef VP_ADDFAIL
    if (ntasks == VP_ADDFAIL) return APR_ENOMEM;
#endif
    tasks[ntasks++] = data;
    if (early[ntasks - 1]) run_task(ntasks - 1);
    return APR_SUCCESS;
}
apr_status_t napr_threadpool_wait(napr_threadpool_t *t)
{
    (void) t;
    for (int i = ntasks - 1; i >= 0; i--) run_task(i);
    return APR_SUCCESS;
}
apr_status_t napr_threadpool_shutdown(napr_threadpool_t *t)
{
    napr_threadpool_wait(t);
    pool_.down = 1;
    return APR_SUCCESS;
}
static int hashed_n;
apr_status_t checksum_file(const char *filename, apr_off_t size, apr_off_t excess, ft_hash_t *out, apr_pool_t *p)
{
    (void) excess; (void) p;
    int i = -1;
    for (int k = 0; k < N; k++) if (filename == names[k] || filename == tmps[k]) {
        i = k;
        if (filename == tmps[k]) VP_ASSERT(live[k], "an extracted member is read only while it exists");
    }
    VP_ASSERT(i >= 0, "only scanned files are hashed");
    VP_ASSERT(size == vp_sizes[i], "a file is hashed over its whole size");
    VP_ASSERT((files[i].subpath != NULL && (conf.mask & OPTION_UNTAR)) == (filename == tmps[i]), "an archive member is hashed, not the archive");
    hashed_n++;
    if (!fault[i]) *out = hashes[i];
    /* another worker runs a whole task while this one is in its file */
    if (nest) { nest = 0; run_task(0); }
    return fault[i] ? APR_EACCES : APR_SUCCESS;
}
char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *p)
{
    (void) p;
    for (int i = 0; i < N; i++) if (file == &files[i]) {
        if (xfault[i]) return NULL;
        live[i] = 1;
        return tmps[i];
    }
    VP_ASSERT(0, "only scanned members are extracted");
    return NULL;
}
apr_status_t apr_file_remove(const char *path, apr_pool_t *p)
{
    (void) p;
    int ok = 0;
    for (int i = 0; i < N; i++) if (path == tmps[i]) { VP_ASSERT(live[i], "an extracted copy is removed once"); live[i] = 0; ok = 1; }
    VP_ASSERT(ok, "no scanned file is removed");
    return APR_SUCCESS;
}
void vp_harness(void)
{
    conf.pool = vp_pool();
    conf.mask = VP_MASK;
    conf.num_threads = 3;
    conf.heap = napr_heap_make(vp_pool(), ft_file_cmp);
    conf.sizes = napr_hash_make(vp_pool(), 4, 8, fs_key, fs_len, off_cmp, off_hash);
    for (int i = 0; i < N; i++) {
        files[i].size = vp_sizes[i];
        files[i].path = names[i];
        fault[i] = (unsigned char) vp_bool();
#ifdef VP_SUBPATHS
        if ((VP_SUBPATHS >> i) & 1) { files[i].subpath = "s"; xfault[i] = (unsigned char) vp_bool(); }
#endif
        hashes[i].high64 = vp_u64(); hashes[i].low64 = vp_u64();
        early[i] = vp_bool();
        int g = -1;
        for (int k = 0; k < ng; k++) if (groups[k].val == vp_sizes[i]) g = k;
        if (g < 0) {
            g = ng++;
            groups[g].val = vp_sizes[i];
            apr_uint32_t h = 0;
            apr_off_t key = vp_sizes[i];
            napr_hash_search(conf.sizes, &key, sizeof key, &h);
            napr_hash_set(conf.sizes, &groups[g], h);
        }
        group_of[i] = g;
        count_of[g]++;
        groups[g].nb_files++;
        napr_heap_insert(conf.heap, &files[i]);
    }
    nested = nest = vp_bool();
#ifdef VP_ADDFAIL
    VP_ASSERT(ft_process_files(&conf) != APR_SUCCESS, "a failure is reported");
    VP_ASSERT(pool_.down, "the workers have ended");
    for (int i = 0; i < N; i++) VP_ASSERT(!live[i], "no extracted copy is left behind");
    VP_COVER("end");
    return;
#endif
    VP_ASSERT(ft_process_files(&conf) == APR_SUCCESS, "the stage succeeds");
    VP_ASSERT(!work || pool_.down, "the workers have ended");
    for (int i = 0; i < TMAX; i++) VP_ASSERT(i >= ntasks || done[i], "no task is left undone");
    const unsigned char *in_heap = conf.heap->has;
    for (int i = 0; i < N; i++) VP_ASSERT(!live[i], "no extracted copy is left behind");
    int lost = 0;
    for (int g = 0; g < ng; g++) {
        apr_uint32_t h = 0;
        apr_off_t key = groups[g].val;
        ft_fsize_t *s = napr_hash_search(conf.sizes, &key, sizeof key, &h);
        VP_ASSERT(s == NULL || s == &groups[g], "the table is keyed by size");
        if (count_of[g] < 2) {
            for (int i = 0; i < N; i++) if (group_of[i] == g && in_heap[i]) VP_ASSERT(s != NULL && s->nb_files <= 1 && s->chksum_array, "a file alone in its size is dropped");
            continue;
        }
        VP_ASSERT(s != NULL, "a shared size stays in the table");
        int seen[NMAX] = { 0 }, direct = 1, first = -1, bad = 0;
        unsigned n = s->nb_files;
        VP_ASSERT(n <= (unsigned) count_of[g] && s->nb_checksumed == n, "the table counts its files");
        /* no hash was needed when they are all the same constant and every file is there */
        for (unsigned k = 0; k < NMAX; k++) {
            if (k >= n) continue;
            int who = -1;
            for (int i = 0; i < N; i++) if (s->chksum_array[k].file == &files[i]) who = i;
            VP_ASSERT(who >= 0 && group_of[who] == g, "only files of that size are listed under it");
            seen[who]++;
            if (first < 0) first = (int) k;
            else if (memcmp(&s->chksum_array[k].hash_value, &s->chksum_array[first].hash_value, sizeof(ft_hash_t))) direct = 0;
            if (s->chksum_array[k].hash_value.high64 != hashes[who].high64 || s->chksum_array[k].hash_value.low64 != hashes[who].low64) bad = 1;
            if (fault[who] || xfault[who]) bad = 1;
        }
        int all = n == (unsigned) count_of[g];
        int placeholders = all && direct && !(conf.mask & OPTION_JSON);
        VP_ASSERT(!bad || placeholders, "a listed file carries its own hash, or all carry one placeholder");
        for (int i = 0; i < N; i++) {
            if (group_of[i] != g) continue;
            VP_ASSERT(seen[i] <= 1 && in_heap[i] == seen[i], "a listed file is queued for the report once");
            if (!fault[i] && !xfault[i]) VP_ASSERT(seen[i] == 1, "a readable candidate is never lost");
            if (!seen[i]) lost++;
        }
    }
#ifndef VP_ADDFAIL
    if (!lost) VP_COVER("nothing left out");
#endif
#if VP_HASHED && !defined VP_ADDFAIL
    if (nested && hashed_n >= 3) VP_COVER("overlapping workers");
    if (lost == 1) VP_COVER("one left out");
#endif
}
