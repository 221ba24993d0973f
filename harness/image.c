/* ft_image_twin_report(): VP_N images with symbolic distances and failures, workers running in some order. */
#include "vp.h"
#include "vp_apr.h"
#include "vp_fmt.h"
#include "ft_types.h"
#include "ft_config.h"
#include "ft_image.h"
#include "ft_file.h"
#include "napr_heap.h"
#include "napr_threadpool.h"
#include <puzzle.h>
#include <string.h>
#include "vp_nocheck.h"
#define N VP_N
static ft_file_t files[N + 1];
static char names[5][2] = { "a", "b", "c", "d", "e" };
static ft_conf_t conf;
static unsigned char bad[N + 1];
static double dist[N + 1][N + 1];
static int inited[N + 1], filled[N + 1], freed[N + 1], compared[N + 1][N + 1], reported[N + 1][N + 1];
static int ctx_live;

/* the queue of files, given back in some order (the real one is the subject of another property) */
struct napr_heap_t { ft_file_t *f[N + 1]; unsigned n; };
static struct napr_heap_t heap;
void *napr_heap_extract(napr_heap_t *h) { return h->n ? h->f[--h->n] : NULL; }
void *napr_heap_get_nth(const napr_heap_t *h, unsigned int i) { return i < h->n ? h->f[i] : NULL; }
unsigned int napr_heap_size(const napr_heap_t *h) { return h->n; }

static int by_cvec(const PuzzleCvec *c)
{
    for (int i = 0; i < N; i++) if (c == &files[i].cvec) return i;
    VP_ASSERT(0, "the signatures of the files are used");
    return 0;
}
void puzzle_init_context(PuzzleContext *c) { (void) c; ctx_live++; }
void puzzle_free_context(PuzzleContext *c) { (void) c; ctx_live--; }
int puzzle_set_max_width(PuzzleContext *c, unsigned int w) { (void) c; (void) w; return 0; }
int puzzle_set_max_height(PuzzleContext *c, unsigned int w) { (void) c; (void) w; return 0; }
int puzzle_set_lambdas(PuzzleContext *c, unsigned int w) { (void) c; (void) w; return 0; }
int puzzle_set_p_ratio(PuzzleContext *c, double w) { (void) c; (void) w; return 0; }
int puzzle_set_noise_cutoff(PuzzleContext *c, double w) { (void) c; (void) w; return 0; }
int puzzle_set_contrast_barrier_for_cropping(PuzzleContext *c, double w) { (void) c; (void) w; return 0; }
int puzzle_set_max_cropping_ratio(PuzzleContext *c, double w) { (void) c; (void) w; return 0; }
int puzzle_set_autocrop(PuzzleContext *c, int w) { (void) c; (void) w; return 0; }
void puzzle_init_cvec(PuzzleContext *c, PuzzleCvec *v) { (void) c; inited[by_cvec(v)]++; }
void puzzle_free_cvec(PuzzleContext *c, PuzzleCvec *v) { (void) c; VP_ASSERT(ctx_live == 1, "the library is in use"); freed[by_cvec(v)]++; }
int puzzle_fill_cvec_from_file(PuzzleContext *c, PuzzleCvec *v, const char *f)
{
    (void) c;
    int i = by_cvec(v);
    VP_ASSERT(ctx_live == 1 && inited[i] == 1, "a signature is made ready before it is computed");
    VP_ASSERT(f[0] == names[i][0] && f[1] == 0, "the signature of a file is computed from that file");
    filled[i]++;
    return bad[i] ? -1 : 0;
}
double puzzle_vector_normalized_distance(PuzzleContext *c, const PuzzleCvec *a, const PuzzleCvec *b, int fix)
{
    (void) c; (void) fix;
    int i = by_cvec(a), j = by_cvec(b);
    VP_ASSERT(i != j, "an image is not compared with itself");
    VP_ASSERT(filled[i] == 1 && filled[j] == 1 && !bad[i] && !bad[j] && !freed[i] && !freed[j], "only computed signatures are compared");
    int lo = i < j ? i : j, hi = i < j ? j : i;
    compared[lo][hi]++;
    return dist[lo][hi];
}

/* workers */
struct napr_threadpool_t { int down; };
static struct napr_threadpool_t pool_;
static threadpool_process_data_callback_fn_t *work;
static void *work_ctx, *tasks[N + 1];
static int ntasks, done[N + 1], early[N + 1], up, addfail, initfail;
apr_status_t napr_threadpool_init(napr_threadpool_t **t, void *ctx, unsigned long nb, threadpool_process_data_callback_fn_t *fn, apr_pool_t *p)
{
    (void) p;
    VP_ASSERT(nb > 0, "there are workers");
    if (initfail) return APR_ENOMEM;
    work = fn; work_ctx = ctx;
    *t = &pool_;
    up = 1;
    return APR_SUCCESS;
}
static void run_task(int i)
{
    if (done[i]) return;
    done[i] = 1;
    work(work_ctx, tasks[i]);
}
apr_status_t napr_threadpool_add(napr_threadpool_t *t, void *data)
{
    (void) t;
    VP_ASSERT(!pool_.down, "no task is added after shutdown");
    VP_ASSERT(ntasks < N, "every image is examined once");
    if (addfail == ntasks + 1) return APR_ENOMEM;
    tasks[ntasks++] = data;
    if (early[ntasks - 1]) run_task(ntasks - 1);
    return APR_SUCCESS;
}
apr_status_t napr_threadpool_wait(napr_threadpool_t *t)
{
    (void) t;
    for (int i = ntasks - 1; i >= 0; i--) run_task(i);
    return APR_SUCCESS;
}
apr_status_t napr_threadpool_shutdown(napr_threadpool_t *t)
{
    napr_threadpool_wait(t);
    pool_.down = 1;
    up = 0;
    return APR_SUCCESS;
}

/* the report: A sep B sep C, then an empty line */
static int head = -1, seps, members, newlines;
void vp_emit(int c)
{
    if (c >= 'a' && c < 'a' + N) {
        int i = c - 'a';
        if (head < 0) { VP_ASSERT(newlines == 0 || newlines == 2, "groups are set apart by an empty line"); newlines = 0; head = i; members = 0; }
        else {
            VP_ASSERT(seps == 1, "paths are set apart by the separator");
            int lo = head < i ? head : i, hi = head < i ? i : head;
            reported[lo][hi]++;
            members++;
        }
        seps = 0;
    }
    else if (c == VP_SEP) { VP_ASSERT(head >= 0 && seps == 0, "a separator stands between two paths"); seps++; }
    else if (c == '\n') {
        if (head >= 0) { VP_ASSERT(members > 0 && seps == 0, "a group has several images"); head = -1; newlines = 0; }
        newlines++;
        VP_ASSERT(newlines <= 2, "one empty line follows a group");
    }
    else VP_ASSERT(0, "only paths, separators and line ends are printed");
}

void vp_harness(void)
{
    union { apr_uint64_t u; double d; } x;
    conf.pool = vp_pool();
    conf.mask = VP_MASK;
    conf.sep = VP_SEP;
    conf.heap = &heap;
    x.u = vp_u64();
    conf.threshold = x.d;
#ifdef VP_EASY
    conf.threshold = 0.5;
#endif
    for (int i = 0; i < N; i++) {
        files[i].path = names[i];
        bad[i] = (unsigned char) vp_bool();
#ifdef VP_EASY
        early[i] = i & 1;
#else
        early[i] = vp_bool();
#endif
        heap.f[heap.n++] = &files[(i + VP_ROT) % N];
        for (int j = i + 1; j < N; j++) { x.u = vp_u64(); dist[i][j] = x.d; }
    }
    if (VP_FAIL > 1) addfail = VP_FAIL - 1;       /* the task that cannot be added */
    initfail = VP_FAIL == 1;
    apr_status_t st = ft_image_twin_report(&conf);
    VP_ASSERT(!up, "the workers have ended");
    VP_ASSERT(ctx_live == 0, "the library is left");
    if (initfail || addfail) { VP_ASSERT(st != APR_SUCCESS || N == 0, "a failure is reported"); return; }
    VP_ASSERT(st == APR_SUCCESS, "the report is complete");
    VP_ASSERT(head < 0, "the last line is complete");
    for (int i = 0; i < N; i++) {
        VP_ASSERT(filled[i] == 1, "every image is examined once");
        for (int j = i + 1; j < N; j++) {
            int both = !bad[i] && !bad[j];
            VP_ASSERT(compared[i][j] == both, "every pair is compared once");
            VP_ASSERT(reported[i][j] == (both && dist[i][j] < conf.threshold), "similar images are reported once, others not");
            if (reported[i][j]) VP_COVER("similar");
            if (bad[i]) VP_COVER("undecodable");
        }
    }
    VP_COVER("end");
}
