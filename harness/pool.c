/* The thread pool under every schedule: the harness picks the thread of each step.  Under CBMC the threads are the step
 * functions that vp/coro.py makes from the sources; natively they are real threads that run one at a time. */
#include "vp.h"
#include <stdint.h>
#ifdef VP_CBMC
typedef int apr_status_t;
enum { APR_SUCCESS = 0, APR_EGENERAL = 20014, APR_TIMEUP = 70007 };
static char root_pool;
char *vp_pool(void) { return &root_pool; }
#else
#include "vp_apr.h"
#include <apr_errno.h>
#include <apr_thread_proc.h>
#include <apr_thread_mutex.h>
#include <apr_thread_cond.h>
#include <pthread.h>
#include <semaphore.h>
#endif
#define NT (VP_NW + 1)
char vp_data[8];
enum { READY, LOCK, COND, JOIN, DONE, NONE };
static int w[NT], woken[NT], joins[NT], spurious = VP_SPURIOUS, cur, ncreated;
static int wm[NT], wc[NT];
static char *thread_of[NT];
static struct { int owner; } mtx[2];
static struct { int x; } cnd[3];
static int nm, ncnd;
static char thd[NT];
static int begun[NT];

/* what the tasks do */
static int added[8], started[8], finished[8], nadd, running_on[NT], down;
apr_status_t vp_task(void *ctx, void *data);
#define NTASK VP_NTASK
static int mi(char *m) { VP_ASSERT(m == (char *) &mtx[0] || m == (char *) &mtx[1], "a mutex that was created"); return m == (char *) &mtx[1]; }
#define OWNER(m) mtx[m].owner
static int ci(char *c) { VP_ASSERT(c == (char *) &cnd[0] || c == (char *) &cnd[1] || c == (char *) &cnd[2], "a condition that was created"); return c == (char *) &cnd[0] ? 0 : c == (char *) &cnd[1] ? 1 : 2; }
static int enabled(int t)
{
    if (w[t] == READY) return 1;
    if (w[t] == LOCK) return OWNER(wm[t]) == 0;
    if (w[t] == COND) return (woken[t] || spurious > 0) && OWNER(wm[t]) == 0;
    if (w[t] == JOIN) return w[joins[t]] == DONE;
    return 0;
}
static void vp_y_lock(char *m) { VP_ASSERT(OWNER(mi(m)) != cur + 1, "a mutex is not taken twice"); w[cur] = LOCK; wm[cur] = mi(m); }
static int vp_y_lock_done(void) { OWNER(wm[cur]) = cur + 1; w[cur] = READY; return 0; }
static int y_unlock(char *m) { VP_ASSERT(OWNER(mi(m)) == cur + 1, "a mutex is released by its holder"); OWNER(mi(m)) = 0; return 0; }
static void vp_y_unlock(char *m) { y_unlock(m); w[cur] = READY; }
static int vp_y_unlock_done(void) { return 0; }
static void vp_y_prewait(void) { w[cur] = READY; }
static void vp_y_cond_wait(char *c, char *m)
{
    VP_ASSERT(OWNER(mi(m)) == cur + 1, "waiting needs the mutex");
    OWNER(mi(m)) = 0;
    w[cur] = COND; wm[cur] = mi(m); wc[cur] = ci(c); woken[cur] = 0;
}
static int vp_y_cond_wait_done(void)
{
    if (!woken[cur]) spurious--;
    OWNER(wm[cur]) = cur + 1;
    w[cur] = READY;
    return 0;
}
static void vp_y_cond_timedwait(char *c, char *m, int64_t t) { (void) t; vp_y_cond_wait(c, m); }
static int vp_y_cond_timedwait_done(void) { int r = woken[cur] ? 0 : APR_TIMEUP; vp_y_cond_wait_done(); return r; }
/* signalling with the mutex held is no scheduling point of its own: what others could do meanwhile commutes with it */
static int vp_y_locked(void) { return mtx[0].owner == cur + 1 || mtx[1].owner == cur + 1; }
static void vp_y_signal(char *c) { w[cur] = READY; wc[cur] = ci(c); }
static int vp_y_signal_done(void)
{
    int any = 0, k;
    for (int t = 0; t < NT; t++) any |= w[t] == COND && wc[t] == wc[cur] && !woken[t];
    if (!any) return 0;
    k = (int) vp_range(0, NT - 1);
    VP_ASSUME(w[k] == COND && wc[k] == wc[cur] && !woken[k]);
    woken[k] = 1;
    return 0;
}
static void vp_y_broadcast(char *c) { w[cur] = READY; wc[cur] = ci(c); }
static int vp_y_broadcast_done(void)
{
    for (int t = 0; t < NT; t++) if (w[t] == COND && wc[t] == wc[cur]) woken[t] = 1;
    return 0;
}
static void vp_y_yield(void) { w[cur] = READY; }
static int vp_y_yield_done(void) { return 0; }
static void vp_y_join(char *ret, char *t)
{
    *(apr_status_t *) (void *) ret = 0;
    joins[cur] = 0;
    for (int k = 1; k < NT; k++) if (t == &thd[k]) joins[cur] = k;
    VP_ASSERT(joins[cur] > 0, "a worker that was created is joined");
    w[cur] = JOIN;
}
static int vp_y_join_done(void) { w[cur] = READY; return 0; }
static void vp_y_task_begin(char *fn, char *ctx, char *data)
{
    int k = -1;
    VP_ASSERT(fn == (char *) &vp_task && ctx == &vp_data[7], "the pool's function is called with its context");
    VP_ASSERT(mtx[0].owner != cur + 1 && mtx[1].owner != cur + 1, "tasks run without the pool's lock");
    for (int i = 0; i < NTASK; i++) if (data == &vp_data[i]) k = i;
    VP_ASSERT(k >= 0 && k < NTASK && added[k], "only tasks that were added are run");
    VP_ASSERT(!started[k], "no task is run twice");
    VP_ASSERT(!down, "no task runs after shutdown returned");
    started[k] = 1;
    running_on[cur] = k;
    w[cur] = READY;
}
static int vp_y_task_end(void) { finished[running_on[cur]] = 1; return (int) vp_range(0, 1) ? APR_EGENERAL : 0; }
static void vp_y_finished(int t) { (void) t; w[cur] = DONE; VP_ASSERT(mtx[0].owner != cur + 1 && mtx[1].owner != cur + 1, "no thread ends with the lock"); }

/* what the caller relies on */
void vp_p_add(int i) { added[i] = 1; }
void vp_p_added(int i, int status) { VP_ASSERT(status == APR_SUCCESS, "a task is added"); nadd = i + 1; }
void vp_p_wait(void) { }
void vp_p_waited(int status)
{
    VP_ASSERT(status == APR_SUCCESS, "waiting succeeds");
    for (int i = 0; i < NTASK; i++) VP_ASSERT(i >= nadd || finished[i], "waiting returns only after every task added before it has finished");
    VP_COVER("waited");
}
void vp_p_down(int status)
{
    VP_ASSERT(status == APR_SUCCESS, "shutting down succeeds");
    for (int t = 1; t < NT; t++) VP_ASSERT(w[t] == DONE, "shutting down joins every worker");
    for (int i = 0; i < NTASK; i++) VP_ASSERT(!started[i] || finished[i], "shutting down lets running tasks finish");
    down = 1;
    VP_COVER("shut down");
}
static int y_thread_create(char *out)
{
    int k = ++ncreated;
    VP_ASSERT(k < NT, "as many workers as asked for");
    *(char **) (void *) out = &thd[k];
    w[k] = READY;
    return k;
}

#ifdef VP_CBMC
apr_status_t vp_task(void *ctx, void *data) { (void) ctx; (void) data; return 0; }
uint32_t apr_pool_create_ex(char *out, char *parent, char *x, char *y) { static char pools[1]; (void) parent; (void) x; (void) y; *(char **) (void *) out = pools; return 0; }
void apr_pool_destroy(char *p) { (void) p; }
void apr_pool_clear(char *p) { (void) p; }
uint32_t apr_thread_mutex_create(char *out, uint32_t flags, char *p) { (void) flags; (void) p; VP_ASSERT(nm < 2, "model: mutexes"); *(char **) (void *) out = nm == 0 ? (char *) &mtx[0] : (char *) &mtx[1]; nm++; return 0; }
uint32_t apr_thread_cond_create(char *out, char *p) { (void) p; VP_ASSERT(ncnd < 3, "model: conditions"); *(char **) (void *) out = ncnd == 0 ? (char *) &cnd[0] : ncnd == 1 ? (char *) &cnd[1] : (char *) &cnd[2]; ncnd++; return 0; }
uint32_t apr_thread_mutex_destroy(char *m) { (void) m; return 0; }
uint32_t apr_thread_cond_destroy(char *m) { (void) m; return 0; }
uint32_t apr_thread_mutex_unlock(char *m) { return (uint32_t) y_unlock(m); }
static void vp_set_arg(int k, char *rec);
static uint32_t vp_y_thread_create(char *out, char *rec) { vp_set_arg(y_thread_create(out), rec); return 0; }
#include VP_GEN
static void vp_set_arg(int k, char *rec)
{
    if (k == 1) T1_arg(rec);
#if VP_NW > 1
    if (k == 2) T2_arg(rec);
#endif
#if VP_NW > 2
    if (k == 3) T3_arg(rec);
#endif
}
static void step(int t)
{
    cur = t;
    if (t == 0) { cur = 0; T0_step(); }
    if (t == 1) { cur = 1; T1_step(); }
#if VP_NW > 1
    if (t == 2) { cur = 2; T2_step(); }
#endif
#if VP_NW > 2
    if (t == 3) { cur = 3; T3_step(); }
#endif
}
static void start(void) { }
#else
static sem_t go[NT], back;
static struct { apr_thread_start_t fn; void *rec; } body[NT];
static void yield(void) { int me = cur; sem_post(&back); sem_wait(&go[me]); }
static void step(int t) { cur = t; sem_post(&go[t]); sem_wait(&back); }
void vp_main(void);
static void *run(void *p)
{
    int k = (int) (intptr_t) p;
    sem_wait(&go[k]);
    if (k == 0) vp_main(); else body[k].fn((apr_thread_t *) (void *) &thd[k], body[k].rec);
    vp_y_finished(k);
    sem_post(&back);
    return NULL;
}
static void launch(int k) { pthread_t t; sem_init(&go[k], 0, 0); pthread_create(&t, NULL, run, (void *) (intptr_t) k); }
static void start(void) { sem_init(&back, 0, 0); launch(0); }
apr_status_t vp_task(void *ctx, void *data) { vp_y_task_begin((char *) &vp_task, ctx, data); yield(); return vp_y_task_end(); }
apr_status_t apr_thread_mutex_create(apr_thread_mutex_t **m, unsigned f, apr_pool_t *p) { (void) f; (void) p; *m = (void *) &mtx[nm++]; return 0; }
apr_status_t apr_thread_cond_create(apr_thread_cond_t **c, apr_pool_t *p) { (void) p; *c = (void *) &cnd[ncnd++]; return 0; }
apr_status_t apr_thread_mutex_destroy(apr_thread_mutex_t *m) { (void) m; return 0; }
apr_status_t apr_thread_cond_destroy(apr_thread_cond_t *m) { (void) m; return 0; }
apr_status_t apr_thread_mutex_lock(apr_thread_mutex_t *m) { vp_y_lock((char *) m); yield(); return vp_y_lock_done(); }
apr_status_t apr_thread_mutex_unlock(apr_thread_mutex_t *m)
{
#ifdef VP_FINE
    vp_y_unlock((char *) m); yield(); return vp_y_unlock_done();
#else
    return y_unlock((char *) m);
#endif
}
#ifdef VP_FINE
#define PREWAIT vp_y_prewait(); yield();
#else
#define PREWAIT
#endif
apr_status_t apr_thread_cond_wait(apr_thread_cond_t *c, apr_thread_mutex_t *m) { PREWAIT vp_y_cond_wait((char *) c, (char *) m); yield(); return vp_y_cond_wait_done(); }
apr_status_t apr_thread_cond_timedwait(apr_thread_cond_t *c, apr_thread_mutex_t *m, apr_interval_time_t t) { PREWAIT vp_y_cond_timedwait((char *) c, (char *) m, t); yield(); return vp_y_cond_timedwait_done(); }
apr_status_t apr_thread_cond_signal(apr_thread_cond_t *c) { vp_y_signal((char *) c); if (!vp_y_locked()) yield(); return vp_y_signal_done(); }
apr_status_t apr_thread_cond_broadcast(apr_thread_cond_t *c) { vp_y_broadcast((char *) c); if (!vp_y_locked()) yield(); return vp_y_broadcast_done(); }
apr_status_t apr_thread_join(apr_status_t *r, apr_thread_t *t) { vp_y_join((char *) r, (char *) t); yield(); return vp_y_join_done(); }
void apr_thread_yield(void) { vp_y_yield(); yield(); }
apr_status_t apr_thread_create(apr_thread_t **t, apr_threadattr_t *a, apr_thread_start_t fn, void *rec, apr_pool_t *p)
{
    (void) a; (void) p;
    int k = y_thread_create((char *) t);
    body[k].fn = fn; body[k].rec = rec;
    launch(k);
    return 0;
}
#endif

static int any_enabled(void) { int any = 0; for (int t = 0; t < NT; t++) any |= enabled(t); return any; }
/* the workers are alike: they make their first steps in order */
static int in_order(int t) { for (int k = 2; k < NT; k++) if (t == k && !begun[k - 1]) return 0; return 1; }
static void schedule(void)
{
    for (int s = 0; s < VP_STEPS; s++) {
        if (w[0] == DONE) break;
        VP_ASSERT(any_enabled(), "the pool never deadlocks");
        int t = (int) vp_range(0, NT - 1);
        VP_ASSUME(enabled(t));
        VP_ASSUME(in_order(t));
        begun[t] = 1;
        step(t);
    }
}
void vp_harness(void)
{
    for (int t = 1; t < NT; t++) w[t] = NONE;
    start();
    schedule();
#ifdef VP_ENDS
    VP_ASSERT(w[0] == DONE, "every schedule comes to its end");
#endif
}
