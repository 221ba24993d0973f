/* Mutexes for single-threaded harnesses: they only check discipline. */
#include "vp.h"
#include "vp_apr.h"
#include <apr_thread_mutex.h>
#include <apr_errno.h>
struct apr_thread_mutex_t { int held; };
apr_status_t apr_thread_mutex_create(apr_thread_mutex_t **m, unsigned int flags, apr_pool_t *pool)
{
    (void) flags; (void) pool;
    *m = vp_zalloc(sizeof **m);
    return APR_SUCCESS;
}
apr_status_t apr_thread_mutex_lock(apr_thread_mutex_t *m)
{
    VP_ASSERT(!m->held, "a held mutex is not taken again");
    m->held = 1;
    return APR_SUCCESS;
}
apr_status_t apr_thread_mutex_trylock(apr_thread_mutex_t *m)
{
    if (m->held) return APR_EBUSY;
    m->held = 1;
    return APR_SUCCESS;
}
apr_status_t apr_thread_mutex_unlock(apr_thread_mutex_t *m)
{
    VP_ASSERT(m->held, "only a held mutex is released");
    m->held = 0;
    return APR_SUCCESS;
}
apr_status_t apr_thread_mutex_destroy(apr_thread_mutex_t *m) { (void) m; return APR_SUCCESS; }
