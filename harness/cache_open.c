/* Opening and closing the cache, VP_FAULTS calls failing anywhere, the lock taken by another process or free.
 * VP_OLD: the cache exists already and has an entry. VP_TXN: what is open when it is closed: 0 nothing, 1 a read, 2 a write. */
#include "vp.h"
#include "vp_apr.h"
#include "db_env.h"
#include "napr_cache.h"
#include <string.h>
#include <apr_errno.h>
static void free_of_it(void)
{
    VP_ASSERT(vpd_open == 0, "no file is left open");
    VP_ASSERT(vpd_mapped == 0, "no map is left");
    VP_ASSERT(vpd_held() == 0, "no lock is left held");
    VP_ASSERT(vpd_lock_taken != 1, "the lock of the cache is given up");
}
static void entry(napr_cache_entry_t *e, int k) { memset(e, 0, sizeof *e); e->mtime = k; e->size = 3; e->hash.low64 = 9; }
static void holds(napr_cache_t *c, const char *p, const napr_cache_entry_t *w)
{
    const napr_cache_entry_t *e = NULL;
    apr_status_t st = napr_cache_lookup_in_txn(c, p, &e);
    if (w) VP_ASSERT(st == APR_SUCCESS && e && memcmp(e, w, sizeof *w) == 0, "the entry is there");
    else VP_ASSERT(st == APR_NOTFOUND, "there is no such entry");
}
void vp_harness(void)
{
    napr_cache_t *c = NULL;
    napr_cache_entry_t a, b;
    entry(&a, 1);
    entry(&b, 2);
    int has_a = 0, has_b = 0;
    vpd_need_lock = 1;
#ifdef VP_OLD
    VP_ASSERT(napr_cache_open(&c, "/c/db", vp_pool()) == APR_SUCCESS, "a cache opens");
    VP_ASSERT(napr_cache_begin_write(c, vp_pool()) == APR_SUCCESS && napr_cache_upsert_in_txn(c, "/a", &a) == APR_SUCCESS && napr_cache_commit_write(c) == APR_SUCCESS, "an entry is stored");
    VP_ASSERT(napr_cache_close(c) == APR_SUCCESS, "a cache closes");
    free_of_it();
    has_a = 1;
#endif
    int other = vp_bool();
    if (other) vpd_lock_taken = 2;
    long size = vpd_size;
    vpd_faults = VP_FAULTS;
    c = NULL;
    apr_status_t st = napr_cache_open(&c, "/c/db", vp_pool());
    if (other) {
        VP_ASSERT(st != APR_SUCCESS, "a cache another process has open is not opened");
        VP_ASSERT(vpd_lock_taken == 2, "its lock is left alone");
        VP_ASSERT(vpd_size == size, "its file is left alone");
        vpd_lock_taken = 0;
        free_of_it();
        VP_COVER("taken");
    }
    else if (st != APR_SUCCESS) {
        VP_ASSERT(vpd_failed, "a cache opens when nothing fails");
        free_of_it();
        VP_COVER("failed");
    }
    else {
        VP_ASSERT(c != NULL && vpd_lock_taken == 1, "an open cache is locked");
        VP_ASSERT(vpd_held() == 0, "an open cache holds no other lock");
        if (VP_TXN) {
            st = VP_TXN == 1 ? napr_cache_begin_read(c, vp_pool()) : napr_cache_begin_write(c, vp_pool());
            VP_ASSERT(st == APR_SUCCESS || vpd_failed, "a transaction begins when nothing fails");
            if (st == APR_SUCCESS) {
                VP_ASSERT(napr_cache_begin_read(c, vp_pool()) != APR_SUCCESS && napr_cache_begin_write(c, vp_pool()) != APR_SUCCESS && napr_cache_sweep(c) != APR_SUCCESS, "there is one transaction at a time");
                VP_ASSERT(vpd_held() == (VP_TXN == 2), "a refused transaction changes no lock");
                if (VP_TXN == 2) {
                    st = napr_cache_upsert_in_txn(c, "/b", &b);
                    VP_ASSERT(st == APR_SUCCESS || vpd_failed, "an entry is stored when nothing fails");
                    if (st == APR_SUCCESS && vp_bool()) {
                        st = napr_cache_commit_write(c);
                        VP_ASSERT(st == APR_SUCCESS || vpd_failed, "a transaction commits when nothing fails");
                        has_b = st == APR_SUCCESS;
                    }
                }
            }
        }
        VP_ASSERT(vpd_lock_taken == 1, "an open cache stays locked");
        st = napr_cache_close(c);
        VP_ASSERT(st == APR_SUCCESS || vpd_failed, "a cache closes well when nothing fails");
        free_of_it();
        VP_COVER("closed");
    }
    vpd_faults = 0;
    c = NULL;
    st = napr_cache_open(&c, "/c/db", vp_pool());
    VP_ASSERT(st == APR_SUCCESS && c, "the cache opens afterwards");
    if (st != APR_SUCCESS) VP_STOP();
    VP_ASSERT(napr_cache_begin_write(c, vp_pool()) == APR_SUCCESS, "a transaction begins");
    holds(c, "/a", has_a ? &a : NULL);
    holds(c, "/b", has_b ? &b : NULL);
    VP_ASSERT(napr_cache_upsert_in_txn(c, "/b", &b) == APR_SUCCESS && napr_cache_commit_write(c) == APR_SUCCESS, "an entry is stored");
    VP_ASSERT(napr_cache_close(c) == APR_SUCCESS, "a cache closes");
    free_of_it();
    VP_COVER("end");
}
