/* Locks and reader slots, with VP_FAULTS calls failing anywhere after the database is open.
 * VP_OPS: w begin a writer, c commit it, a abort it, p put, r begin a reader, x end the first reader, y end the last one.
 * VP_CROWD: the reader table is filled up to that many free slots first. */
#include "db_common.h"
static const char ops[] = VP_OPS;
#define NR 128
static napr_db_txn_t *rd[NR], *w;
static int nrd;
extern unsigned long vpd_tid;
static struct model m, now;
static void end(int i)
{
    if (i < 0 || i >= nrd) return;
    vpd_tid = vp_bool() ? 1 : 2;          /* any thread may end it */
    apr_status_t st = vp_bool() ? napr_db_txn_abort(rd[i]) : napr_db_txn_commit(rd[i]);
    vpd_tid = 1;
    VP_ASSERT(st == APR_SUCCESS || vpd_failed, "a reader ends well");
    for (nrd--; i < nrd; i++) rd[i] = rd[i + 1];
}

void vp_harness(void)
{
    open_env(NAPR_DB_CREATE | (VP_PROC ? 0 : NAPR_DB_INTRAPROCESS_LOCK));
    int max = 126;
#ifdef VP_CROWD
    for (; nrd < max - VP_CROWD; nrd++) rd[nrd] = begin(NAPR_DB_RDONLY);
#endif
    vpd_faults = VP_FAULTS;
    for (unsigned i = 0; i < sizeof ops - 1; i++) {
        char op = ops[i];
        int before = vpd_failed;
        if (op == '?') { unsigned k = vp_range(0, 2); op = k == 0 ? 'r' : k == 1 ? 'x' : 'y'; }
        if (op == 'w' && !w) {
            apr_status_t st = napr_db_txn_begin(env, 0, &w);
            VP_ASSERT(st == APR_SUCCESS || vpd_failed, "a writer begins when nothing fails");
            if (st != APR_SUCCESS) w = NULL;
            VP_ASSERT(vpd_held() == (w != NULL), "a writer holds one lock, a failed begin none");
        }
        else if (op == 'p' && w) {
            struct ent q = { 0 };
            q.klen = 1;
            q.k[0] = vp_u8();
            fill_val(&q, 30);
            napr_db_val_t k = { 1, q.k }, d = { q.vlen, q.v };
            apr_status_t st = napr_db_put(w, &k, &d);
            if (st == APR_SUCCESS) store(&now, &q);
            VP_ASSERT(vpd_held() == 1, "a writer holds its lock while it works");
        }
        else if ((op == 'c' || op == 'a') && w) {
            apr_status_t st = op == 'c' ? napr_db_txn_commit(w) : napr_db_txn_abort(w);
            w = NULL;
            VP_ASSERT(vpd_held() == 0, "no lock is held after a writer has ended");
            VP_ASSERT(st == APR_SUCCESS || vpd_failed > before, "a writer ends well when nothing fails");
            if (op == 'c' && st == APR_SUCCESS) m = now; else now = m;
        }
        else if (op == 'r') {
            napr_db_txn_t *t = NULL;
            apr_status_t st = napr_db_txn_begin(env, NAPR_DB_RDONLY, &t);
            VP_ASSERT(vpd_held() == (w != NULL), "a reader holds no lock");
            if (st == APR_SUCCESS) { VP_ASSERT(nrd < max, "there are no more readers than slots"); rd[nrd++] = t; VP_COVER("reader"); }
            else {
                VP_ASSERT(vpd_failed > before || nrd == max, "a reader begins when a slot is free");
                if (nrd == max) VP_COVER("full");
            }
        }
        else if (op == 'x') end(0);
        else if (op == 'y') end(nrd - 1);
    }
    vpd_faults = 0;
    /* everything ends; then all is free */
    if (w) { napr_db_txn_abort(w); now = m; }
    while (nrd) {
        check_all(rd[nrd - 1], &(struct model) { 0 }, NULL);
        napr_db_txn_commit(rd[nrd - 1]);
        nrd--;
    }
    VP_ASSERT(vpd_held() == 0, "no lock is held at the end");
    napr_db_txn_t *t = NULL;
    VP_ASSERT(napr_db_txn_begin(env, 0, &t) == APR_SUCCESS || vpd_failed, "a writer can begin");
    if (t) { check_all(t, &m, NULL); napr_db_txn_abort(t); }
#ifdef VP_REFILL
    for (; nrd < max; nrd++) {
        VP_ASSERT(napr_db_txn_begin(env, NAPR_DB_RDONLY, &rd[nrd]) == APR_SUCCESS, "slots of ended readers are free again");
    }
#endif
    VP_ASSERT(napr_db_txn_commit(NULL) == APR_EINVAL && napr_db_txn_abort(NULL) == APR_EINVAL, "no transaction cannot be ended");
    VP_COVER("end");
}
