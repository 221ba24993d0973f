/* VP_OPS: one character per step: p put, d delete, g get, c commit, a abort, r commit and reopen, digits put and letters A-J delete a fixed key; ? any of p, d; ! any of p, d, c, a.
 * VP_KLENS, VP_VLENS: key and value length of each step. */
#include "db_common.h"
static const char ops[] = VP_OPS;
static const unsigned short klens[] = VP_KLENS, vlens[] = VP_VLENS;
#define NUM(a) (sizeof(a) / sizeof((a)[0]))
#ifndef VP_FLAGS
#define VP_FLAGS NAPR_DB_INTRAPROCESS_LOCK
#endif
void vp_harness(void)
{
    static struct model now, committed;
    static struct ent q[sizeof ops];
    open_env(NAPR_DB_CREATE | VP_FLAGS);
    napr_db_txn_t *t = begin(0);
    unsigned n = sizeof ops - 1;
    for (unsigned i = 0; i < n; i++) {
        char op = ops[i];
        if (op == '?') op = vp_bool() ? 'p' : 'd';
        if (op == '!') { unsigned c = vp_range(0, 3); op = c == 0 ? 'p' : c == 1 ? 'd' : c == 2 ? 'c' : 'a'; }
        int fixed = (op >= '0' && op <= '9') || (op >= 'A' && op <= 'J');
        if (fixed || op == 'p' || op == 'd' || op == 'g') {
            fill_key(&q[i], klens[i % NUM(klens)]);
            if (fixed) {
                q[i].k[0] = (unsigned char) ((op >= 'A' ? op - 'A' + '0' : op) * 4);
                op = op >= 'A' ? 'd' : 'p';
            }
            napr_db_val_t k = { q[i].klen, q[i].k };
            if (op == 'p') {
                fill_val(&q[i], vlens[i % NUM(vlens)]);
                napr_db_val_t d = { q[i].vlen, q[i].v };
                apr_status_t st = napr_db_put(t, &k, &d);
                if (st == APR_SUCCESS) store(&now, &q[i]);
                else if (st == APR_EEXIST) VP_ASSERT(lookup(&now, &q[i]) && !lookup(&committed, &q[i]), "only a key this transaction has added is refused as a duplicate");
                else VP_ASSERT(!must_fit(&q[i]), "an entry of at most half a page can be stored");
                if (st == APR_SUCCESS) VP_COVER("stored");
            }
            else if (op == 'd') {
                apr_status_t st = napr_db_del(t, &k, NULL);
                struct ent *e = lookup(&now, &q[i]);
                VP_ASSERT(st == (e ? APR_SUCCESS : APR_NOTFOUND), "a key can be deleted when it is there");
                if (e) e->used = 0;
            }
            else check_get(t, &now, &q[i]);
        }
        else {
            apr_status_t st = op == 'a' ? napr_db_txn_abort(t) : napr_db_txn_commit(t);
            VP_ASSERT(st == APR_SUCCESS, "a transaction ends well");
            VP_ASSERT(vpd_held() == 0, "no lock is held between transactions");
            if (op == 'a') now = committed; else committed = now;
            if (op == 'r') {
                VP_ASSERT(napr_db_env_close(env) == APR_SUCCESS, "the database closes");
                open_env(VP_FLAGS);
            }
            t = begin(0);
        }
    }
#ifdef VP_NOPROBE
    struct ent *probe = NULL;
#else
    static struct ent any;
    struct ent *probe = &any;
    fill_key(probe, klens[0]);
#endif
    check_all(t, &now, probe);
#ifdef VP_WALK
    check_walk(t, &now, 1);
    check_walk(t, &now, 0);
#endif
#ifndef VP_NOCOMMIT
    VP_ASSERT(napr_db_txn_commit(t) == APR_SUCCESS, "a transaction ends well");
    t = begin(NAPR_DB_RDONLY);
    check_all(t, &now, probe);
#ifdef VP_WALK
    check_walk(t, &now, 1);
#endif
    VP_ASSERT(napr_db_txn_abort(t) == APR_SUCCESS, "a transaction ends well");
#endif
    VP_COVER("end");
}
