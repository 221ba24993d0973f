/* VP_SETUP: steps committed beforehand (p put, d delete of any key; 0-9 put, A-J delete of a fixed one; c commit).  VP_OPS: the transaction during whose
 * commit the machine may stop (VP_CRASH) or calls may fail (VP_FAULTS of them).  Keys are symbolic. */
#include "db_common.h"
static const char setup[] = VP_SETUP, ops[] = VP_OPS;
static const unsigned char klens[] = VP_KLENS, vlens[] = VP_VLENS;
#ifndef VP_FAULTS
#define VP_FAULTS 0
#endif
static struct model before, after;
static struct ent q[64];
static unsigned nq;
static int armed, written;

static int holds(napr_db_txn_t *t, struct model *m, struct model *other)
{
    for (int i = 0; i < NENT; i++) {
        napr_db_val_t d = { 0 };
        if (m->e[i].used) {
            napr_db_val_t k = { m->e[i].klen, m->e[i].k };
            if (napr_db_get(t, &k, &d) != APR_SUCCESS) return 0;
            if (d.size != m->e[i].vlen) return 0;
            if (memcmp(d.data, m->e[i].v, d.size) != 0) return 0;
        }
        if (other->e[i].used && !lookup(m, &other->e[i])) {
            napr_db_val_t k = { other->e[i].klen, other->e[i].k };
            if (napr_db_get(t, &k, &d) != APR_NOTFOUND) return 0;
        }
    }
    return 1;
}
/* 1: the state before, 2: the state after; asserts that it is one of the allowed ones */
static int judge(int allowed)
{
    napr_db_txn_t *t = begin(NAPR_DB_RDONLY);
    int r = 0;
    if ((allowed & 1) && holds(t, &before, &after)) r = 1;
    else if ((allowed & 2) && holds(t, &after, &before)) r = 2;
    VP_ASSERT(r != 0, "the database is in its last committed state");
    if (r == 0) VP_STOP();
    check_walk(t, r == 1 ? &before : &after, 1);
    VP_ASSERT(napr_db_txn_abort(t) == APR_SUCCESS, "a transaction ends well");
    return r;
}
static int step(napr_db_txn_t *t, char op, struct model *m)
{
    unsigned i = nq++;
    fill_key(&q[i], klens[i % sizeof klens]);
    int fixed = op >= '0' && op <= '9', gone = op >= 'A' && op <= 'J';       /* put or delete of a fixed key */
    if (fixed) q[i].k[0] = (unsigned char) (op * 4);
    if (gone) q[i].k[0] = (unsigned char) ((op - 'A' + '0') * 4);
    napr_db_val_t k = { q[i].klen, q[i].k };
    if (op == 'p' || fixed) {
        fill_val(&q[i], vlens[i % sizeof vlens]);
        napr_db_val_t d = { q[i].vlen, q[i].v };
        apr_status_t st = napr_db_put(t, &k, &d);
        if (st == APR_SUCCESS) store(m, &q[i]);
        else if (st != APR_EEXIST) return 0;
    }
    else {
        apr_status_t st = napr_db_del(t, &k, NULL);
        if (st == APR_SUCCESS) { struct ent *e = lookup(m, &q[i]); if (e) e->used = 0; }
        else if (st != APR_NOTFOUND) return 0;
    }
    return 1;
}
/* the database goes on working */
static void go_on(struct model *m)
{
    napr_db_txn_t *t = begin(0);
    VP_ASSERT(step(t, 'p', m), "an entry can be stored");
    VP_ASSERT(napr_db_txn_commit(t) == APR_SUCCESS, "a transaction ends well");
    t = begin(NAPR_DB_RDONLY);
    check_all(t, m, NULL);
    check_walk(t, m, 1);
    napr_db_txn_abort(t);
}
static void crash(int allowed)
{
    armed = 0;
    vpd_faults = 0;
    vpd_crash();
    open_env(NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK);
    int r = judge(allowed);
    if (r == 2) VP_COVER("after the change"); else VP_COVER("before the change");
#ifndef VP_NO_GO_ON
    go_on(r == 2 ? &after : &before);
#endif
    VP_STOP();
}
static void event(void)
{
    if (armed && vp_bool()) crash(3);
}
void vp_harness(void)
{
    vpd_event = event;
#ifdef VP_CREATION
    /* the machine stops while the database is created */
    armed = 1;
    open_env(NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK);
    if (vp_bool()) crash(1);
    armed = 0;
#else
    open_env(NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK);
#endif
    napr_db_txn_t *t = begin(0);
    for (unsigned i = 0; i < sizeof setup - 1; i++) {
        if (setup[i] == 'c') { VP_ASSERT(napr_db_txn_commit(t) == APR_SUCCESS, "a transaction ends well"); t = begin(0); }
        else VP_ASSERT(step(t, setup[i], &before), "a step succeeds");
    }
    VP_ASSERT(napr_db_txn_commit(t) == APR_SUCCESS, "a transaction ends well");
    after = before;
    t = begin(0);
    for (unsigned i = 0; i < sizeof ops - 1; i++) VP_ASSERT(step(t, ops[i], &after), "a step succeeds");
#ifdef VP_CRASH
    armed = 1;
#endif
    vpd_faults = VP_FAULTS;
#ifdef VP_ABORT
    apr_status_t st = napr_db_txn_abort(t);
    after = before;
#else
    apr_status_t st = napr_db_txn_commit(t);
#endif
    armed = 0;
    vpd_faults = 0;
    VP_ASSERT(vpd_failed || st == APR_SUCCESS, "a commit succeeds when nothing fails");
    VP_ASSERT(vpd_held() == 0, "the writer lock is released");
    int want = st == APR_SUCCESS ? 2 : 1;
    if (st == APR_SUCCESS) VP_COVER("committed"); else VP_COVER("refused");
    judge(want);
#if VP_FAULTS
    if (st != APR_SUCCESS) {
        /* a failed transaction leaves nothing behind, for later ones in this process and after a crash */
        if (vp_bool()) {
            napr_db_txn_t *u = NULL;
            if (napr_db_txn_begin(env, 0, &u) == APR_SUCCESS) {
                VP_ASSERT(step(u, 'p', &before), "an entry can be stored");
                VP_ASSERT(napr_db_txn_commit(u) == APR_SUCCESS, "a transaction ends well");
                after = before;
                judge(1);
                if (vp_bool()) crash(1);
                VP_COVER("next transaction");
            }
            else {
                VP_ASSERT(vpd_failed >= 2, "writing is refused only when the file is in an unknown state");
                VP_ASSERT(vpd_held() == 0, "the writer lock is released");
                judge(1);
                VP_COVER("no more writing");
            }
            return;
        }
        if (vpd_failed < 2) crash(1);
        return;
    }
#endif
    crash(want);
}
