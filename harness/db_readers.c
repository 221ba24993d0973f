/* VP_OPS: 0-9 put of a fixed key, A-J delete of a fixed key, p put and d delete of any key, c commit, a abort, r begin a reader,
 * x end the oldest reader, y end the newest, ? begin or end a reader, or nothing,
 * M begin up to 125 readers, then one more, and end all but that one.
 * VP_MEET: a reader may also begin at any lock, write or sync of a commit, and a whole transaction may be committed while a reader begins. */
#include "db_common.h"
static const char ops[] = VP_OPS;
static const unsigned char vlens[] = VP_VLENS;
#define NR 4
static struct model now, committed, seen[NR];
static napr_db_txn_t *rd[NR], *w;
static int nrd, meet;
static struct ent q[40];
static unsigned nq;

static void look(void)
{
    for (int i = 0; i < nrd; i++) check_all(rd[i], &seen[i], NULL);
}
static void start(void)
{
    if (nrd == NR) return;
    int old = meet;
    meet = 0;
    napr_db_txn_t *t = begin(NAPR_DB_RDONLY);
    meet = old;
    rd[nrd] = t;
    seen[nrd++] = committed;
}
static void end(int i)
{
    if (i < 0 || i >= nrd) return;
    check_walk(rd[i], &seen[i], 1);
    VP_ASSERT((vp_bool() ? napr_db_txn_abort(rd[i]) : napr_db_txn_commit(rd[i])) == APR_SUCCESS, "a reader ends well");
    for (nrd--; i < nrd; i++) { rd[i] = rd[i + 1]; seen[i] = seen[i + 1]; }
}
static apr_status_t step(napr_db_txn_t *t, char op, struct model *m)
{
    unsigned i = nq++;
    int fput = op >= '0' && op <= '9', fdel = op >= 'A' && op <= 'J';
    q[i].klen = 1;
    q[i].k[0] = fput ? (unsigned char) (op * 4) : fdel ? (unsigned char) ((op - 'A' + '0') * 4) : vp_u8();
    napr_db_val_t k = { 1, q[i].k };
    apr_status_t st;
    if (fput || op == 'p') {
        fill_val(&q[i], vlens[i % sizeof vlens]);
        napr_db_val_t d = { q[i].vlen, q[i].v };
        st = napr_db_put(t, &k, &d);
        if (st == APR_SUCCESS) store(m, &q[i]);
        VP_ASSERT(st == APR_SUCCESS || st == APR_EEXIST, "an entry can be stored");
    }
    else {
        st = napr_db_del(t, &k, NULL);
        struct ent *e = lookup(m, &q[i]);
        if (st == APR_SUCCESS && e) e->used = 0;
        VP_ASSERT(st == APR_SUCCESS || st == APR_NOTFOUND, "an entry can be deleted");
    }
    return st;
}
static void commit(void)
{
    apr_status_t st = napr_db_txn_commit(w);
    VP_ASSERT(st == APR_SUCCESS, "a commit succeeds");
    if (st != APR_SUCCESS) VP_STOP();
    committed = now;
    w = NULL;
}
#ifdef VP_MEET
/* something else happens here: only what another thread could do, which needs the locks that are held now to be free */
static int budget = VP_MEET;
static void other(void)
{
    if (!meet || budget <= 0) return;
    if (meet == 1 && vp_bool()) {
        /* inside a commit: a reader begins and looks around */
        budget--;
        start();
        look();
        VP_COVER("a reader during a commit");
    }
    else if (meet == 2 && vp_bool()) {
        /* while a reader begins: two transactions are committed */
        budget--;
        meet = 0;
        for (int i = 0; i < 2; i++) {
            VP_ASSERT(napr_db_txn_begin(env, 0, &w) == APR_SUCCESS, "a transaction begins");
            step(w, '0', &now);
            commit();
        }
        VP_COVER("a commit while a reader begins");
    }
}
#endif
void vp_harness(void)
{
    open_env(NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK);
#ifdef VP_MEET
    vpd_event = vpd_locked = other;
#endif
    for (unsigned i = 0; i < sizeof ops - 1; i++) {
        char op = ops[i];
        if (op == '?') { unsigned c = vp_range(0, 3); if (c == 3) continue; op = c == 0 ? 'r' : c == 1 ? 'x' : 'y'; }
        if (op == 'r') start();
        else if (op == 'M') {
            static napr_db_txn_t *crowd[125];
            unsigned n = vp_range(0, 125);
            for (unsigned j = 0; j < n; j++) crowd[j] = begin(NAPR_DB_RDONLY);
            start();
            for (unsigned j = 0; j < n; j++) VP_ASSERT(napr_db_txn_abort(crowd[j]) == APR_SUCCESS, "a reader ends well");
        }
        else if (op == 'm') {
            /* a reader begins, and others meanwhile */
            napr_db_txn_t *t = NULL;
            struct model was = committed;
            meet = 2;
            VP_ASSERT(napr_db_txn_begin(env, NAPR_DB_RDONLY, &t) == APR_SUCCESS, "a reader begins");
            meet = 0;
            /* it sees the state before or after what was committed meanwhile: its own number tells which */
            rd[nrd] = t;
            napr_db_val_t k = { q[0].klen, q[0].k }, d = { 0 };
            int is_new = napr_db_get(t, &k, &d) == APR_SUCCESS;
            struct ent *e = lookup(&committed, &q[0]);
            if (is_new && e) is_new = d.size == e->vlen && memcmp(d.data, e->v, e->vlen) == 0;
            seen[nrd++] = is_new ? committed : was;
        }
        else if (op == 'x') end(0);
        else if (op == 'y') end(nrd - 1);
        else if (op == 'c') { if (!w) w = begin(0); meet = 1; commit(); meet = 0; VP_ASSERT(vpd_held() == 0, "no lock is held between transactions"); look(); }
        else if (op == 'a') { if (!w) w = begin(0); VP_ASSERT(napr_db_txn_abort(w) == APR_SUCCESS, "a transaction is aborted"); w = NULL; now = committed; look(); }
        else { if (!w) w = begin(0); step(w, op, &now); check_all(w, &now, NULL); }
    }
    look();
    napr_db_txn_t *t = begin(NAPR_DB_RDONLY);
    check_all(t, &committed, NULL);
    check_walk(t, &committed, 1);
    VP_COVER("end");
}
