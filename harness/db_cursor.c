/* A database built by VP_SETUP (as in db_crash.c; c commits), then a cursor moved about: walks both ways, positioning at any key,
 * and VP_MOVES further moves of any kind. */
#include "db_common.h"
static const char setup[] = VP_SETUP;
static const unsigned short klens[] = VP_KLENS, vlens[] = VP_VLENS;
#define NUM(a) (sizeof(a) / sizeof((a)[0]))
static struct model m;
static struct ent q[32];
static napr_db_cursor_t *c;
static int order[NENT], cnt;             /* entries in key order */

/* position of the cursor in the order; -1 none */
static void is_at(apr_status_t st, const napr_db_val_t *k, const napr_db_val_t *d, int pos)
{
    if (pos < 0 || pos >= cnt) { VP_ASSERT(st == APR_NOTFOUND, "there is no entry there"); return; }
    VP_ASSERT(st == APR_SUCCESS, "there is an entry there");
    if (st != APR_SUCCESS) VP_STOP();
    struct ent *e = &m.e[order[pos]];
    VP_ASSERT(k->size == e->klen && memcmp(k->data, e->k, e->klen) == 0, "the cursor is at the right key");
    VP_ASSERT(d->size == e->vlen && memcmp(d->data, e->v, e->vlen) == 0, "the cursor returns the value of the key");
}
void vp_harness(void)
{
    open_env(NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK);
    napr_db_txn_t *t = begin(0);
    for (unsigned i = 0; i < sizeof setup - 1; i++) {
        char op = setup[i];
        if (op == 'c') { VP_ASSERT(napr_db_txn_commit(t) == APR_SUCCESS, "a transaction ends well"); t = begin(0); continue; }
        int fput = op >= '0' && op <= '9', fdel = op >= 'A' && op <= 'J', dl = op == 'd';
        q[i].klen = klens[i % NUM(klens)];
        for (unsigned b = 0; b < q[i].klen; b++) q[i].k[b] = 'k';
        q[i].k[0] = fput ? (unsigned char) (op * 4) : fdel ? (unsigned char) ((op - 'A' + '0') * 4) : vp_u8();
        if (op == '?') dl = vp_bool();
        napr_db_val_t k = { q[i].klen, q[i].k };
        if (fdel || dl) {
            apr_status_t st = napr_db_del(t, &k, NULL);
            struct ent *e = lookup(&m, &q[i]);
            VP_ASSERT(st == (e ? APR_SUCCESS : APR_NOTFOUND), "a key can be deleted when it is there");
            if (e) e->used = 0;
        }
        else {
            fill_val(&q[i], vlens[i % NUM(vlens)]);
            napr_db_val_t d = { q[i].vlen, q[i].v };
            apr_status_t st = napr_db_put(t, &k, &d);
            VP_ASSERT(st == APR_SUCCESS || st == APR_EEXIST, "an entry can be stored");
            if (st == APR_SUCCESS) store(&m, &q[i]);
        }
    }
#ifdef VP_READER
    VP_ASSERT(napr_db_txn_commit(t) == APR_SUCCESS, "a transaction ends well");
    t = begin(NAPR_DB_RDONLY);
#endif
    for (int i = 0; i < NENT; i++) {
        if (!m.e[i].used) continue;
        int j = cnt++;
        for (; j > 0 && key_cmp(m.e[order[j - 1]].k, m.e[order[j - 1]].klen, m.e[i].k, m.e[i].klen) > 0; j--) order[j] = order[j - 1];
        order[j] = i;
    }
    check_walk(t, &m, 1);
    check_walk(t, &m, 0);
    VP_ASSERT(napr_db_cursor_open(t, &c) == APR_SUCCESS, "a cursor opens");
    napr_db_val_t k = { 0 }, d = { 0 };
    VP_ASSERT(napr_db_cursor_get(c, &k, &d, NAPR_DB_GET_CURRENT) == APR_NOTFOUND, "a fresh cursor is nowhere");
    struct ent p = { 0 };
    p.klen = VP_PROBE;
    for (unsigned b = 0; b < p.klen; b++) p.k[b] = 'k';
    p.k[0] = vp_u8();
    int ge = 0, eq = 0;
    while (ge < cnt && key_cmp(m.e[order[ge]].k, m.e[order[ge]].klen, p.k, p.klen) < 0) ge++;
    eq = ge < cnt && key_cmp(m.e[order[ge]].k, m.e[order[ge]].klen, p.k, p.klen) == 0;
    int pos;
    unsigned how = vp_range(0, 3);
    k.size = p.klen;
    k.data = p.k;
    if (how == 0) { pos = 0; is_at(napr_db_cursor_get(c, &k, &d, NAPR_DB_FIRST), &k, &d, pos); }
    else if (how == 1) { pos = cnt - 1; is_at(napr_db_cursor_get(c, &k, &d, NAPR_DB_LAST), &k, &d, pos); }
    else if (how == 2) { pos = eq ? ge : -1; is_at(napr_db_cursor_get(c, &k, &d, NAPR_DB_SET), &k, &d, pos); }
    else { pos = ge; is_at(napr_db_cursor_get(c, &k, &d, NAPR_DB_SET_RANGE), &k, &d, pos); }
    if (pos >= 0 && pos < cnt) {
        for (int i = 0; i < VP_MOVES; i++) {
            unsigned mv = vp_range(0, 2);
            apr_status_t st = napr_db_cursor_get(c, &k, &d, mv == 0 ? NAPR_DB_NEXT : mv == 1 ? NAPR_DB_PREV : NAPR_DB_GET_CURRENT);
            pos += mv == 0 ? 1 : mv == 1 ? -1 : 0;
            is_at(st, &k, &d, pos);
            if (pos < 0 || pos >= cnt) break;
            VP_COVER("moved");
        }
    }
    napr_db_cursor_close(c);
    napr_db_txn_abort(t);
    VP_COVER("end");
}
