/* The database against a map kept by the harness. */
#include "vp.h"
#include "vp_apr.h"
#include "db_env.h"
#include "napr_db.h"
#include <string.h>
#include <apr_errno.h>
/* entries: keys of KLEN[i] bytes whose first bytes are symbolic, values of a length given with each put */
#ifndef VP_KEYBYTES
#define VP_KEYBYTES 1
#endif
#ifndef KMAX
#define KMAX 64
#define VMAX 80
#endif
#define NENT 16
struct ent { int used; unsigned klen, vlen; unsigned char k[KMAX], v[VMAX]; };
struct model { struct ent e[NENT]; };

static napr_db_env_t *env;
static void fill_key(struct ent *e, unsigned klen)
{
    e->klen = klen;
    for (unsigned i = 0; i < klen; i++) e->k[i] = i < VP_KEYBYTES ? vp_u8() : (unsigned char) 'k';
}
static void fill_val(struct ent *e, unsigned vlen)
{
    e->vlen = vlen;
    for (unsigned i = 0; i < vlen; i++) e->v[i] = i == 0 || i + 1 == vlen ? vp_u8() : (unsigned char) i;
}
static int key_cmp(const unsigned char *a, unsigned n, const unsigned char *b, unsigned m)
{
    int c = memcmp(a, b, n < m ? n : m);
    return c ? c : n < m ? -1 : n > m;
}
static struct ent *lookup(struct model *m, const struct ent *q)
{
    for (int i = 0; i < NENT; i++)
        if (m->e[i].used && m->e[i].klen == q->klen && memcmp(m->e[i].k, q->k, q->klen) == 0) return &m->e[i];
    return NULL;
}
static void store(struct model *m, const struct ent *q)
{
    struct ent *e = lookup(m, q);
    for (int i = 0; !e && i < NENT; i++) if (!m->e[i].used) e = &m->e[i];
    VP_ASSERT(e != NULL, "the harness keeps enough entries");
    *e = *q;
    e->used = 1;
}
static void check_get(napr_db_txn_t *t, struct model *m, const struct ent *q)
{
    napr_db_val_t k = { q->klen, (void *) q->k }, d = { 0, NULL };
    apr_status_t st = napr_db_get(t, &k, &d);
    struct ent *e = lookup(m, q);
    if (!e) VP_ASSERT(st == APR_NOTFOUND, "a key that is not in the database is not found");
    else {
        VP_ASSERT(st == APR_SUCCESS, "a key of the database is found");
        if (st != APR_SUCCESS) return;
        VP_ASSERT(d.size == e->vlen, "its value has the size that was stored");
        if (d.size != e->vlen) return;
        VP_ASSERT(memcmp(d.data, e->v, e->vlen) == 0, "its value is the one stored last");
    }
}
static void check_all(napr_db_txn_t *t, struct model *m, const struct ent *probe)
{
    for (int i = 0; i < NENT; i++) if (m->e[i].used) check_get(t, m, &m->e[i]);
    if (probe) check_get(t, m, probe);
}
/* the keys come out in order, each once, none other */
static void check_walk(napr_db_txn_t *t, struct model *m, int forward)
{
    napr_db_cursor_t *c;
    VP_ASSERT(napr_db_cursor_open(t, &c) == APR_SUCCESS, "a cursor opens");
    napr_db_val_t k = { 0 }, d = { 0 };
    unsigned char last[KMAX];
    unsigned lastlen = 0;
    int n = 0, want = 0;
    for (int i = 0; i < NENT; i++) want += m->e[i].used;
    apr_status_t st = napr_db_cursor_get(c, &k, &d, forward ? NAPR_DB_FIRST : NAPR_DB_LAST);
    while (st == APR_SUCCESS) {
        struct ent q = { 0 };
        VP_ASSERT(k.size <= KMAX && d.size <= VMAX, "an entry has the size of one that was stored");
        if (k.size > KMAX || d.size > VMAX) break;
        q.klen = (unsigned) k.size;
        memcpy(q.k, k.data, k.size);
        if (n) VP_ASSERT(forward ? key_cmp(last, lastlen, q.k, q.klen) < 0 : key_cmp(last, lastlen, q.k, q.klen) > 0, "the keys come in order, each once");
        memcpy(last, q.k, q.klen);
        lastlen = q.klen;
        struct ent *e = lookup(m, &q);
        VP_ASSERT(e != NULL, "the cursor returns keys of the database only");
        if (!e) break;
        VP_ASSERT(e->vlen == d.size && memcmp(d.data, e->v, e->vlen) == 0, "the cursor returns the value of the key");
        if (++n > want) break;
        st = napr_db_cursor_get(c, &k, &d, forward ? NAPR_DB_NEXT : NAPR_DB_PREV);
    }
    VP_ASSERT(n == want, "the cursor returns every key");
    napr_db_cursor_close(c);
}
static void open_env(unsigned flags)
{
    VP_ASSERT(napr_db_env_create(&env, vp_pool()) == APR_SUCCESS, "an environment is created");
    VP_ASSERT(napr_db_env_set_mapsize(env, VPD_BYTES) == APR_SUCCESS, "the map size is set");
    apr_status_t st = napr_db_env_open(env, "db", flags);
    VP_ASSERT(st == APR_SUCCESS, "the database opens");
    if (st != APR_SUCCESS) VP_STOP();
}
static napr_db_txn_t *begin(unsigned flags)
{
    napr_db_txn_t *t = NULL;
    apr_status_t st = napr_db_txn_begin(env, flags, &t);
    VP_ASSERT(st == APR_SUCCESS && t, "a transaction begins");
    if (st != APR_SUCCESS) VP_STOP();
    return t;
}
#define HALF ((FTWIN_VERIF_PAGE_SIZE - 18) / 2)
static int must_fit(const struct ent *q) { return q->klen + 12 <= HALF && 4 + q->klen + q->vlen + 2 <= HALF; }
