/* One page with VP_N entries of any content, in any layout; then one operation (VP_OP: 1 search, 2 insert, 3 delete, 4 split). */
#include "db_common.h"
#include "napr_db_internal.h"
#define N VP_N
struct nod { unsigned klen, vlen; unsigned char k[8], v[8]; unsigned long long pg; };
static struct nod in[N + 1];
static const unsigned char klen[] = VP_KLENS, vlen[] = VP_VLENS;
static unsigned node_size(const struct nod *x) { return VP_LEAF ? 4 + x->klen + x->vlen : 10 + x->klen; }
static void fill(struct nod *x, unsigned i)
{
    x->klen = klen[i];
    x->vlen = VP_LEAF ? vlen[i] : 0;
    for (unsigned b = 0; b < x->klen; b++) x->k[b] = b < 2 ? vp_u8() : 'k';
    for (unsigned b = 0; b < x->vlen; b++) x->v[b] = vp_u8();
    if (!VP_LEAF) x->pg = vp_u64();
}
static int less(const struct nod *a, const struct nod *b) { return key_cmp(a->k, a->klen, b->k, b->klen) < 0; }
/* the page holds exactly these entries, in this order, one after the other without overlap and within its bounds */
static void holds(const unsigned char *p, const struct nod *e, unsigned n)
{
    DB_PageHeader h;
    memcpy(&h, p, sizeof h);
    unsigned used = 0;
    VP_ASSERT(h.num_keys == n, "the page has the expected number of entries");
    VP_ASSERT(h.flags == (VP_LEAF ? P_LEAF : P_BRANCH), "the page keeps its kind");
    if (h.num_keys != n) VP_STOP();
    for (unsigned i = 0; i < n; i++) used += node_size(&e[i]);
    VP_ASSERT(h.lower == 18 + 2 * n, "the slots end where the header says");
    VP_ASSERT(h.upper <= PAGE_SIZE && PAGE_SIZE - h.upper == used, "the entries take the room they need");
    if (h.upper > PAGE_SIZE || h.upper < h.lower) VP_STOP();
    unsigned lo[N + 1], hi[N + 1];
    for (unsigned i = 0; i < n; i++) {
        uint16_t o;
        memcpy(&o, p + 18 + 2 * i, 2);
        lo[i] = o;
        hi[i] = o + node_size(&e[i]);
        VP_ASSERT(o >= h.upper && hi[i] <= PAGE_SIZE, "an entry lies within the page");
        if (o < h.upper || hi[i] > PAGE_SIZE) VP_STOP();
        for (unsigned j = 0; j < i; j++) VP_ASSERT(hi[i] <= lo[j] || hi[j] <= lo[i], "entries do not overlap");
        const unsigned char *x = p + o;
        uint16_t ks, vs;
        if (VP_LEAF) {
            memcpy(&ks, x, 2);
            memcpy(&vs, x + 2, 2);
            VP_ASSERT(ks == e[i].klen && vs == e[i].vlen, "an entry keeps its sizes");
            VP_ASSERT(memcmp(x + 4, e[i].k, e[i].klen) == 0 && memcmp(x + 4 + e[i].klen, e[i].v, e[i].vlen) == 0, "an entry keeps its key and value");
        }
        else {
            pgno_t pg;
            memcpy(&pg, x, 8);
            memcpy(&ks, x + 8, 2);
            VP_ASSERT(ks == e[i].klen && pg == e[i].pg && memcmp(x + 10, e[i].k, e[i].klen) == 0, "an entry keeps its key and child");
        }
    }
}
/* concrete layout: the i-th entry placed from the end of the page is order[i] */
static unsigned char *build(void)
{
    unsigned char *p = vp_alloc(PAGE_SIZE);
    DB_PageHeader h = { 5, VP_LEAF ? P_LEAF : P_BRANCH, N, 18 + 2 * N, PAGE_SIZE, 0 };
    int placed[N + 1] = { 0 };
    for (unsigned i = 0; i < N; i++) {
        unsigned j = N > 1 ? vp_range(0, N - 1) : 0;
        VP_ASSUME(!placed[j]);
        placed[j] = 1;
        h.upper -= node_size(&in[j]);
        uint16_t o = h.upper, ks = in[j].klen, vs = in[j].vlen;
        memcpy(p + 18 + 2 * j, &o, 2);
        unsigned char *x = p + o;
        if (VP_LEAF) { memcpy(x, &ks, 2); memcpy(x + 2, &vs, 2); memcpy(x + 4, in[j].k, ks); memcpy(x + 4 + ks, in[j].v, vs); }
        else { pgno_t pg = in[j].pg; memcpy(x, &pg, 8); memcpy(x + 8, &ks, 2); memcpy(x + 10, in[j].k, ks); }
    }
    memcpy(p, &h, sizeof h);
    return p;
}
void vp_harness(void)
{
    for (unsigned i = 0; i < N; i++) fill(&in[i], i);
    for (unsigned i = 1; i < N; i++) VP_ASSUME(less(&in[i - 1], &in[i]));
    unsigned char *p = build();
    DB_PageHeader *pg = (DB_PageHeader *) p;
#if VP_OP == 1 || VP_OP == 2
    static struct nod x;
    fill(&x, N);
    napr_db_val_t k = { x.klen, x.k };
    uint16_t ix = 0xffff;
    unsigned want = 0;
    while (want < N && less(&in[want], &x)) want++;
    int eq = want < N && !less(&x, &in[want]);
    apr_status_t st = db_page_search(pg, &k, &ix);
    VP_ASSERT(st == (eq ? APR_SUCCESS : APR_NOTFOUND), "a search finds a key that is there and no other");
    VP_ASSERT(ix == want, "a search yields the position of the key or where it belongs");
    holds(p, in, N);
    if (!eq) VP_COVER("not there");
#endif
#if VP_OP == 2
    if (eq) return;
    unsigned free_room = PAGE_SIZE - 18 - 2 * N;
    for (unsigned i = 0; i < N; i++) free_room -= node_size(&in[i]);
    /* sizes around what fits, and far beyond */
    size_t ksz = x.klen, vsz = x.vlen;
    unsigned char *buf = vp_zalloc(PAGE_SIZE + 8);
    unsigned base = (VP_LEAF ? 4 : 10) + 2;
    unsigned c = vp_range(0, 8);
    size_t *grow = VP_LEAF && vp_bool() ? &vsz : &ksz;
    size_t rest = base + x.klen + x.vlen - *grow;
    if (c == 1) *grow = free_room - rest;
    if (c == 2) *grow = free_room - rest + 1;
    if (c == 3) *grow = PAGE_SIZE;
    if (c == 4) *grow = PAGE_SIZE + 1;
    if (c == 5) *grow = 65536 - base;
    if (c == 6) *grow = 65536;
    if (c == 7) *grow = (size_t) 1 << 32;
    if (c == 8) *grow = ~(size_t) 0 - vp_range(0, 15);
    memcpy(buf, x.k, x.klen);
    unsigned char *old = vp_alloc(PAGE_SIZE);
    memcpy(old, p, PAGE_SIZE);
    unsigned char *vb = vp_zalloc(PAGE_SIZE + 8);
    memcpy(vb, x.v, x.vlen);
    k.data = buf;
    k.size = ksz;
    napr_db_val_t d = { vsz, vb };
    int fits = ksz <= PAGE_SIZE && vsz <= PAGE_SIZE && base + ksz + vsz <= free_room;
    unsigned long long child = vp_u64();
    st = db_page_insert(pg, ix, &k, VP_LEAF ? &d : NULL, child);
    VP_ASSERT(st == (fits ? APR_SUCCESS : APR_ENOSPC), "an entry is accepted when it fits, and refused otherwise");
    if (!fits) { VP_ASSERT(memcmp(old, p, PAGE_SIZE) == 0, "a refused entry leaves the page unchanged"); VP_COVER("refused"); return; }
    VP_COVER("inserted");
    if (c == 0) {
        struct nod out[N + 1];
        for (unsigned i = 0, j = 0; i < N + 1; i++) out[i] = i == want ? x : in[j++];
        out[want].pg = child;
        holds(p, out, N + 1);
    }
    else {
        /* the old entries are intact, the new one fills the page up */
        DB_PageHeader h;
        memcpy(&h, p, sizeof h);
        VP_ASSERT(h.num_keys == N + 1 && h.lower == h.upper, "an entry that just fits fills the page");
        VP_ASSERT(db_page_delete(pg, ix) == APR_SUCCESS, "an entry can be deleted");
        holds(p, in, N);
    }
#endif
#if VP_OP == 3
    uint16_t ix = vp_u16();
    unsigned char *old = vp_alloc(PAGE_SIZE);
    memcpy(old, p, PAGE_SIZE);
    apr_status_t st = db_page_delete(pg, ix);
    if (ix >= N) { VP_ASSERT(st == APR_EINVAL && memcmp(old, p, PAGE_SIZE) == 0, "an entry that is not there cannot be deleted"); return; }
    VP_ASSERT(st == APR_SUCCESS, "an entry can be deleted");
    struct nod out[N + 1];
    for (unsigned i = 0, j = 0; i < N; i++) if (i != ix) out[j++] = in[i];
    holds(p, out, N - 1);
    VP_COVER("deleted");
#endif
#if VP_OP == 4
    open_env(NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK);
    napr_db_txn_t *t = begin(0);
    DB_PageHeader *right = NULL;
    napr_db_val_t div = { 0 };
    apr_status_t st = VP_LEAF ? db_split_leaf(t, pg, &right, &div) : db_split_branch(t, pg, &right, &div);
    VP_ASSERT(st == APR_SUCCESS && right, "a page can be split");
    if (st != APR_SUCCESS) VP_STOP();
    unsigned nl = pg->num_keys, nr = right->num_keys;
    VP_ASSERT(nl + nr == N && nr > 0, "a split distributes the entries");
    if (nl + nr != N || nr == 0) VP_STOP();
    if (N > 1) VP_ASSERT(nl > 0, "both halves of a split get entries");
    VP_ASSERT(right->pgno != pg->pgno && right->pgno > 1 && pg->pgno == 5, "the right half gets a page of its own");
    holds(p, in, nl);
    holds((unsigned char *) right, in + nl, nr);
    VP_ASSERT(div.size == in[nl].klen && memcmp(div.data, in[nl].k, in[nl].klen) == 0, "the divider is the first key of the right half");
    VP_COVER("split");
#endif
}
