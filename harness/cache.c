/* The file cache against a map kept by the harness.
 * VP_OPS: begin with no transaction.  r begin read, w begin write, e end read, c commit, a abort, u upsert, l lookup, m mark, s sweep, o close and open again;
 * ? any of u, l, m; ! any of u, c+w, a+w; % any of m, s.  VP_PLENS: path length of each step.  VP_FAULTS: calls that may fail from VP_FROM on. */
#include "vp.h"
#include "vp_apr.h"
#include "db_env.h"
#include "napr_cache.h"
#include <string.h>
#include <apr_errno.h>
static const char ops[] = VP_OPS;
static const unsigned char plens[] = VP_PLENS;
#define NENT 8
#define PMAX 40
struct ent { int used, marked; char path[PMAX]; napr_cache_entry_t e; };
struct model { struct ent e[NENT]; };
static struct model now, com;
static char marks[NENT][PMAX];
static int nmarks;
static napr_cache_t *c;
static int mode;                 /* 0 no transaction, 1 read, 2 write */

static struct ent *find(struct model *m, const char *p)
{
    for (int i = 0; i < NENT; i++) if (m->e[i].used && strcmp(m->e[i].path, p) == 0) return &m->e[i];
    return NULL;
}
static void store(struct model *m, const char *p, const napr_cache_entry_t *e)
{
    struct ent *x = find(m, p);
    for (int i = 0; !x && i < NENT; i++) if (!m->e[i].used) x = &m->e[i];
    VP_ASSERT(x != NULL, "the harness keeps enough entries");
    strcpy(x->path, p);
    x->e = *e;
    x->used = 1;
}
static void path(char *p, unsigned n)
{
    memset(p, 0, PMAX);
    for (unsigned i = 0; i < n; i++) p[i] = i == 0 || n == 2 ? (char) vp_u8() : '/';
    if (n) VP_ASSUME(p[0] != 0 && p[n - 1] != 0);
}
static void entry(napr_cache_entry_t *e)
{
    memset(e, 0, sizeof *e);
    unsigned char k = vp_u8();
    e->mtime = k;
    e->ctime = 7;
    e->size = (apr_off_t) k << 40;
    e->hash.low64 = vp_u64();
    e->hash.high64 = k;
}
static int same(const napr_cache_entry_t *a, const napr_cache_entry_t *b) { return memcmp(a, b, sizeof *a) == 0; }
static void look(struct model *m, const char *p)
{
    char q[PMAX];
    strcpy(q, p);
    const napr_cache_entry_t *e = (const void *) &e;
    int before = vpd_failed;
    apr_status_t st = napr_cache_lookup_in_txn(c, q, &e);
    struct ent *x = find(m, p);
    VP_ASSERT(strcmp(p, q) == 0, "a lookup leaves the path as it is");
    if (st != APR_SUCCESS && vpd_failed > before) return;
    VP_ASSERT(st == (x ? APR_SUCCESS : APR_NOTFOUND), "a path is found when an entry is stored for it");
    if (st != APR_SUCCESS) VP_ASSERT(e == NULL, "there is no entry when none is found");
    else if (x) { VP_ASSERT(same(e, &x->e), "the entry found is the one stored last"); VP_COVER("found"); }
}
static void check(struct model *m)
{
    for (int i = 0; i < NENT; i++) if (m->e[i].used) look(m, m->e[i].path);
}
static void walk_gone(struct model *before)
{
    /* nothing that was removed is still there */
    for (int i = 0; i < NENT; i++) if (before->e[i].used) look(&now, before->e[i].path);
}
static void reopen(void)
{
    VP_ASSERT(napr_cache_close(c) == APR_SUCCESS, "a cache closes");
    VP_ASSERT(vpd_open == 0 && vpd_mapped == 0 && vpd_held() == 0 && vpd_lock_taken == 0, "a closed cache holds nothing");
    mode = 0;
    now = com;
    nmarks = 0;
    c = NULL;
    VP_ASSERT(napr_cache_open(&c, "/c/db", vp_pool()) == APR_SUCCESS, "a cache opens again");
}
static int marked(const char *p)
{
    for (int i = 0; i < nmarks; i++) if (strcmp(marks[i], p) == 0) return 1;
    return 0;
}
static void finish(int commit)
{
    int before = vpd_failed;
    apr_status_t st = commit ? napr_cache_commit_write(c) : napr_cache_abort_write(c);
    VP_ASSERT(st == APR_SUCCESS || vpd_failed > before, "a transaction ends well");
    VP_ASSERT(vpd_held() == 0, "no lock is held between transactions");
    if (commit && st == APR_SUCCESS) com = now; else now = com;
    mode = 0;
}
static int start(int m)
{
    int before = vpd_failed;
    apr_status_t st = m == 1 ? napr_cache_begin_read(c, vp_pool()) : napr_cache_begin_write(c, vp_pool());
    VP_ASSERT(st == APR_SUCCESS || vpd_failed > before, "a transaction begins");
    if (st == APR_SUCCESS) mode = m;
    else VP_ASSERT(vpd_held() == 0, "a transaction that did not begin holds no lock");
    return st == APR_SUCCESS;
}

void vp_harness(void)
{
    vpd_need_lock = 1;
    apr_status_t st = napr_cache_open(&c, "/c/db", vp_pool());
    VP_ASSERT(st == APR_SUCCESS, "a cache opens");
    if (st != APR_SUCCESS) VP_STOP();
    for (unsigned i = 0; i < sizeof ops - 1; i++) {
        char op = ops[i];
        if (i == VP_FROM) vpd_faults = VP_FAULTS;
        int before = vpd_failed;
        if (op == '?') { unsigned k = vp_range(0, 2); op = "ulm"[k]; }
        if (op == '!') { unsigned k = vp_range(0, 2); op = "uCA"[k]; }
        if (op == '%') { op = vp_bool() ? 'm' : 's'; }
        char p[PMAX];
        if (op == 'r' && !mode) start(1);
        else if (op == 'w' && !mode) start(2);
        else if (op == 'e' && mode == 1) {
            st = napr_cache_end_read(c);
            VP_ASSERT(st == APR_SUCCESS || vpd_failed > before, "a transaction ends well");
            VP_ASSERT(vpd_held() == 0, "no lock is held between transactions");
            mode = 0;
        }
        else if (op == 'c' && mode == 2) finish(1);
        else if (op == 'a' && mode == 2) finish(0);
        else if (op == 'C' && mode == 2) { finish(1); start(2); }
        else if (op == 'A' && mode == 2) { finish(0); start(2); }
        else if (op == 'u') {
            napr_cache_entry_t e;
            path(p, plens[i % sizeof plens]);
            entry(&e);
            st = napr_cache_upsert_in_txn(c, p, &e);
            if (mode == 2) {
                if (st != APR_SUCCESS && vpd_failed > before) {
                    /* a store that failed half way: the transaction is given up */
                    finish(0);
                    continue;
                }
                VP_ASSERT(st == APR_SUCCESS, "an entry can be stored, and stored again");
                if (st == APR_SUCCESS) { store(&now, p, &e); VP_COVER("stored"); }
                memset(&e, 0x5a, sizeof e);
                memset(p, 0x5a, PMAX);     /* the caller may reuse his memory */
            }
            else VP_ASSERT(st != APR_SUCCESS, "an entry can be stored in a writing transaction only");
        }
        else if (op == 'l') {
            path(p, plens[i % sizeof plens]);
            if (mode) look(&now, p);
        }
        else if (op == 'm') {
            path(p, plens[i % sizeof plens]);
            st = napr_cache_mark_visited(c, p);
            VP_ASSERT(st == APR_SUCCESS || vpd_failed > before, "a path can be marked");
            VP_ASSERT(vpd_held() == (mode == 2), "marking leaves no lock held");
            if (st == APR_SUCCESS) { strcpy(marks[nmarks++], p); memset(p, 0x5a, PMAX); }
        }
        else if (op == 's') {
            static struct model old;
            old = com;
            st = napr_cache_sweep(c);
            if (mode) VP_ASSERT(st != APR_SUCCESS, "there is no sweep inside a transaction");
            else {
                VP_ASSERT(st == APR_SUCCESS || vpd_failed > before, "a sweep ends well");
                VP_ASSERT(vpd_held() == 0, "a sweep leaves no lock held");
                if (st == APR_SUCCESS) {
                    for (int k = 0; k < NENT; k++) if (com.e[k].used && !marked(com.e[k].path)) { com.e[k].used = 0; VP_COVER("swept"); }
                    nmarks = 0;
                    now = com;
                }
                int f = vpd_faults;
                vpd_faults = 0;
                if (start(1)) { check(&com); walk_gone(&old); napr_cache_end_read(c); mode = 0; }
                vpd_faults = f;
            }
        }
        else if (op == 'o') reopen();
    }
    vpd_faults = 0;
    if (mode) check(&now);
    if (mode == 1) { VP_ASSERT(napr_cache_end_read(c) == APR_SUCCESS, "a transaction ends well"); mode = 0; }
    if (mode == 2) finish(1);
    reopen();
    if (start(1)) check(&com);
    VP_ASSERT(napr_cache_close(c) == APR_SUCCESS, "a cache closes");
    VP_ASSERT(vpd_open == 0 && vpd_mapped == 0 && vpd_held() == 0 && vpd_lock_taken == 0, "a closed cache holds nothing");
    VP_COVER("end");
}
