/* Stand-ins for the parts of APR that are not the subject: pools, tables of bytes, strings. */
#include "vp.h"
#include "vp_apr.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <apr_pools.h>
#include <apr_strings.h>
#include <apr_general.h>
#include <apr_tables.h>
#include <apr_errno.h>

struct vp_cleanup { struct vp_cleanup *next; const void *data; apr_status_t (*fn)(void *); };
struct apr_pool_t { int dead; apr_pool_t *parent; struct vp_cleanup *cleanups;
#ifdef VP_POOL_FREE
    apr_pool_t *child, *sibling;
    struct vp_block *blocks;
#endif
};
#ifdef VP_POOL_FREE
/* what a pool handed out is really released with it */
struct vp_block { struct vp_block *next; void *mem; };
static void *vp_pool_keep(apr_pool_t *p, void *m)
{
    struct vp_block *b = vp_zalloc(sizeof *b);
    b->mem = m;
    b->next = p->blocks;
    p->blocks = b;
    return m;
}
#else
#define vp_pool_keep(p, m) (m)
#endif

static struct apr_pool_t vp_root_pool;
apr_pool_t *vp_pool(void) { return &vp_root_pool; }

apr_status_t apr_pool_create_ex(apr_pool_t **newpool, apr_pool_t *parent, apr_abortfunc_t abort_fn, apr_allocator_t *allocator)
{
    (void) abort_fn; (void) allocator;
    apr_pool_t *p = vp_zalloc(sizeof *p);
    p->parent = parent;
#ifdef VP_POOL_FREE
    if (!p->parent) p->parent = vp_pool();
    p->sibling = p->parent->child;
    p->parent->child = p;
#endif
    *newpool = p;
    return APR_SUCCESS;
}
apr_status_t apr_pool_create_unmanaged_ex(apr_pool_t **newpool, apr_abortfunc_t abort_fn, apr_allocator_t *allocator)
{
    return apr_pool_create_ex(newpool, NULL, abort_fn, allocator);
}
static void vp_run_cleanups(apr_pool_t *p)
{
    while (p->cleanups) {
        struct vp_cleanup *c = p->cleanups;
        p->cleanups = c->next;
        c->fn((void *) c->data);
    }
}
#ifdef VP_POOL_FREE
void apr_pool_destroy(apr_pool_t *p);
void apr_pool_clear(apr_pool_t *p)
{
    VP_ASSERT(!p->dead, "pool cleared after it was destroyed");
    while (p->child) apr_pool_destroy(p->child);
    vp_run_cleanups(p);
    while (p->blocks) {
        struct vp_block *b = p->blocks;
        p->blocks = b->next;
        free(b->mem);
        free(b);
    }
}
void apr_pool_destroy(apr_pool_t *p)
{
    VP_ASSERT(!p->dead, "pool destroyed twice");
    apr_pool_clear(p);
    p->dead = 1;
    apr_pool_t **pp = &p->parent->child;
    while (*pp != p) pp = &(*pp)->sibling;
    *pp = p->sibling;
}
#else
void apr_pool_clear(apr_pool_t *p) { VP_ASSERT(!p->dead, "pool cleared after it was destroyed"); vp_run_cleanups(p); }
void apr_pool_destroy(apr_pool_t *p) { VP_ASSERT(!p->dead, "pool destroyed twice"); vp_run_cleanups(p); p->dead = 1; }
#endif
int vp_pool_is_dead(apr_pool_t *p) { return p->dead; }
apr_pool_t *apr_pool_parent_get(apr_pool_t *p) { return p->parent; }
void apr_pool_tag(apr_pool_t *p, const char *tag) { (void) p; (void) tag; }
void apr_pool_cleanup_register(apr_pool_t *p, const void *data, apr_status_t (*plain)(void *), apr_status_t (*child)(void *))
{
    (void) child;
    struct vp_cleanup *c = vp_zalloc(sizeof *c);
    c->data = data; c->fn = plain; c->next = p->cleanups;
    p->cleanups = c;
}
void apr_pool_pre_cleanup_register(apr_pool_t *p, const void *data, apr_status_t (*plain)(void *))
{
    apr_pool_cleanup_register(p, data, plain, plain);
}
void apr_pool_cleanup_kill(apr_pool_t *p, const void *data, apr_status_t (*fn)(void *))
{
    struct vp_cleanup **pp = &p->cleanups;
    while (*pp) {
        if ((*pp)->data == data && (*pp)->fn == fn) { *pp = (*pp)->next; return; }
        pp = &(*pp)->next;
    }
}
apr_status_t apr_pool_cleanup_run(apr_pool_t *p, void *data, apr_status_t (*fn)(void *))
{
    apr_pool_cleanup_kill(p, data, fn);
    return fn(data);
}
apr_status_t apr_pool_cleanup_null(void *data) { (void) data; return APR_SUCCESS; }

void *apr_palloc(apr_pool_t *p, apr_size_t size)
{
    VP_ASSERT(p != NULL && !p->dead, "allocation from a live pool");
    return vp_pool_keep(p, vp_alloc(size));
}
#undef apr_pcalloc
void *apr_pcalloc(apr_pool_t *p, apr_size_t size)
{
    VP_ASSERT(p != NULL && !p->dead, "allocation from a live pool");
    return vp_pool_keep(p, vp_zalloc(size));
}

/* ---- strings ---- */
#ifndef VP_OWN_STRDUP
char *apr_pstrdup(apr_pool_t *p, const char *s)
{
    if (!s) return NULL;
    size_t n = strlen(s) + 1;
#ifdef VP_DUPMAX
    VP_ASSUME(n <= VP_DUPMAX);
    char *r = apr_palloc(p, VP_DUPMAX);
    for (size_t i = 0; i < VP_DUPMAX; i++) if (i < n) r[i] = s[i];
#else
    char *r = apr_palloc(p, n);
    for (size_t i = 0; i < n; i++) r[i] = s[i];
#endif
    return r;
}
#endif
char *apr_pstrmemdup(apr_pool_t *p, const char *s, apr_size_t n)
{
    if (!s) return NULL;
    char *r = apr_palloc(p, n + 1);
    for (size_t i = 0; i < n; i++) r[i] = s[i];
    r[n] = 0;
    return r;
}
#ifndef VP_OWN_STRDUP
char *apr_pstrndup(apr_pool_t *p, const char *s, apr_size_t n)
{
    if (!s) return NULL;
    size_t k = 0;
    while (k < n && s[k]) k++;
    return apr_pstrmemdup(p, s, k);
}
#endif
void *apr_pmemdup(apr_pool_t *p, const void *m, apr_size_t n)
{
    if (!m) return NULL;
    unsigned char *r = apr_palloc(p, n);
    for (size_t i = 0; i < n; i++) r[i] = ((const unsigned char *) m)[i];
    return r;
}
char *apr_cpystrn(char *dst, const char *src, apr_size_t n)
{
    if (n == 0) return dst;
    size_t i = 0;
    if (src) for (; i + 1 < n && src[i]; i++) dst[i] = src[i];
    dst[i] = 0;
    return dst + i;
}
char *apr_pstrcat(apr_pool_t *p, ...)
{
    /* real varargs walk: first the length, then the copy */
    va_list ap;
    size_t n = 0;
    const char *s;
    va_start(ap, p);
    while ((s = va_arg(ap, const char *)) != NULL) n += strlen(s);
    va_end(ap);
    char *r = apr_palloc(p, n + 1);
    size_t k = 0;
    va_start(ap, p);
    while ((s = va_arg(ap, const char *)) != NULL) for (size_t i = 0; s[i]; i++) r[k++] = s[i];
    va_end(ap);
    r[k] = 0;
    return r;
}
char *apr_strtok(char *str, const char *sep, char **last)
{
    if (!str) str = *last;
    while (*str && strchr(sep, *str)) ++str;
    if (!*str) return NULL;
    char *token = str;
    *last = token + 1;
    while (**last && !strchr(sep, **last)) ++*last;
    if (**last) { **last = 0; ++*last; }
    return token;
}
char *apr_strerror(apr_status_t st, char *buf, apr_size_t n)
{
    (void) st;
    if (n) buf[0] = 0;
    return buf;
}
#ifndef VP_OWN_INIT
apr_status_t apr_initialize(void) { return APR_SUCCESS; }
void apr_terminate(void) { }
#endif
