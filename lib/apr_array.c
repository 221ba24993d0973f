/* APR arrays: growing tables of elements. */
#include "vp.h"
#include <apr_tables.h>
#include <apr_strings.h>
#include <string.h>

apr_array_header_t *apr_array_make(apr_pool_t *p, int nelts, int elt_size)
{
    apr_array_header_t *a = apr_palloc(p, sizeof *a);
    if (nelts < 1) nelts = 1;
    a->pool = p;
    a->elt_size = elt_size;
    a->nelts = 0;
    a->nalloc = nelts;
    a->elts = apr_pcalloc(p, (apr_size_t) nelts * elt_size);
    return a;
}
void *apr_array_push(apr_array_header_t *a)
{
    if (a->nelts == a->nalloc) {
        int n = a->nalloc * 2;
        char *e = apr_pcalloc(a->pool, (apr_size_t) n * a->elt_size);
        memcpy(e, a->elts, (apr_size_t) a->nalloc * a->elt_size);
        a->elts = e;
        a->nalloc = n;
    }
    a->nelts++;
    return a->elts + (apr_size_t) a->elt_size * (a->nelts - 1);
}
void *apr_array_push_noclear(apr_array_header_t *a) { return apr_array_push(a); }
void *apr_array_pop(apr_array_header_t *a)
{
    if (a->nelts == 0) return NULL;
    return a->elts + (apr_size_t) a->elt_size * (--a->nelts);
}
void apr_array_clear(apr_array_header_t *a) { a->nelts = 0; }
int apr_is_empty_array(const apr_array_header_t *a) { return a == NULL || a->nelts == 0; }
