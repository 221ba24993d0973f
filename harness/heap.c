/* Any sequence of VP_OPS inserts/extracts with arbitrary keys: extract yields a maximum of what is inside, once. */
#include "vp.h"
#include "vp_apr.h"
#include <apr_thread_mutex.h>
#include "napr_heap.h"

struct el { int key; int inside; };
static struct el els[VP_OPS];

static int cmp(const void *a, const void *b)
{
    int x = ((const struct el *) a)->key, y = ((const struct el *) b)->key;
    return x < y ? -1 : x > y;
}

void vp_harness(void)
{
#ifdef VP_R
    napr_heap_t *h = napr_heap_make_r(vp_pool(), cmp);
#define napr_heap_insert napr_heap_insert_r
#else
    napr_heap_t *h = napr_heap_make(vp_pool(), cmp);
#endif
    VP_ASSERT(h != NULL, "a heap is made");
    unsigned n = 0, count = 0;
    for (unsigned step = 0; step < VP_OPS; step++) {
#ifdef VP_SCRIPT
        if ((VP_SCRIPT >> step) & 1) {
#else
        if (vp_bool()) {
#endif
            #ifdef VP_KEYMAX
            els[n].key = (int) vp_range(0, VP_KEYMAX);
#else
            els[n].key = (int) (int8_t) vp_u8();
#endif
            VP_ASSERT(napr_heap_insert(h, &els[n]) == 0, "insert succeeds");
            els[n].inside = 1;
            n++; count++;
        }
        else {
            struct el *e = napr_heap_extract(h);
            if (count == 0) VP_ASSERT(e == NULL, "an empty heap yields nothing");
            else {
                int ok = 0;
                for (unsigned i = 0; i < VP_OPS; i++) if (i < n && e == &els[i] && els[i].inside) ok = 1;
                VP_ASSERT(ok, "extract yields an element that is inside, once");
                if (ok) {
                    for (unsigned i = 0; i < VP_OPS; i++)
                        if (i < n && els[i].inside) VP_ASSERT(els[i].key <= e->key, "extract yields a largest element");
                    e->inside = 0;
                    count--;
                }
            }
        }
        VP_ASSERT(napr_heap_size(h) == count, "size counts the elements inside");
    }
    /* every index names another element */
    for (unsigned i = 0; i < VP_OPS; i++) {
        struct el *e = napr_heap_get_nth(h, i);
        if (i >= count) VP_ASSERT(e == NULL, "no element beyond the last one");
        else {
            VP_ASSERT(e >= els && e < els + n && e->inside == 1, "every index names another element that is inside");
            if (e) e->inside = 2;
        }
    }
    /* what is left comes out in order */
    int last = 0, first = 1;
    unsigned left = count;
    for (unsigned i = 0; i < VP_OPS; i++) {
        if (i < left) {
            struct el *e = napr_heap_extract(h);
            VP_ASSERT(e != NULL, "nothing is lost");
            if (!e) break;
            VP_ASSERT(e >= els && e < els + n && e->inside, "nothing comes out twice");
            e->inside = 0;
            VP_ASSERT(first || e->key <= last, "largest first");
            last = e->key; first = 0;
        }
    }
    VP_ASSERT(napr_heap_extract(h) == NULL, "drained heap is empty");
    VP_COVER("end");
#ifndef VP_SCRIPT
    if (n > left + 1) VP_COVER("mixed");
#endif
}
