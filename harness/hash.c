/* Insert/remove/search/iterate with symbolic hash values: a faithful map, whatever collides. */
#include "vp.h"
#include "vp_apr.h"
#include "napr_hash.h"

#ifndef VP_KEYS
#define VP_KEYS 4
#endif
struct el { uint8_t key; };
static struct el els[VP_KEYS];
static uint32_t hv[VP_KEYS];

static const void *get_key(const void *e) { return &((const struct el *) e)->key; }
static apr_size_t get_len(const void *e) { (void) e; return 1; }
static int key_cmp(const void *a, const void *b, apr_size_t n) { (void) n; return *(const uint8_t *) a - *(const uint8_t *) b; }
static apr_uint32_t hash_fn(const void *k, apr_size_t n)
{
    (void) n;
    return hv[*(const uint8_t *) k];
}

static int present[VP_KEYS];

static void check(napr_hash_t *h)
{
    for (unsigned i = 0; i < VP_KEYS; i++) {
        apr_uint32_t v = 77;
        uint8_t k = i;
        struct el *e = napr_hash_search(h, &k, 1, &v);
        VP_ASSERT(v == hv[i], "search hands back the key's hash");
        VP_ASSERT(present[i] ? e == &els[i] : e == NULL, "search finds exactly the present elements");
    }
}

void vp_harness(void)
{
    static const char script[] = VP_SCRIPT;     /* '0'..'3' insert that key, 'a'..'d' remove it */
    for (unsigned i = 0; i < VP_KEYS; i++) { els[i].key = i; 
        unsigned x = vp_range(0, VP_HMAX);
        unsigned v = 0;
        while (v < VP_HMAX && x != v) v++;      /* case split: one path per value */
        hv[i] = v;
    }
    /* fewer than VP_FF keys share one full hash value */
    for (unsigned i = 0; i < VP_KEYS; i++) {
        unsigned same = 0;
        for (unsigned j = 0; j < VP_KEYS; j++) same += hv[j] == hv[i];
        VP_ASSUME(same < VP_FF);
    }
    napr_hash_t *h = napr_hash_make(vp_pool(), VP_NEL, VP_FF, get_key, get_len, key_cmp, hash_fn);
    VP_ASSERT(h != NULL, "a table is made");
    for (unsigned s = 0; s < sizeof script - 1; s++) {
        if (script[s] < 'a') {
            unsigned i = script[s] - '0';
            apr_uint32_t v = 0;
            uint8_t k = i;
            VP_ASSERT(napr_hash_search(h, &k, 1, &v) == NULL, "absent before insertion");
            VP_ASSERT(napr_hash_set(h, &els[i], v) == APR_SUCCESS, "insertion succeeds");
            present[i] = 1;
        }
        else {
            unsigned i = script[s] - 'a';
            napr_hash_remove(h, &els[i], hv[i]);
            present[i] = 0;
        }
    }
    check(h);
    unsigned seen[VP_KEYS] = { 0 }, n = 0, total = 0;
    for (unsigned i = 0; i < VP_KEYS; i++) total += present[i];
    napr_hash_index_t *it = napr_hash_first(vp_pool(), h);
    while (it) {
        void *val = NULL;
        const void *key = NULL;
        apr_size_t klen = 0;
        n++;
        VP_ASSERT(n <= total, "iteration visits each element once");
        if (n > total) break;
        napr_hash_this(it, &key, &klen, &val);
        struct el *e = val;
        VP_ASSERT(e != NULL && key == &e->key && klen == 1, "iteration yields the element with its key");
        unsigned hit = 0;
        for (unsigned i = 0; i < VP_KEYS; i++) if (e == &els[i]) { hit = 1; VP_ASSERT(present[i] && !seen[i], "iteration visits present elements once"); seen[i] = 1; }
        VP_ASSERT(hit, "iteration yields stored elements");
        it = napr_hash_next(it);
    }
    VP_ASSERT(n == total, "iteration visits every element");
    VP_COVER("end");
}
