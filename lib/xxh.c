/* Stand-in for XXH3: an injective record of the bytes hashed (up to 7) and their number. */
#include "vp.h"
#include <stdlib.h>
#include "xxhash.h"
struct XXH3_state_s { uint64_t lo, n; int ready; };
static XXH128_hash_t mk(uint64_t lo, uint64_t n) { XXH128_hash_t h; h.low64 = lo; h.high64 = n; return h; }
#ifndef VP_FMAX
#define VP_FMAX 4
#endif
int vp_states;
XXH128_hash_t XXH3_128bits(const void *p, size_t n)
{
    uint64_t lo = 0;
    VP_ASSERT(n <= VP_FMAX, "only the file's bytes are hashed");
    for (size_t i = 0; i < VP_FMAX; i++) if (i < n) lo = lo << 8 | ((const unsigned char *) p)[i];
    return mk(lo, n);
}
XXH128_hash_t XXH128(const void *p, size_t n, XXH64_hash_t seed) { (void) seed; return XXH3_128bits(p, n); }
XXH3_state_t *XXH3_createState(void) { vp_states++; return vp_zalloc(sizeof(struct XXH3_state_s)); }
XXH_errorcode XXH3_freeState(XXH3_state_t *s) { (void) s; if (s) vp_states--; return XXH_OK; }
XXH_errorcode XXH3_128bits_reset(XXH3_state_t *s) { s->lo = s->n = 0; s->ready = 1; return XXH_OK; }
XXH_errorcode XXH3_128bits_update(XXH3_state_t *s, const void *p, size_t n)
{
    VP_ASSERT(s->ready, "the hash state is initialised");
    VP_ASSERT(n <= VP_FMAX, "only the file's bytes are hashed");
    for (size_t i = 0; i < VP_FMAX; i++) if (i < n) s->lo = s->lo << 8 | ((const unsigned char *) p)[i];
    s->n += n;
    return XXH_OK;
}
XXH128_hash_t XXH3_128bits_digest(const XXH3_state_t *s)
{
    VP_ASSERT(s->ready, "the hash state is initialised");
    return mk(s->lo, s->n);
}
int XXH128_isEqual(XXH128_hash_t a, XXH128_hash_t b) { return a.low64 == b.low64 && a.high64 == b.high64; }
