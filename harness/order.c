/* Comparison and hash functions of the program's tables, on arbitrary records. */
#include "vp.h"
#include "vp_apr.h"
#include "ft_types.h"
#include "ft_report.h"
#include "key_hash.h"
#include "vp_nocheck.h"
int ft_file_cmp(const void *a, const void *b);
const void *ft_fsize_get_key(const void *opaque);
const void *ft_gids_get_key(const void *opaque);
static int sg(int x) { return (x > 0) - (x < 0); }
static ft_chksum_t c[3];
static ft_file_t f[3];
static ft_fsize_t s[3];
static ft_gid_t g[3];
#define EQH(i, j) (c[i].hash_value.low64 == c[j].hash_value.low64 && c[i].hash_value.high64 == c[j].hash_value.high64)
void vp_harness(void)
{
    for (int i = 0; i < 3; i++) {
        c[i].hash_value.low64 = vp_u64();
        c[i].hash_value.high64 = vp_u64();
        c[i].file = &f[i];
        f[i].prioritized = vp_bool();
        f[i].size = vp_i64();
        f[i].path = "p";
        s[i].val = vp_i64();
        g[i].val = vp_u32();
    }
    int ab = sg(ft_chksum_cmp(&c[0], &c[1])), ba = sg(ft_chksum_cmp(&c[1], &c[0])), bc = sg(ft_chksum_cmp(&c[1], &c[2])), ac = sg(ft_chksum_cmp(&c[0], &c[2]));
    VP_ASSERT(sg(ft_chksum_cmp(&c[0], &c[0])) == 0, "a record equals itself");
    VP_ASSERT(ab == -ba, "the order of two records does not depend on the side");
    if (ab <= 0 && bc <= 0) VP_ASSERT(ac <= 0, "the order is transitive");
    if (EQH(0, 2) && !EQH(0, 1)) VP_ASSERT(!(ab <= 0 && bc <= 0), "records of one hash are contiguous");
    if (EQH(0, 1)) VP_ASSERT(ab == (f[0].prioritized ? (f[1].prioritized ? 0 : -1) : f[1].prioritized ? 1 : 0), "prioritised files come first within a hash");
    else VP_ASSERT(ab != 0, "different hashes are told apart");

    VP_ASSERT(sg(ft_file_cmp(&f[0], &f[1])) == (f[0].size < f[1].size ? -1 : f[0].size > f[1].size), "files are ordered by size");

    const void *k0 = ft_fsize_get_key(&s[0]), *k1 = ft_fsize_get_key(&s[1]);
    apr_size_t kl = ft_fsize_get_key_len(&s[0]);
    VP_ASSERT((apr_off_t_key_cmp(k0, k1, kl) == 0) == (s[0].val == s[1].val), "sizes are equal exactly when they compare equal");
    VP_ASSERT(sg(apr_off_t_key_cmp(k0, k1, kl)) == -sg(apr_off_t_key_cmp(k1, k0, kl)), "size keys compare the same way from both sides");
    if (s[0].val == s[1].val) VP_ASSERT(apr_off_t_key_hash(k0, kl) == apr_off_t_key_hash(k1, kl), "equal sizes have equal hashes");

    const void *h0 = ft_gids_get_key(&g[0]), *h1 = ft_gids_get_key(&g[1]);
    apr_size_t hl = ft_gid_get_key_len(&g[0]);
    VP_ASSERT((gid_t_key_cmp(h0, h1, hl) == 0) == (g[0].val == g[1].val), "groups are equal exactly when they compare equal");
    VP_ASSERT(sg(gid_t_key_cmp(h0, h1, hl)) == -sg(gid_t_key_cmp(h1, h0, hl)), "group keys compare the same way from both sides");
    if (g[0].val == g[1].val) VP_ASSERT(gid_t_key_hash(h0, hl) == gid_t_key_hash(h1, hl), "equal groups have equal hashes");
    if (ab < 0 && EQH(0, 1)) VP_COVER("priority decides");
    if (ab < 0 && !EQH(0, 1)) VP_COVER("hash decides");
    VP_COVER("end");
}
/* XXH32 stand-in: any function of exactly the bytes given */
uint32_t XXH32(const void *p, size_t n, uint32_t seed)
{
    uint32_t h = seed + (uint32_t) n;
    for (size_t i = 0; i < 16; i++) if (i < n) h = (h << 5 | h >> 27) ^ ((const unsigned char *) p)[i];
    return h;
}
