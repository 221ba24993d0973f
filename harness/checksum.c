/* checksum_file(): the hash of exactly the file's bytes, or an error. */
#include "vp.h"
#include "vp_apr.h"
#include "vp_file.h"
#include "ft_file.h"
static unsigned char data[VP_FMAX];
extern int vp_states;
void vp_harness(void)
{
    for (unsigned i = 0; i < VP_FMAX; i++) data[i] = vp_u8();
    unsigned size = vp_range(0, VP_FMAX), excess = vp_range(0, VP_FMAX + 1);
    vp_nfs = 1;
    vp_fs[0].name = "A"; vp_fs[0].data = data;
    vp_fs[0].len = size;
    vp_fs[0].open_faults = vp_fs[0].read_faults = vp_fs[0].mmap_faults = vp_fs[0].close_faults = vp_fs[0].short_reads = 1;
    ft_hash_t h = { 1, 99 };
    apr_status_t st = checksum_file("A", size, excess, &h, vp_pool());
    uint64_t lo = 0;
    for (unsigned i = 0; i < VP_FMAX; i++) if (i < size) lo = lo << 8 | data[i];
    if (st == APR_SUCCESS) {
        VP_ASSERT(h.high64 == size && h.low64 == lo, "the checksum covers the file's bytes, in order, once");
        VP_ASSERT(!vp_fs[0].hard_fault, "a file that cannot be read yields an error");
    }
    if (!vp_fs[0].faulted) VP_ASSERT(st == APR_SUCCESS, "a file that can be read yields a checksum");
    if (st == APR_SUCCESS && size > 2 && vp_fs[0].maps) VP_COVER("mapped");
    if (st == APR_SUCCESS && size > 2 && !vp_fs[0].maps && size < excess) VP_COVER("fallback");
    if (st == APR_SUCCESS && size > 2 && size >= excess) VP_COVER("chunks");
    if (st == APR_SUCCESS && size == 0) VP_COVER("empty");
    if (st != APR_SUCCESS) VP_COVER("error");
}
