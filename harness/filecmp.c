/* filecmp(): a comparison that succeeds says "equal" exactly when the two files' bytes are equal. */
#include "vp.h"
#include "vp_apr.h"
#include "vp_file.h"
#include "ft_file.h"
#include <string.h>

static unsigned char c1[VP_FMAX], c2[VP_FMAX];

void vp_harness(void)
{
    for (unsigned i = 0; i < VP_FMAX; i++) { c1[i] = vp_u8(); c2[i] = vp_u8(); }
    unsigned size = vp_range(0, VP_FMAX);
    unsigned excess = vp_range(0, VP_FMAX + 1);
    int stale = vp_int();
    vp_nfs = 2;
    vp_fs[0].name = "A"; vp_fs[0].data = c1;
    vp_fs[1].name = "B"; vp_fs[1].data = c2;
    for (int i = 0; i < 2; i++) {
        vp_fs[i].len = size;
#ifdef VP_RESIZED
        vp_fs[i].len = vp_range(0, VP_FMAX);    /* changed since the directory was read */
#endif
        vp_fs[i].open_faults = vp_fs[i].read_faults = vp_fs[i].mmap_faults = vp_fs[i].close_faults = 1;
        vp_fs[i].short_reads = 1;
    }
#ifdef VP_RESIZED
    VP_ASSUME(size > 0);
#endif
    int result = stale;
    apr_status_t st = filecmp(vp_pool(), "A", "B", size, excess, &result);

    int equal = vp_fs[0].len == vp_fs[1].len;
    for (unsigned i = 0; i < VP_FMAX; i++)
        if (i < vp_fs[0].len && i < vp_fs[1].len && c1[i] != c2[i]) equal = 0;
    if (st == APR_SUCCESS && result == 0) VP_ASSERT(equal, "files declared identical have identical bytes");
    if (st == APR_SUCCESS && result != 0) VP_ASSERT(!equal, "files declared different differ");
    if (!vp_fs[0].faulted && !vp_fs[1].faulted) VP_ASSERT(st == APR_SUCCESS, "a comparison without any I/O error succeeds");
    if (st == APR_SUCCESS && result == 0 && size > 1) VP_COVER("identical");
    if (st == APR_SUCCESS && result != 0 && size > 1) VP_COVER("different");
    if (st != APR_SUCCESS) VP_COVER("error");
    if (st == APR_SUCCESS && result == 0 && size > 1 && size < excess && vp_fs[1].maps) VP_COVER("identical by mmap");
    if (st == APR_SUCCESS && result == 0 && size < excess && size > 1 && !vp_fs[1].maps) VP_COVER("fallback");
}
