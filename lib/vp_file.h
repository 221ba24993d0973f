/* In-memory files behind the APR file and mmap calls, with symbolic contents, short reads and faults. */
#ifndef VP_FILE_H
#define VP_FILE_H
#include <apr_file_io.h>
#include <apr_mmap.h>
#ifndef VP_FMAX
#define VP_FMAX 4
#endif
#ifndef VP_NFILES
#define VP_NFILES 2
#endif
struct vp_file {
    const char *name;
    unsigned char *data;            /* VP_FMAX bytes */
    unsigned len;                   /* current length */
    int open_faults, read_faults, mmap_faults, close_faults;   /* may the call fail? */
    int short_reads;                /* may a read return fewer bytes than asked, before end of file? */
    /* observation */
    int opens, closes, maps, unmaps;
    int faulted;                    /* some call on it failed */
    int hard_fault;                 /* open or read failed: the contents could not be read */
};
extern struct vp_file vp_fs[VP_NFILES];
extern unsigned vp_nfs;
#endif
