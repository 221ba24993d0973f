#include "vp.h"
#include "vp_file.h"
#include <apr_errno.h>
#include <apr_portable.h>
#include <string.h>
#include <stdlib.h>

struct vp_file vp_fs[VP_NFILES];
unsigned vp_nfs;

struct apr_file_t { struct vp_file *f; unsigned pos; int open; int eof_hit; };

static struct vp_file *vp_lookup(const char *name)
{
    for (unsigned i = 0; i < vp_nfs; i++)
        if (vp_fs[i].name && !strcmp(vp_fs[i].name, name)) return &vp_fs[i];
    return NULL;
}
/* some error other than end of file */
static apr_status_t vp_errno_some(void)
{
    apr_status_t st = vp_bool() ? APR_EACCES : APR_FROM_OS_ERROR(EIO);
    return st;
}
apr_status_t apr_file_open(apr_file_t **newf, const char *fname, apr_int32_t flag, apr_fileperms_t perm, apr_pool_t *pool)
{
    (void) flag; (void) perm; (void) pool;
    struct vp_file *f = vp_lookup(fname);
    VP_ASSERT(f != NULL, "only the named files are opened");
    if (!f) return APR_ENOENT;
    if (f->open_faults && vp_bool()) { f->faulted = 1; f->hard_fault = 1; *newf = NULL; return vp_errno_some(); }
    apr_file_t *fd = vp_zalloc(sizeof *fd);
    fd->f = f; fd->pos = 0; fd->open = 1;
    f->opens++;
    *newf = fd;
    return APR_SUCCESS;
}
apr_status_t apr_file_close(apr_file_t *fd)
{
    if (!fd->open) return APR_EBADF;
    fd->open = 0;
    fd->f->closes++;
    if (fd->f->close_faults && vp_bool()) { fd->f->faulted = 1; return vp_errno_some(); }
    return APR_SUCCESS;
}
apr_status_t apr_file_read(apr_file_t *fd, void *buf, apr_size_t *nbytes)
{
    struct vp_file *f = fd->f;
    apr_size_t want = *nbytes;
    VP_ASSERT(fd->open, "read from an open file");
    if (want == 0) return APR_SUCCESS;
    if (f->read_faults && vp_bool()) { *nbytes = 0; f->faulted = 1; f->hard_fault = 1; return vp_errno_some(); }
    unsigned avail = fd->pos < f->len ? f->len - fd->pos : 0;
    if (avail == 0) { *nbytes = 0; fd->eof_hit = 1; return APR_EOF; }
    unsigned n = want < avail ? (unsigned) want : avail;
    if (f->short_reads && n > 1) n = vp_range(1, n);
    unsigned char *out = buf;
    for (unsigned i = 0; i < VP_FMAX; i++)
        if (i < n) out[i] = f->data[fd->pos + i];
    fd->pos += n;
    *nbytes = n;
    return APR_SUCCESS;
}
apr_status_t apr_file_read_full(apr_file_t *fd, void *buf, apr_size_t nbytes, apr_size_t *bytes_read)
{
    struct vp_file *f = fd->f;
    apr_size_t total = 0;
    apr_status_t st = APR_SUCCESS;
    VP_ASSERT(fd->open, "read from an open file");
    if (nbytes == 0) { if (bytes_read) *bytes_read = 0; return APR_SUCCESS; }
    unsigned avail = fd->pos < f->len ? f->len - fd->pos : 0;
    unsigned n = nbytes < avail ? (unsigned) nbytes : avail;
    if (f->read_faults && vp_bool()) {
        f->faulted = 1; f->hard_fault = 1;
        n = vp_range(0, n);
        st = vp_errno_some();
    }
    else if (n < nbytes) { st = APR_EOF; fd->eof_hit = 1; }
    unsigned char *out = buf;
    for (unsigned i = 0; i < VP_FMAX; i++)
        if (i < n) out[i] = f->data[fd->pos + i];
    fd->pos += n;
    total = n;
    if (bytes_read) *bytes_read = total;
    return st;
}
apr_status_t apr_file_seek(apr_file_t *fd, apr_seek_where_t where, apr_off_t *off)
{
    apr_off_t p = *off;
    if (where == APR_CUR) p += fd->pos;
    else if (where == APR_END) p += fd->f->len;
    if (p < 0) return APR_EINVAL;
    fd->pos = (unsigned) p;
    *off = p;
    return APR_SUCCESS;
}
apr_status_t apr_file_eof(apr_file_t *fd) { return fd->eof_hit ? APR_EOF : APR_SUCCESS; }
apr_status_t apr_file_info_get(apr_finfo_t *fi, apr_int32_t wanted, apr_file_t *fd)
{
    (void) wanted;
    fi->valid = APR_FINFO_SIZE;
    fi->size = fd->f->len;
    return APR_SUCCESS;
}
/* mmap: modelled only while the file still has the length it is mapped with (a longer map faults on real
 * hardware); recorded as an assumption. */
apr_status_t apr_mmap_create(apr_mmap_t **newmm, apr_file_t *fd, apr_off_t offset, apr_size_t size, apr_int32_t flag, apr_pool_t *pool)
{
    struct vp_file *f = fd->f;
    (void) flag; (void) pool;
    VP_ASSERT(fd->open, "map an open file");
    if (size == 0) { f->faulted = 1; return APR_EINVAL; }
    if (f->mmap_faults && vp_bool()) { f->faulted = 1; return vp_errno_some(); }
    VP_ASSUME(f->len == offset + size);
    apr_mmap_t *m = vp_zalloc(sizeof *m);
    m->mm = f->data + offset;
    m->size = size;
    /* find the map's owner again at deletion */
    m->cntxt = (apr_pool_t *) (void *) f;
    f->maps++;
    *newmm = m;
    return APR_SUCCESS;
}
apr_status_t apr_mmap_delete(apr_mmap_t *m)
{
    struct vp_file *f = (struct vp_file *) (void *) m->cntxt;
    if (m->mm == NULL) return APR_EINVAL;
    m->mm = NULL;
    f->unmaps++;
    if (f->close_faults && vp_bool()) { f->faulted = 1; return vp_errno_some(); }
    return APR_SUCCESS;
}
