/* Extracting one member: libarchive and the disk are played here.  VP_MEMBERS members whose names, types, links and blocks are symbolic;
 * VP_BLOCKS blocks each; VP_FAULTS calls of the library or the system may fail. */
#include "vp.h"
#include "vp_apr.h"
#include <string.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <archive.h>
#include <archive_entry.h>
#include <apr_errno.h>
#include <apr_file_io.h>
#include "ft_archive.h"
#define FILE_MAX 16
#define BLOCK_MAX 2

static int faults = VP_FAULTS, failed;
static int fails(void)
{
    if (faults > 0 && vp_bool()) { faults--; failed++; return 1; }
    return 0;
}
/* ---- the archive ---- */
struct block { long off; unsigned size; unsigned char data[BLOCK_MAX]; };
struct archive_entry { char name[3]; char nullname; unsigned type, perm; char linked; long size; const char *path; struct block b[VP_BLOCKS]; };
static struct archive_entry member[VP_MEMBERS], out;
struct archive { int kind; int state; int at, block; };           /* kind 1 reader, 2 disk writer; state 1 new, 2 open, 3 in an entry */
static int live[3];
static unsigned char want[FILE_MAX];
static long wantsize;

/* ---- the disk: one temporary file; anything else must not be touched ---- */
static int exists, fdopen_, made;
static char name[32];
static unsigned mode, umask_ = 022;
static unsigned char data[FILE_MAX];
static long size;

struct archive *archive_read_new(void)
{
    if (fails()) return NULL;
    struct archive *a = vp_zalloc(sizeof *a);
    a->kind = 1;
    a->at = -1;
    live[1]++;
    return a;
}
struct archive *archive_write_disk_new(void)
{
    if (fails()) return NULL;
    struct archive *a = vp_zalloc(sizeof *a);
    a->kind = 2;
    live[2]++;
    return a;
}
static int bad(void) { unsigned k = vp_range(0, 2); return k == 0 ? ARCHIVE_FATAL : k == 1 ? ARCHIVE_FAILED : ARCHIVE_RETRY; }
int archive_read_support_filter_all(struct archive *a) { VP_ASSERT(a->kind == 1, "a reader"); return fails() ? bad() : ARCHIVE_OK; }
int archive_read_support_format_all(struct archive *a) { VP_ASSERT(a->kind == 1, "a reader"); return fails() ? bad() : ARCHIVE_OK; }
int archive_read_support_format_raw(struct archive *a) { VP_ASSERT(a->kind == 1, "a reader"); return fails() ? bad() : ARCHIVE_OK; }
int archive_read_open_filename(struct archive *a, const char *f, size_t bs)
{
    (void) bs;
    VP_ASSERT(a->kind == 1 && a->state == 0, "a reader is opened once");
    VP_ASSERT(strcmp(f, "/a") == 0, "the archive of the file is opened");
    if (fails()) return bad();
    a->state = 2;
    return ARCHIVE_OK;
}
int archive_read_next_header(struct archive *a, struct archive_entry **e)
{
    VP_ASSERT(a->kind == 1 && a->state >= 2, "an open archive is read");
    if (fails()) return bad();
    if (a->at + 1 >= VP_MEMBERS) return ARCHIVE_EOF;
    a->at++;
    a->block = 0;
    a->state = 3;
    out = member[a->at];
    *e = &out;
    return ARCHIVE_OK;
}
int archive_read_data_block(struct archive *a, const void **b, size_t *n, la_int64_t *off)
{
    VP_ASSERT(a->kind == 1 && a->state == 3, "the data of a member is read");
    if (fails()) return bad();
    if (a->block >= VP_BLOCKS) { *n = 0; return ARCHIVE_EOF; }
    struct block *k = &member[a->at].b[a->block++];
    unsigned char *copy = vp_alloc(BLOCK_MAX);       /* valid until the next call only */
    static unsigned char *last;
    if (last) free(last);
    last = copy;
    memcpy(copy, k->data, BLOCK_MAX);
    *b = copy;
    *n = k->size;
    *off = k->off;
    return ARCHIVE_OK;
}
int archive_read_data_skip(struct archive *a) { a->block = VP_BLOCKS; return fails() ? bad() : ARCHIVE_OK; }
int archive_read_close(struct archive *a) { VP_ASSERT(a->kind == 1, "a reader"); a->state = 1; return ARCHIVE_OK; }
int archive_read_free(struct archive *a) { if (!a) return ARCHIVE_OK; VP_ASSERT(a->kind == 1, "a reader"); live[1]--; free(a); return ARCHIVE_OK; }
const char *archive_error_string(struct archive *a) { VP_ASSERT(a != NULL, "an archive"); return "error"; }
int archive_errno(struct archive *a) { (void) a; return 5; }
void archive_clear_error(struct archive *a) { (void) a; }
const char *archive_entry_pathname(struct archive_entry *e) { return e->path ? e->path : e->nullname ? NULL : e->name; }
void archive_entry_copy_pathname(struct archive_entry *e, const char *p) { e->path = p; }
void archive_entry_set_pathname(struct archive_entry *e, const char *p) { e->path = p; }
void archive_entry_set_perm(struct archive_entry *e, __LA_MODE_T m) { e->perm = m & 07777; }
__LA_MODE_T archive_entry_perm(struct archive_entry *e) { return e->perm; }
__LA_MODE_T archive_entry_filetype(struct archive_entry *e) { return e->type; }
void archive_entry_set_filetype(struct archive_entry *e, unsigned t) { e->type = t; }
__LA_MODE_T archive_entry_mode(struct archive_entry *e) { return e->type | e->perm; }
void archive_entry_set_mode(struct archive_entry *e, __LA_MODE_T m) { e->type = m & 0170000; e->perm = m & 07777; }
const char *archive_entry_hardlink(struct archive_entry *e) { return e->linked ? "other" : NULL; }
const char *archive_entry_symlink(struct archive_entry *e) { return e->type == AE_IFLNK ? "other" : NULL; }
void archive_entry_set_hardlink(struct archive_entry *e, const char *h) { e->linked = h != NULL; }
la_int64_t archive_entry_size(struct archive_entry *e) { return e->size; }
int archive_entry_size_is_set(struct archive_entry *e) { (void) e; return 1; }
int archive_write_disk_set_options(struct archive *a, int f) { VP_ASSERT(a->kind == 2, "a writer"); (void) f; return ARCHIVE_OK; }
int archive_write_disk_set_standard_lookup(struct archive *a) { VP_ASSERT(a->kind == 2, "a writer"); return ARCHIVE_OK; }
static long pending = -1;
int archive_write_header(struct archive *a, struct archive_entry *e)
{
    VP_ASSERT(a->kind == 2, "a writer");
    VP_ASSERT(made && e->path && strcmp(e->path, name) == 0, "only the temporary file is written");
    VP_ASSERT(!fdopen_, "the temporary file is not held open");
    VP_ASSERT(e->type == AE_IFREG && !e->linked, "no link or special file is created");
    if (fails()) { if (vp_bool()) exists = 0; return bad(); }
    /* the file is removed and made anew with the mode of the entry */
    exists = 1;
    mode = e->perm & 0777 & ~umask_;
    size = 0;
    memset(data, 0, sizeof data);
    pending = e->size;
    a->state = 3;
    return ARCHIVE_OK;
}
la_ssize_t archive_write_data_block(struct archive *a, const void *b, size_t n, la_int64_t off)
{
    VP_ASSERT(a->kind == 2 && a->state == 3, "data is written to an entry");
    VP_ASSERT(off >= 0 && off + (long) n <= FILE_MAX, "data is written where it belongs");
    if (fails()) return bad();
    for (size_t i = 0; i < n; i++) data[off + (long) i] = ((const unsigned char *) b)[i];
    if (size < off + (long) n && n) size = (long) (off + (long) n);
    return ARCHIVE_OK;
}
static int finish(struct archive *a)
{
    if (a->state != 3) return ARCHIVE_OK;
    a->state = 2;
    if (fails()) return bad();
    if (size < pending) size = pending;
    return ARCHIVE_OK;
}
int archive_write_finish_entry(struct archive *a) { VP_ASSERT(a->kind == 2, "a writer"); return finish(a); }
int archive_write_close(struct archive *a) { VP_ASSERT(a->kind == 2, "a writer"); return finish(a); }
int archive_write_free(struct archive *a) { if (!a) return ARCHIVE_OK; VP_ASSERT(a->kind == 2, "a writer"); int r = finish(a); live[2]--; free(a); return r; }

int vp_mkstemp(char *t)
{
    size_t n = strlen(t);
    VP_ASSERT(n > 11 && n < sizeof name && strncmp(t, "/tmp/", 5) == 0 && strcmp(t + n - 6, "XXXXXX") == 0, "the temporary file has a fresh name");
    if (fails()) return -1;
    for (size_t i = n - 6; i < n; i++) t[i] = (char) ('a' + made);
    made++;
    strcpy(name, t);
    exists = 1;
    mode = 0600;
    size = 0;
    fdopen_++;
    return 77;
}
int mkstemp(char *t) { return vp_mkstemp(t); }
int vp_close(int fd) { VP_ASSERT(fd == 77 && fdopen_ == 1, "a descriptor is closed once"); fdopen_--; return 0; }
int close(int fd) { return vp_close(fd); }
mode_t umask(mode_t m) { mode_t o = umask_; umask_ = m; return o; }
static void gone(const char *p)
{
    VP_ASSERT(made && strcmp(p, name) == 0, "only the temporary file is removed");
    exists = 0;
}
int unlink(const char *p) { gone(p); return 0; }
int remove(const char *p) { gone(p); return 0; }
apr_status_t apr_file_remove(const char *p, apr_pool_t *pool) { (void) pool; gone(p); return APR_SUCCESS; }

void vp_harness(void)
{
    static const unsigned types[] = { AE_IFREG, AE_IFLNK, AE_IFDIR };
    int hit = -1;
    char sub[3] = { 0 };
    sub[0] = (char) vp_u8();
    sub[1] = (char) vp_u8();
    VP_ASSUME(sub[0] != 0);
    for (int i = 0; i < VP_MEMBERS; i++) {
        struct archive_entry *m = &member[i];
        m->name[0] = (char) vp_u8();
        m->name[1] = (char) vp_u8();
#ifdef VP_PLAIN
        m->type = types[0];
#else
        m->nullname = (char) vp_bool();
        m->type = types[vp_range(0, 2)];
        m->linked = (char) vp_bool();
#endif
        m->perm = vp_u16() & 07777;
        long at = 0;
        for (int k = 0; k < VP_BLOCKS; k++) {
            m->b[k].off = at + (i || VP_MEMBERS == 1 ? vp_range(0, 1) * 2 : k);        /* holes */
            m->b[k].size = i || VP_MEMBERS == 1 ? vp_range(0, BLOCK_MAX) : 1 + k % BLOCK_MAX;
            at = m->b[k].off + m->b[k].size;
            for (int j = 0; j < BLOCK_MAX; j++) m->b[k].data[j] = vp_u8();
        }
        m->size = at + vp_range(0, 1);
        if (hit < 0 && !m->nullname && strcmp(m->name, sub) == 0) hit = i;
    }
    if (hit >= 0) {
        for (int k = 0; k < VP_BLOCKS; k++)
            for (unsigned j = 0; j < member[hit].b[k].size; j++) want[member[hit].b[k].off + j] = member[hit].b[k].data[j];
        wantsize = member[hit].size;
    }
    ft_file_t f;
    memset(&f, 0, sizeof f);
    f.path = (char *) "/a";
    f.subpath = sub;
    char *r = ft_archive_untar_file(&f, vp_pool());
    VP_ASSERT(live[1] == 0 && live[2] == 0 && fdopen_ == 0, "the archive is closed");
    VP_ASSERT(umask_ == 022, "the umask is as before");
    if (r) {
        VP_ASSERT(hit >= 0, "only a member of the archive is extracted");
        if (hit < 0) return;
        VP_ASSERT(member[hit].type == AE_IFREG && !member[hit].linked, "only a regular member is extracted");
        VP_ASSERT(made && strcmp(r, name) == 0 && exists, "the path is that of the temporary file");
        VP_ASSERT(mode == 0600, "the temporary file is private and readable");
        VP_ASSERT(size == wantsize, "the file is as long as the member");
        for (int i = 0; i < FILE_MAX; i++) VP_ASSERT(i >= size || data[i] == want[i], "the file holds the bytes of the member");
        VP_COVER("extracted");
    }
    else {
        VP_ASSERT(!exists, "no file is left behind");
        VP_ASSERT(failed || hit < 0 || member[hit].type != AE_IFREG || member[hit].linked, "a regular member is extracted when nothing fails");
        VP_COVER("refused");
    }
}
