#include "db_env.h"
#include "vp_apr.h"
#include <string.h>
#include <stdlib.h>
#include <apr_file_io.h>
#include <apr_file_info.h>
#include <apr_mmap.h>
#include <apr_hash.h>
#include <apr_thread_mutex.h>
#include <apr_proc_mutex.h>
#include <apr_portable.h>
#include <apr_errno.h>

unsigned char *vpd_img;
unsigned char vpd_dur[VPD_BYTES];
long vpd_size = -1, vpd_dursize = -1;
int vpd_faults, vpd_failed, vpd_open, vpd_mapped;
void (*vpd_event)(void);
void (*vpd_locked)(void);

static int fails(void)
{
    if (vpd_faults > 0 && vp_bool()) {
        vpd_faults--;
        vpd_failed++;
        return 1;
    }
    return 0;
}
static void image(void) { if (!vpd_img) vpd_img = vp_zalloc(VPD_BYTES); }

/* ---- file ---- */
struct apr_file_t { long pos; int open; int writable; int lockfile; apr_pool_t *p; };
int vpd_lock_taken;                          /* the lock file: 0 free, 1 locked by this process, 2 by another one */
int vpd_need_lock;                           /* the database may be touched only while this process holds it */
static int is_lock(const char *name) { size_t n = strlen(name); return n > 5 && strcmp(name + n - 5, ".lock") == 0; }
static void guarded(void) { if (vpd_need_lock) VP_ASSERT(vpd_lock_taken == 1, "the database is touched only while its lock is held"); }
apr_status_t apr_stat(apr_finfo_t *fi, const char *name, apr_int32_t wanted, apr_pool_t *p)
{
    (void) name; (void) wanted; (void) p;
    if (fails()) return APR_EACCES;
    if (vpd_size < 0) return APR_ENOENT;
    memset(fi, 0, sizeof *fi);
    fi->size = vpd_size;
    fi->valid = wanted;
    fi->filetype = APR_REG;
    return APR_SUCCESS;
}
static apr_status_t file_cleanup(void *f);
apr_status_t apr_file_open(apr_file_t **f, const char *name, apr_int32_t flag, apr_fileperms_t perm, apr_pool_t *p)
{
    (void) perm;
    image();
    if (fails()) return APR_EACCES;
    if (is_lock(name)) {
        *f = apr_pcalloc(p, sizeof **f);
        (*f)->open = (*f)->lockfile = 1;
        (*f)->p = p;
        apr_pool_cleanup_register(p, *f, file_cleanup, file_cleanup);
        vpd_open++;
        return APR_SUCCESS;
    }
    guarded();
    if (vpd_size < 0 && !(flag & APR_FOPEN_CREATE)) return APR_ENOENT;
    if (vpd_size < 0) vpd_size = 0;
    if (flag & APR_FOPEN_TRUNCATE) { vpd_size = 0; memset(vpd_img, 0, VPD_BYTES); }
    *f = apr_pcalloc(p, sizeof **f);
    (*f)->open = 1;
    (*f)->writable = !!(flag & APR_FOPEN_WRITE);
    (*f)->p = p;
    apr_pool_cleanup_register(p, *f, file_cleanup, file_cleanup);
    vpd_open++;
    return APR_SUCCESS;
}
static apr_status_t file_cleanup(void *v)
{
    apr_file_t *f = v;
    VP_ASSERT(f->open, "a file is closed once");
    f->open = 0;
    vpd_open--;
    if (f->lockfile && vpd_lock_taken == 1) {
        /* closing the file gives the lock up */
        if (vpd_need_lock) VP_ASSERT(!vpd_open && !vpd_mapped, "the database is closed before its lock is given up");
        vpd_lock_taken = 0;
    }
    return APR_SUCCESS;
}
apr_status_t apr_file_close(apr_file_t *f)
{
    VP_ASSERT(f->open, "a file is closed once");
    return apr_pool_cleanup_run(f->p, f, file_cleanup);
}
apr_status_t apr_file_trunc(apr_file_t *f, apr_off_t n)
{
    VP_ASSERT(f->open && f->writable, "a file open for writing is truncated");
    guarded();
    if (fails()) return APR_ENOSPC;
    VP_ASSERT(n >= 0 && n <= VPD_BYTES, "the file stays within the memory map");
    if (vpd_event) vpd_event();
    for (long i = (long) n; i < vpd_size; i++) vpd_img[i] = 0;
    vpd_size = (long) n;
    return APR_SUCCESS;
}
apr_status_t apr_file_seek(apr_file_t *f, apr_seek_where_t w, apr_off_t *off)
{
    VP_ASSERT(f->open, "an open file is used");
    if (fails()) return APR_EGENERAL;
    if (w == APR_SET) f->pos = (long) *off;
    else if (w == APR_CUR) f->pos += (long) *off;
    else f->pos = vpd_size + (long) *off;
    *off = f->pos;
    return APR_SUCCESS;
}
static void put(apr_file_t *f, const unsigned char *b, size_t n)
{
    VP_ASSERT(f->pos >= 0 && f->pos + (long) n <= VPD_BYTES, "writes stay within the memory map");
    memcpy(vpd_img + f->pos, b, n);
    f->pos += (long) n;
    if (vpd_size < f->pos) vpd_size = f->pos;
}
apr_status_t apr_file_write_full(apr_file_t *f, const void *b, apr_size_t n, apr_size_t *w)
{
    VP_ASSERT(f->open && f->writable, "a file open for writing is written");
    guarded();
    if (vpd_event) vpd_event();
    if (fails()) {
        /* part of it may be there */
        size_t part = vp_range(0, 2) * (n / 2);
        if (part > n) part = n;
        put(f, b, part);
        if (w) *w = part;
        return APR_ENOSPC;
    }
    put(f, b, n);
    if (w) *w = n;
    return APR_SUCCESS;
}
apr_status_t apr_file_write(apr_file_t *f, const void *b, apr_size_t *n)
{
    apr_size_t done = 0;
    apr_status_t st = apr_file_write_full(f, b, *n, &done);
    *n = done;
    return st;
}
apr_status_t apr_file_sync(apr_file_t *f)
{
    VP_ASSERT(f->open, "an open file is used");
    if (vpd_event) vpd_event();
    if (fails()) return APR_EGENERAL;
    memcpy(vpd_dur, vpd_img, VPD_BYTES);
    vpd_dursize = vpd_size;
    return APR_SUCCESS;
}
apr_status_t apr_file_datasync(apr_file_t *f) { return apr_file_sync(f); }
apr_status_t apr_file_flush(apr_file_t *f) { (void) f; return APR_SUCCESS; }
apr_status_t apr_file_lock(apr_file_t *f, int type)
{
    VP_ASSERT(f->open && f->lockfile, "the lock file is locked");
    VP_ASSERT((type & APR_FLOCK_TYPEMASK) == APR_FLOCK_EXCLUSIVE && (type & APR_FLOCK_NONBLOCK), "the lock is exclusive and not waited for");
    if (fails()) return APR_EGENERAL;
    if (vpd_lock_taken == 2) return APR_EAGAIN;
    vpd_lock_taken = 1;
    return APR_SUCCESS;
}
apr_status_t apr_file_unlock(apr_file_t *f)
{
    VP_ASSERT(f->open && f->lockfile, "the lock file is unlocked");
    if (fails()) return APR_EGENERAL;
    if (vpd_lock_taken == 1) {
        if (vpd_need_lock) VP_ASSERT(vpd_open == 1 && !vpd_mapped, "the database is closed before its lock is given up");
        vpd_lock_taken = 0;
    }
    return APR_SUCCESS;
}

void vpd_crash(void)
{
    /* sectors written since the last sync may have reached the disk or not, each for itself; the size too */
    for (int s = 0; s < VPD_BYTES / VPD_SECTOR; s++) {
        unsigned char *a = vpd_img + s * VPD_SECTOR, *d = vpd_dur + s * VPD_SECTOR;
        if (memcmp(a, d, VPD_SECTOR) != 0) {
            unsigned char keep = (unsigned char) (0 - vp_bool());
            for (int i = 0; i < VPD_SECTOR; i++) a[i] = (unsigned char) ((a[i] & keep) | (d[i] & (unsigned char) ~keep));
        }
    }
    if (vpd_size != vpd_dursize) if (vp_bool()) {
        vpd_size = vpd_dursize;
        for (long i = vpd_size < 0 ? 0 : vpd_size; i < VPD_BYTES; i++) vpd_img[i] = 0;
    }
    vpd_forget();
}

/* ---- memory map ---- */
static apr_status_t mmap_cleanup(void *m);
apr_status_t apr_mmap_create(apr_mmap_t **m, apr_file_t *f, apr_off_t off, apr_size_t size, apr_int32_t flag, apr_pool_t *p)
{
    (void) flag;
#ifdef VPD_ANYSIZE
    VP_ASSERT(f->open && off == 0 && size >= VPD_BYTES, "the whole file is mapped");
#else
    VP_ASSERT(f->open && off == 0 && size == VPD_BYTES, "the whole file is mapped");
#endif
    guarded();
    if (fails()) return APR_ENOMEM;
    *m = apr_pcalloc(p, sizeof **m);
    (*m)->mm = vpd_img;
    (*m)->size = size;
    (*m)->cntxt = p;
    apr_pool_cleanup_register(p, *m, mmap_cleanup, mmap_cleanup);
    vpd_mapped++;
    return APR_SUCCESS;
}
apr_status_t apr_mmap_offset(void **addr, apr_mmap_t *m, apr_off_t off)
{
    if (fails()) return APR_EINVAL;
    *addr = (char *) m->mm + off;
    return APR_SUCCESS;
}
apr_status_t apr_mmap_delete(apr_mmap_t *m)
{
    return apr_pool_cleanup_run(m->cntxt, m, mmap_cleanup);
}
static apr_status_t mmap_cleanup(void *v)
{
    apr_mmap_t *m = v;
    VP_ASSERT(m->mm == vpd_img && vpd_mapped > 0, "a map is removed once");
    m->mm = NULL;
    if (--vpd_mapped == 0) {
        /* later uses of the old address are errors */
        unsigned char *n = vp_alloc(VPD_BYTES);
        memcpy(n, vpd_img, VPD_BYTES);
        free(vpd_img);
        vpd_img = n;
    }
    return APR_SUCCESS;
}

/* ---- locks ---- */
#define NLOCK 16
static int held[NLOCK], nlock;
struct apr_thread_mutex_t { int n; };
struct apr_proc_mutex_t2 { int n; };
int vpd_held(void) { int k = 0; for (int i = 0; i < nlock; i++) k += held[i]; return k; }
static int newlock(void) { VP_ASSERT(nlock < NLOCK, "few locks"); return nlock++; }
static apr_status_t lock(int n)
{
    if (vpd_locked) vpd_locked();
    if (fails()) return APR_EINVAL;
    VP_ASSERT(!held[n], "a lock this thread holds is not taken again");
    held[n] = 1;
    return APR_SUCCESS;
}
static apr_status_t unlock(int n)
{
    VP_ASSERT(held[n], "only a held lock is released");
    held[n] = 0;
    return APR_SUCCESS;
}
apr_status_t apr_thread_mutex_create(apr_thread_mutex_t **m, unsigned int flags, apr_pool_t *p)
{
    (void) flags;
    if (fails()) return APR_ENOMEM;
    *m = apr_pcalloc(p, sizeof **m);
    (*m)->n = newlock();
    return APR_SUCCESS;
}
apr_status_t apr_thread_mutex_lock(apr_thread_mutex_t *m) { return lock(m->n); }
apr_status_t apr_thread_mutex_unlock(apr_thread_mutex_t *m) { return unlock(m->n); }
apr_status_t apr_thread_mutex_trylock(apr_thread_mutex_t *m) { return held[m->n] ? APR_EBUSY : lock(m->n); }
apr_status_t apr_thread_mutex_destroy(apr_thread_mutex_t *m) { (void) m; return APR_SUCCESS; }
apr_status_t apr_proc_mutex_create(apr_proc_mutex_t **m, const char *name, apr_lockmech_e mech, apr_pool_t *p)
{
    (void) name; (void) mech;
    if (fails()) return APR_ENOMEM;
    struct apr_proc_mutex_t2 *x = apr_pcalloc(p, sizeof *x);
    x->n = newlock();
    *m = (apr_proc_mutex_t *) x;
    return APR_SUCCESS;
}
apr_status_t apr_proc_mutex_lock(apr_proc_mutex_t *m) { return lock(((struct apr_proc_mutex_t2 *) m)->n); }
apr_status_t apr_proc_mutex_unlock(apr_proc_mutex_t *m) { return unlock(((struct apr_proc_mutex_t2 *) m)->n); }
apr_status_t apr_proc_mutex_destroy(apr_proc_mutex_t *m) { (void) m; return APR_SUCCESS; }

void vpd_forget(void)
{
    for (int i = 0; i < NLOCK; i++) held[i] = 0;
    nlock = 0;
    vpd_open = vpd_mapped = 0;
    vpd_lock_taken = 0;
    unsigned char *n = vp_alloc(VPD_BYTES);
    memcpy(n, vpd_img, VPD_BYTES);
    vpd_img = n;
}

/* ---- who ---- */
unsigned long vpd_tid = 1;
apr_os_thread_t apr_os_thread_current(void) { return (apr_os_thread_t) vpd_tid; }
int vpd_getpid(void) { return 7; }
#ifndef VP_NATIVE_PID
int getpid(void) { return 7; }
#endif

/* ---- hash tables: a list in order of insertion ---- */
struct ent { struct ent *next; const void *k; apr_ssize_t n; const void *v; };
struct apr_hash_t { apr_pool_t *p; struct ent *first, *last; unsigned count; };
struct apr_hash_index_t { apr_hash_t *h; struct ent *e, *next; };
apr_hash_t *apr_hash_make(apr_pool_t *p) { apr_hash_t *h = apr_pcalloc(p, sizeof *h); h->p = p; return h; }
static struct ent **find(apr_hash_t *h, const void *k, apr_ssize_t n)
{
    struct ent **e = &h->first;
    if (n == APR_HASH_KEY_STRING) n = (apr_ssize_t) strlen(k);
    while (*e && !((*e)->n == n && memcmp((*e)->k, k, (size_t) n) == 0)) e = &(*e)->next;
    return e;
}
void *apr_hash_get(apr_hash_t *h, const void *k, apr_ssize_t n) { struct ent *e = *find(h, k, n); return e ? (void *) e->v : NULL; }
void apr_hash_set(apr_hash_t *h, const void *k, apr_ssize_t n, const void *v)
{
    struct ent **e = find(h, k, n);
    if (*e) {
        if (v) (*e)->v = v;
        else { *e = (*e)->next; h->count--; }
        return;
    }
    if (!v) return;
    *e = apr_pcalloc(h->p, sizeof **e);
    (*e)->k = k;
    (*e)->n = n == APR_HASH_KEY_STRING ? (apr_ssize_t) strlen(k) : n;
    (*e)->v = v;
    h->count++;
}
unsigned int apr_hash_count(apr_hash_t *h) { return h->count; }
void apr_hash_clear(apr_hash_t *h) { h->first = NULL; h->count = 0; }
apr_hash_index_t *apr_hash_next(apr_hash_index_t *i)
{
    i->e = i->next;
    if (!i->e) return NULL;
    i->next = i->e->next;
    return i;
}
apr_hash_index_t *apr_hash_first(apr_pool_t *p, apr_hash_t *h)
{
    apr_hash_index_t *i = apr_pcalloc(p ? p : h->p, sizeof *i);
    i->h = h;
    i->next = h->first;
    return apr_hash_next(i);
}
void apr_hash_this(apr_hash_index_t *i, const void **k, apr_ssize_t *n, void **v)
{
    if (k) *k = i->e->k;
    if (n) *n = i->e->n;
    if (v) *v = (void *) i->e->v;
}
const void *apr_hash_this_key(apr_hash_index_t *i) { return i->e->k; }
apr_ssize_t apr_hash_this_key_len(apr_hash_index_t *i) { return i->e->n; }
void *apr_hash_this_val(apr_hash_index_t *i) { return (void *) i->e->v; }
