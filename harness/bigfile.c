/* filecmp() (VP_CMP) and checksum_file() on files of realistic size: one byte anywhere of a set of places is symbolic, mapping may fail, reads may be short.
 * VP_SIZES: file sizes; the real chunk size of the code is used. */
#include "vp.h"
#include "vp_apr.h"
#include "ft_file.h"
#include <apr_file_io.h>
#include <apr_mmap.h>
#include <apr_errno.h>
#include <string.h>
#include <stdlib.h>
#include "xxhash.h"
static const unsigned sizes[] = VP_SIZES;
static unsigned char *content[2];
static unsigned long len, len2;
struct apr_file_t { int i; unsigned long pos; int open, eof; };
static int opened, mapped, mmap_fails;
static unsigned long flen(int i) { return i ? len2 : len; }
apr_status_t apr_file_open(apr_file_t **f, const char *n, apr_int32_t flag, apr_fileperms_t perm, apr_pool_t *p)
{
    (void) flag; (void) perm; (void) p;
    *f = vp_zalloc(sizeof **f);
    (*f)->i = n[0] == 'B';
    (*f)->open = 1;
    opened++;
    return APR_SUCCESS;
}
apr_status_t apr_file_close(apr_file_t *f) { VP_ASSERT(f->open, "a file is closed once"); f->open = 0; opened--; return APR_SUCCESS; }
static unsigned long get(apr_file_t *f, void *b, unsigned long n)
{
    unsigned long left = flen(f->i) - f->pos;
    VP_ASSERT(f->open, "an open file is read");
    if (n > left) n = left;
    memcpy(b, content[f->i] + f->pos, n);
    f->pos += n;
    return n;
}
apr_status_t apr_file_read(apr_file_t *f, void *b, apr_size_t *n)
{
    if (*n == 0) return APR_SUCCESS;
    if (f->pos == flen(f->i)) { *n = 0; f->eof = 1; return APR_EOF; }
    *n = get(f, b, f->pos == 0 && *n > 1 && vp_bool() ? *n / 2 : *n);
    return APR_SUCCESS;
}
apr_status_t apr_file_read_full(apr_file_t *f, void *b, apr_size_t n, apr_size_t *r)
{
    unsigned long k = get(f, b, n);
    if (r) *r = k;
    if (k < n) { f->eof = 1; return APR_EOF; }
    return APR_SUCCESS;
}
apr_status_t apr_file_seek(apr_file_t *f, apr_seek_where_t w, apr_off_t *o) { f->pos = (unsigned long) (w == APR_SET ? *o : w == APR_CUR ? (apr_off_t) f->pos + *o : (apr_off_t) flen(f->i) + *o); *o = (apr_off_t) f->pos; return APR_SUCCESS; }
apr_status_t apr_file_eof(apr_file_t *f) { return f->eof ? APR_EOF : APR_SUCCESS; }
apr_status_t apr_file_info_get(apr_finfo_t *fi, apr_int32_t w, apr_file_t *f) { memset(fi, 0, sizeof *fi); fi->valid = w; fi->size = (apr_off_t) flen(f->i); return APR_SUCCESS; }
apr_status_t apr_mmap_create(apr_mmap_t **m, apr_file_t *f, apr_off_t off, apr_size_t n, apr_int32_t flag, apr_pool_t *p)
{
    (void) flag; (void) p;
    VP_ASSERT(f->open, "an open file is mapped");
    if (mmap_fails) return APR_ENOMEM;
    VP_ASSERT(off >= 0 && (unsigned long) off + n <= flen(f->i), "a file is mapped within its length");
    *m = vp_zalloc(sizeof **m);
    (*m)->mm = content[f->i] + off;
    (*m)->size = n;
    mapped++;
    return APR_SUCCESS;
}
apr_status_t apr_mmap_delete(apr_mmap_t *m) { VP_ASSERT(m->mm != NULL, "a map is removed once"); m->mm = NULL; mapped--; return APR_SUCCESS; }

/* the hash: that the bytes come in order, and how many */
struct XXH3_state_s { unsigned long n; int bad; };
static XXH128_hash_t mk(unsigned long n, int bad) { XXH128_hash_t h; h.low64 = (unsigned long) bad; h.high64 = n; return h; }
static int wrong(unsigned long at, const void *p, size_t n) { return at + n > len || memcmp(p, content[0] + at, n) != 0; }
XXH128_hash_t XXH3_128bits(const void *p, size_t n) { return mk(n, wrong(0, p, n)); }
XXH128_hash_t XXH128(const void *p, size_t n, XXH64_hash_t seed) { (void) seed; return XXH3_128bits(p, n); }
XXH3_state_t *XXH3_createState(void) { return vp_zalloc(sizeof(struct XXH3_state_s)); }
XXH_errorcode XXH3_freeState(XXH3_state_t *s) { (void) s; return XXH_OK; }
XXH_errorcode XXH3_128bits_reset(XXH3_state_t *s) { s->n = 0; s->bad = 0; return XXH_OK; }
XXH_errorcode XXH3_128bits_update(XXH3_state_t *s, const void *p, size_t n) { s->bad |= wrong(s->n, p, n); s->n += n; return XXH_OK; }
XXH128_hash_t XXH3_128bits_digest(const XXH3_state_t *s) { return mk(s->n, s->bad); }
int XXH128_isEqual(XXH128_hash_t a, XXH128_hash_t b) { return a.low64 == b.low64 && a.high64 == b.high64; }

static unsigned long place(unsigned k)
{
    switch (k) {
    case 0: return 0;
    case 1: return len - 1;
    case 2: return len / 2;
    case 3: return 65535;
    case 4: return 65536;
    case 5: return 4096;
    case 6: return 131072;
    default: return len - 65537;
    }
}
void vp_harness(void)
{
    len = sizes[vp_range(0, sizeof sizes / sizeof sizes[0] - 1)];
    len2 = len;
#ifdef VP_CMP
    if (vp_bool()) { len2 = vp_bool() ? len - 1 : len + 1; }
#endif
    unsigned long at = place(vp_range(0, 7));
    VP_ASSUME(at < len);
    content[0] = vp_zalloc(len);
    content[1] = vp_zalloc(len2);
    for (unsigned long i = 0; i < len; i += 4096) content[0][i] = (unsigned char) (i >> 12);
    memcpy(content[1], content[0], len < len2 ? len : len2);
    unsigned char v = vp_u8(), old = content[0][at];
    content[0][at] = v;
    unsigned excess = vp_bool() ? 1u << 30 : 1;
    if (len2 != len) excess = 1;
    mmap_fails = vp_bool();
#ifdef VP_CMP
    int r = 5;
    apr_status_t st = filecmp(vp_pool(), "A", "B", (apr_off_t) len, excess, &r);
    VP_ASSERT(st == APR_SUCCESS, "the comparison succeeds");
    VP_ASSERT((r == 0) == (v == old && len == len2), "files are declared identical when they are");
    if (r == 0) VP_COVER("identical"); else VP_COVER("different");
#else
    (void) old;
    ft_hash_t h = { 1, 99 };
    apr_status_t st = checksum_file("A", (apr_off_t) len, excess, &h, vp_pool());
    VP_ASSERT(st == APR_SUCCESS, "a file that can be read yields a checksum");
    VP_ASSERT(h.high64 == len && h.low64 == 0, "the checksum covers the file's bytes, in order, once");
    VP_COVER("hashed");
#endif
    VP_ASSERT(opened == 0 && mapped == 0, "no file is left open");
}
