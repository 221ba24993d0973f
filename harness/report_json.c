#include "report_common.h"
#include "ft_report_json.h"
#include "vp_jansson.h"
#include <apr_time.h>
/* a broken-down time for every instant, chosen by the harness: UTC and local differ */
static apr_time_exp_t utc;
static int tfail;
static void by_time(apr_time_t t) { VP_ASSERT(t >= 1000 && t < 1000 + N, "the time formatted is a file's modification time"); }
apr_status_t apr_time_exp_gmt(apr_time_exp_t *r, apr_time_t t)
{
    by_time(t);
    if (tfail) return APR_EINVAL;
    *r = utc;
#ifndef VP_FORMATS
    r->tm_mday = 1 + (int) (t - 1000);
#endif
    return APR_SUCCESS;
}
apr_status_t apr_time_exp_lt(apr_time_exp_t *r, apr_time_t t)
{
    by_time(t);
    *r = utc;
#ifndef VP_FORMATS
    r->tm_mday = 1 + (int) (t - 1000);
#endif
    r->tm_hour = (r->tm_hour + 2) % 24;
    return APR_SUCCESS;
}
#ifdef VP_FORMATS
#define VP_DAY(i) utc.tm_mday
#else
#define VP_DAY(i) (1 + (i))
#endif
static int two(const char *s, int v) { return s[0] == '0' + v / 10 && s[1] == '0' + v % 10; }
static int hex64(const char *s, uint64_t v)
{
    for (int i = 15; i >= 0; i--, v >>= 4) { int d = (int) (v & 15); if (s[i] != (d < 10 ? '0' + d : 'a' + d - 10)) return 0; }
    return 1;
}
static int emitted;
void vp_emit(int c) { VP_ASSERT(emitted && (c == '\n' || c == ' '), "nothing but the document is printed"); }

static struct vpj *owner[NMAX];         /* the array each file was appended to */
void vpj_appended(struct vpj *array, struct vpj *v)
{
    struct vpj *path = v->slot[K_PATH], *mt = v->slot[K_MTIME], *pr = v->slot[K_PRIO];
    if (v->slot[K_DUPS]) return;        /* a set appended to the document */
    VP_ASSERT(path && mt && pr, "a member has its path, time and priority");
    if (!path || !mt || !pr) return;
    VP_ASSERT(path->base.type == JSON_STRING && mt->base.type == JSON_STRING, "path and time are strings");
    int hit = -1;
    for (int i = 0; i < N; i++) if (path->str[0] == names[i][0] && path->str[1] == 0) hit = i;
    VP_ASSERT(hit >= 0, "a member is a scanned file");
    if (hit < 0) return;
    VP_ASSERT(owner[hit] == NULL, "a file is reported once");
    owner[hit] = array;
    if (array->mark == 1) VP_ASSERT(!prio[hit], "prioritised files come before the others");
    array->mark = prio[hit] ? 2 : 1;
    VP_ASSERT(pr->base.type == (prio[hit] ? JSON_TRUE : JSON_FALSE), "the priority flag is the file's");
    const char *t = mt->str;
    if (!tfail) {
        int y = utc.tm_year + 1900;
        VP_ASSERT(two(t, y / 100) && two(t + 2, y % 100) && t[4] == '-' && two(t + 5, utc.tm_mon + 1) && t[7] == '-' && two(t + 8, VP_DAY(hit)) && t[10] == 'T'
                  && two(t + 11, utc.tm_hour) && t[13] == ':' && two(t + 14, utc.tm_min) && t[16] == ':' && two(t + 17, utc.tm_sec) && t[19] == 'Z' && t[20] == 0,
                  "the time is the file's modification time in UTC");
    }
    struct vpj *sub = v->slot[K_SUB];
    if (is_option_set(conf.mask, OPTION_UNTAR)) {
        VP_ASSERT(sub != NULL, "archive members are told from plain files");
        if (sub) VP_ASSERT(files[hit].subpath ? sub->base.type == JSON_STRING && sub->str[0] == 's' && sub->str[1] == 0 : sub->base.type == JSON_NULL, "the member's name in its archive");
    }
}
static int dump(const json_t *doc)
{
    struct vpj *root = (struct vpj *) doc;
    VP_ASSERT(!emitted, "one document is written");
    emitted = 1;
    VP_ASSERT(root && root->base.type == JSON_ARRAY, "the document is an array");
    unsigned distinct = 0;
    for (int i = 0; i < N; i++) if (owner[i]) {
        struct vpj *set = owner[i]->parent;
        VP_ASSERT(set != NULL && set->parent == root && set->slot[K_DUPS] == owner[i], "members' sets are in the document");
        if (!set || set->parent != root) continue;
        VP_ASSERT(owner[i]->n >= 2, "no set of a single file");
        struct vpj *size = set->slot[K_SIZE], *hash = set->slot[K_HASH];
        VP_ASSERT(size && size->base.type == JSON_INTEGER && hash && hash->base.type == JSON_STRING, "a set has its size and hash");
        if (!size || !hash) continue;
        VP_ASSERT(size->num == vp_sizes[i], "the set's size is the files' size");
#ifdef VP_FORMATS
        VP_ASSERT(hex64(hash->str, hashes[i].high64) && hex64(hash->str + 16, hashes[i].low64) && hash->str[32] == 0, "the set's hash is the files' hash, in 32 hexadecimal digits");
#else
        VP_ASSERT(hash->str[15] == '0' + (char) hashes[i].high64 && hash->str[31] == '0' + (char) hashes[i].low64, "the set's hash is the files' hash");
#endif
        int fresh = 1;
        for (int j = 0; j < i; j++) if (owner[j] == owner[i]) { fresh = 0; set_of[i] = set_of[j]; }
        if (fresh) { distinct++; set_of[i] = i + 1; }
    }
    VP_ASSERT(root->n == distinct, "every set of the document has members, and is there once");
    return 0;
}
int json_dumpf(const json_t *root, FILE *f, size_t flags) { (void) f; (void) flags; return dump(root); }

void vp_harness(void)
{
    setup();
    for (int i = 0; i < N; i++) files[i].mtime = 1000 + i;
#ifdef VP_FORMATS
    utc.tm_year = (int) vp_range(70, 250);
    utc.tm_mon = (int) vp_range(0, 11);
    utc.tm_mday = (int) vp_range(1, 31);
    utc.tm_hour = (int) vp_range(0, 23);
    utc.tm_min = (int) vp_range(0, 59);
    utc.tm_sec = (int) vp_range(0, 60);
    hashes[0].high64 = vp_u64(), hashes[0].low64 = vp_u64();
    for (int i = 0; i < N; i++) hashes[i] = arrays[0][i].hash_value = hashes[0];
#else
    utc.tm_year = 125; utc.tm_mon = 8; utc.tm_mday = 1; utc.tm_hour = 7; utc.tm_min = 30; utc.tm_sec = 9;
#endif
    conf.sep = ' ';
    conf.mask = OPTION_JSON | VP_MASK;
    apr_status_t r = ft_report_json(&conf);
    VP_ASSERT(r == APR_SUCCESS, "the report is completed");
    VP_ASSERT(emitted, "the document is written");
    check_sets();
}
