/* Stand-in for jansson: values are kept as given; the harness is told of every append to an array. */
#include "vp.h"
#include "vp_jansson.h"
#include <string.h>
#include "vp_nocheck.h"
static struct vpj *mk(json_type t)
{
    struct vpj *v = vp_zalloc(sizeof *v);
    v->base.type = t;
    v->base.refcount = 1;
    return v;
}
json_t *json_object(void) { return &mk(JSON_OBJECT)->base; }
json_t *json_array(void) { return &mk(JSON_ARRAY)->base; }
json_t *json_string(const char *s)
{
    if (!s) return NULL;
    struct vpj *v = mk(JSON_STRING);
    v->str = s;
    return &v->base;
}
json_t *json_string_nocheck(const char *s) { return json_string(s); }
json_t *json_integer(json_int_t i)
{
    struct vpj *v = mk(JSON_INTEGER);
    v->num = i;
    return &v->base;
}
static struct vpj vt = { { JSON_TRUE, 1 } }, vf = { { JSON_FALSE, 1 } }, vn = { { JSON_NULL, 1 } };
json_t *json_true(void) { return &vt.base; }
json_t *json_false(void) { return &vf.base; }
json_t *json_null(void) { return &vn.base; }
static int key_slot(const char *key)
{
    static const char *const keys[K_N] = { "path", "archive_subpath", "mtime_utc", "prioritized", "size_bytes", "hash_xxh128", "duplicates" };
    for (int i = 0; i < K_N; i++) if (!strcmp(keys[i], key)) return i;
    VP_ASSERT(0, "the document's keys are those of the format");
    return 0;
}
int json_object_set_new(json_t *o, const char *key, json_t *val)
{
    struct vpj *v = (struct vpj *) o, *c = (struct vpj *) val;
    if (!o || !val) return -1;
    int k = key_slot(key);
    v->slot[k] = c;
    if (k == K_DUPS) c->parent = v;
    return 0;
}
int json_object_set_new_nocheck(json_t *o, const char *key, json_t *val) { return json_object_set_new(o, key, val); }
json_t *json_object_get(const json_t *o, const char *key)
{
    const struct vpj *v = (const struct vpj *) o;
    if (!o) return NULL;
    return (json_t *) v->slot[key_slot(key)];
}
int json_array_append_new(json_t *a, json_t *val)
{
    struct vpj *v = (struct vpj *) a, *c = (struct vpj *) val;
    if (!a || !val) return -1;
    v->n++;
    c->parent = v;
    vpj_appended(v, c);
    return 0;
}
size_t json_array_size(const json_t *a) { return a ? ((const struct vpj *) a)->n : 0; }
void json_delete(json_t *j) { (void) j; }
