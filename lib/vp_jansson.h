#ifndef VP_JANSSON_H
#define VP_JANSSON_H
#include <jansson.h>
enum { K_PATH, K_SUB, K_MTIME, K_PRIO, K_SIZE, K_HASH, K_DUPS, K_N };
/* an object has a slot for each key of the format; a container knows its parent and how many values were appended */
struct vpj { json_t base; const char *str; json_int_t num; unsigned n; int mark; struct vpj *slot[K_N]; struct vpj *parent; };
/* called at each append, given by the harness */
void vpj_appended(struct vpj *array, struct vpj *value);
#endif
