#ifndef VP_APR_H
#define VP_APR_H
#include <apr.h>
#include <apr_pools.h>
apr_pool_t *vp_pool(void);
int vp_pool_is_dead(apr_pool_t *p);
#endif
