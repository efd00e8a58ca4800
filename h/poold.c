#include "vf.h"
#include "ngx_poold.c"
#include "mapmodel.h"
#include "ngx_stubs.h"

#ifndef OPS
#define OPS 5
#endif
#define H 3

static ngx_pool_t  *pool[H];
static int          live[H];

/* every history of pool creations and destructions, some of them repeated */
void
vf_poold(void)
{
    int         i, k, n, h;

    vf_init();
    for (i = 0; i < OPS; i++) {
        h = ND_RANGE(0, H - 1);
        if (!live[h] && ND_BOOL()) {
            pool[h] = ngx_create_pool_debug(100, &vf_log, "f", 1);
            CHECK(pool[h] != NULL, "a pool is created");
            live[h] = 1;
        } else if (pool[h]) {
            ngx_destroy_pool_debug(pool[h], "f", 2);
            live[h] = 0;
        }
        for (k = n = 0; k < H; k++) {
            n += live[k];
            if (pool[k]) {
                CHECK((ngx_map_find(&ngx_poold_map, (intptr_t) pool[k]) != NULL) == live[k],
                      "exactly the pools in use are on record");
            }
        }
        CHECK(ngx_poold_nalloc - ngx_poold_nfree == (ngx_uint_t) n, "the counters tell how many pools are in use");
    }
    REACH("end");
}
