/* the ordered map as its contract (decided for the real code by C17): a list
 * of nodes in key order.  For harnesses of code that merely uses a map. */
#ifndef MAPMODEL_H
#define MAPMODEL_H
#include "ngx_map.h"
#define MM_MAX 6
static struct { ngx_map_t *map; ngx_map_node_t *n[MM_MAX]; int c; } mm[2];
static int mm_get(ngx_map_t *m) { int i = mm[0].map == m || mm[0].map == NULL ? 0 : 1; mm[i].map = m; return i; }
void ngx_map_init(ngx_map_t *m, ngx_map_hash_pt h, ngx_cmp_pt c) { mm[mm_get(m)].c = 0; }
ngx_map_node_t *ngx_map_find(ngx_map_t *m, intptr_t key)
{
    int i, k;
    k = mm_get(m);
    for (i = 0; i < MM_MAX; i++) {
        if (i < mm[k].c && (void *) mm[k].n[i]->raw_key == (void *) key) {
            return mm[k].n[i];
        }
    }
    return NULL;
}
void ngx_map_delete(ngx_map_t *m, intptr_t key)
{
    int i, k, f;
    k = mm_get(m);
    f = 0;
    for (i = 0; i < MM_MAX; i++) {
        if (i < mm[k].c) {
            if (f) {
                mm[k].n[i - 1] = mm[k].n[i];
            }
            if (!f && (void *) mm[k].n[i]->raw_key == (void *) key) {
                f = 1;
            }
        }
    }
    mm[k].c -= f;
}
void ngx_map_insert(ngx_map_t *m, ngx_map_node_t *n, ngx_flag_t covered)
{
    int k;
    k = mm_get(m);
    if (ngx_map_find(m, n->raw_key)) {
        if (!covered) {
            return;
        }
        ngx_map_delete(m, n->raw_key);
    }
    CHECK(mm[k].c < MM_MAX, "(harness) map model large enough");
    mm[k].n[mm[k].c++] = n;
    n->map = m;
}
ngx_map_node_t *ngx_map_begin(ngx_map_t *m) { int k = mm_get(m); return mm[k].c ? mm[k].n[0] : NULL; }
ngx_map_node_t *ngx_map_next(ngx_map_node_t *n)
{
    int i, k;
    k = mm_get(n->map);
    for (i = 0; i + 1 < MM_MAX; i++) {
        if (i + 1 < mm[k].c && mm[k].n[i] == n) {
            return mm[k].n[i + 1];
        }
    }
    return NULL;
}
ngx_rbtree_key_t ngx_map_hash_uint(intptr_t k) { return k; }
int ngx_cmp_uint(intptr_t a, intptr_t b) { return a < b ? -1 : a > b; }
#endif
