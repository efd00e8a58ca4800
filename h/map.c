#include "vf.h"
#define VF_REAL_RBTREE
#include "ngx_map.c"
#include "ngx_stubs.h"

/* every search tree of up to 4 nodes, given by an insertion order of ranks */
static const struct { int n; int order[4]; } shape[] = {
    {0, {0, 0, 0, 0}},
    {1, {0, 0, 0, 0}},
    {2, {0, 1, 0, 0}},
    {2, {1, 0, 0, 0}},
    {3, {0, 1, 2, 0}},
    {3, {0, 2, 1, 0}},
    {3, {1, 0, 2, 0}},
    {3, {2, 0, 1, 0}},
    {3, {2, 1, 0, 0}},
    {4, {0, 1, 2, 3}},
    {4, {0, 1, 3, 2}},
    {4, {0, 2, 1, 3}},
    {4, {0, 3, 1, 2}},
    {4, {0, 3, 2, 1}},
    {4, {1, 0, 2, 3}},
    {4, {1, 0, 3, 2}},
    {4, {2, 0, 1, 3}},
    {4, {2, 1, 0, 3}},
    {4, {3, 0, 1, 2}},
    {4, {3, 0, 2, 1}},
    {4, {3, 1, 0, 2}},
    {4, {3, 2, 0, 1}},
    {4, {3, 2, 1, 0}}
};

#ifndef LO
#define LO 0
#endif
#ifndef SHAPES
#define SHAPES 9
#endif
#define KEYS 6

static ngx_map_t        m;
static ngx_map_node_t  *nd[5];          /* live nodes in ascending order */
static int              live;
static ngx_rbtree_key_t hv[KEYS];       /* any hash function, collisions included */

static ngx_rbtree_key_t
hash(intptr_t k)
{
    return hv[k];
}

static int
before(intptr_t a, intptr_t b)
{
    return hv[a] < hv[b] || (hv[a] == hv[b] && a < b);
}

/* a map in the given tree shape holding arbitrary distinct keys */
static void
build(int s)
{
    ngx_rbtree_node_t  *x, *t;
    int                 i, r, rank[4];

    ngx_map_init(&m, hash, ngx_cmp_uint);
    live = shape[s].n;
    for (i = 0; i < live; i++) {
        nd[i] = vf_malloc(sizeof(ngx_map_node_t));
        nd[i]->raw_key = ND_RANGE(0, KEYS - 1);
        nd[i]->rn.key = hash(nd[i]->raw_key);
        nd[i]->rn.left = nd[i]->rn.right = &m.sentinel;
        nd[i]->map = &m;
        ASSUME(i == 0 || before(nd[i - 1]->raw_key, nd[i]->raw_key));
    }
    for (i = 0; i < live; i++) {
        r = shape[s].order[i];
        x = &nd[r]->rn;
        if (i == 0) {
            m.rbtree.root = x;
            x->parent = NULL;
            continue;
        }
        t = m.rbtree.root;
        for ( ;; ) {
            int j, tr = 0;
            for (j = 0; j < live; j++) {
                if (&nd[j]->rn == t) {
                    tr = j;
                }
            }
            if (r < tr) {
                if (t->left == &m.sentinel) { t->left = x; break; }
                t = t->left;
            } else {
                if (t->right == &m.sentinel) { t->right = x; break; }
                t = t->right;
            }
        }
        x->parent = t;
    }
}

static ngx_map_node_t *
holder(intptr_t k)
{
    int i;
    for (i = 0; i < live; i++) {
        if (nd[i]->raw_key == k) {
            return nd[i];
        }
    }
    return NULL;
}

/* the map holds exactly nd[0..live) and says so on every query */
static void
check_all(void)
{
    int       i;
    intptr_t  k;

    k = ND_RANGE(0, KEYS - 1);
    CHECK(ngx_map_find(&m, k) == holder(k), "find returns the entry stored under the key");
    CHECK(ngx_map_begin(&m) == (live ? nd[0] : NULL), "first entry is the least");
    CHECK(ngx_map_rbegin(&m) == (live ? nd[live - 1] : NULL), "last entry is the greatest");
    for (i = 0; i < live; i++) {
        CHECK(ngx_map_next(nd[i]) == (i + 1 < live ? nd[i + 1] : NULL), "next is the successor");
        CHECK(ngx_map_prev(nd[i]) == (i ? nd[i - 1] : NULL), "prev is the predecessor");
    }
}

static void
query_shape(int s)
{
    build(s);
    check_all();
    REACH("queried");
}

static void
insert_shape(int s)
{
    ngx_map_node_t *n, *h;
    int             cover, i;
    intptr_t        k;

    build(s);
    n = vf_malloc(sizeof(ngx_map_node_t));
    n->raw_key = ND_RANGE(0, KEYS - 1);
    cover = ND_BOOL();
    h = holder(n->raw_key);
    ngx_map_insert(&m, n, cover);
    if (h == NULL) {
        for (i = 0; i < live && before(nd[i]->raw_key, n->raw_key); i++) { }
        CHECK(ngx_map_next(n) == (i < live ? nd[i] : NULL), "insert keeps order forwards");
        CHECK(ngx_map_prev(n) == (i ? nd[i - 1] : NULL), "insert keeps order backwards");
    } else {
    }
    REACH("inserted");
    k = ND_RANGE(0, KEYS - 1);
    if (k == n->raw_key) {
        CHECK(ngx_map_find(&m, k) == (h && !cover ? h : n), "insert stores a new key, and replaces an old entry only when asked");
    } else {
        CHECK(ngx_map_find(&m, k) == holder(k), "insert leaves other keys alone");
    }
}

static void
delete_shape(int s)
{
    ngx_map_node_t *h;
    intptr_t        k, q;

    build(s);
    k = ND_RANGE(0, KEYS - 1);
    h = holder(k);
    ngx_map_delete(&m, k);
    q = ND_RANGE(0, KEYS - 1);
    if (q == k) {
        CHECK(ngx_map_find(&m, q) == NULL, "a deleted key is gone");
    } else {
        CHECK(ngx_map_find(&m, q) == holder(q), "delete leaves other keys alone");
    }
    REACH("deleted");
}

static void
setup(void)
{
    int k;
    vf_init();
    for (k = 0; k < KEYS; k++) {
        hv[k] = ND_RANGE(0, 3);
    }
}

void vf_map_query(void)  { setup(); EACH_LEN(LO, SHAPES - 1, query_shape); }
void vf_map_insert(void) { setup(); EACH_LEN(LO, SHAPES - 1, insert_shape); }
void vf_map_delete(void) { setup(); EACH_LEN(LO, SHAPES - 1, delete_shape); }

/* the string and integer key kinds the toolkit ships */
void
vf_map_keys(void)
{
    ngx_str_t a, b;
    u_char    da[3], db[3];
    ngx_int_t r, r2;
    size_t    i;
    int       same;

    vf_init();
    a.len = ND_RANGE(0, 3); a.data = da;
    b.len = ND_RANGE(0, 3); b.data = db;
    ND_BYTES(da, 3);
    ND_BYTES(db, 3);
    same = a.len == b.len;
    for (i = 0; i < 3; i++) {
        same = same && (i >= a.len || da[i] == db[i]);
    }
    r = ngx_cmp_str((intptr_t) &a, (intptr_t) &b);
    r2 = ngx_cmp_str((intptr_t) &b, (intptr_t) &a);
    CHECK((r == 0) == (same != 0), "string keys are equal exactly when their bytes are");
    CHECK(r == -r2 && r >= -1 && r <= 1, "string key order is antisymmetric");
    CHECK(!same || ngx_map_hash_str((intptr_t) &a) == ngx_map_hash_str((intptr_t) &b),
          "equal string keys hash alike");

    {
        intptr_t x = (intptr_t) ND64(), y = (intptr_t) ND64();
        int      u = ngx_cmp_uint(x, y), s = ngx_cmp_int(x, y);
        CHECK(u == ((ngx_uint_t) x < (ngx_uint_t) y ? -1 : (ngx_uint_t) x > (ngx_uint_t) y), "unsigned key order");
        CHECK(s == (x < y ? -1 : x > y), "signed key order");
        CHECK(x == y || ngx_map_hash_uint(x) != ngx_map_hash_uint(y) || u != 0, "distinct keys stay distinct");
        CHECK(x != y || ngx_map_hash_int(x) == ngx_map_hash_int(y), "equal keys hash alike");
        CHECK(((ngx_uint_t) x < (ngx_uint_t) y) == (ngx_map_hash_uint(x) < ngx_map_hash_uint(y)
              || (ngx_map_hash_uint(x) == ngx_map_hash_uint(y) && u < 0)), "unsigned keys walk in numeric order");
    }
    REACH("end");
}
