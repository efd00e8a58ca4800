#define VF_OWN_SHMTX
#include "vf.h"
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>
#include "ngx_stream_zone_module.c"
#include "ngx_stubs.h"

/* operation kinds: 0 publish, 1 unpublish, 2 worker exit */
#ifndef OPS
#define OPS 4
#endif
#ifndef STREAMS
#define STREAMS 2
#endif
#ifndef BUCKETS
#define BUCKETS 2
#endif
#define NAMES 3
#define SLOTS 2

static void *conf_ctx[1];

/* the zone as one typed object: same bytes, cheaper to reason about */
static struct {
    ngx_shmtx_t             m;
    ngx_shmtx_sh_t          l;
    ngx_stream_zone_hash_t  hash[BUCKETS];
    ngx_stream_zone_node_t  node[STREAMS];
    ngx_int_t               tail[2];
} zone;

VFS ngx_int_t
ngx_shm_alloc(ngx_shm_t *shm)
{
    shm->addr = shm->size == sizeof(zone) ? (u_char *) &zone : vf_malloc(shm->size);
    return NGX_OK;
}

static ngx_stream_zone_conf_t *c;
static u_char     nm[NAMES][2];
static ngx_int_t  owner[NAMES];
static ngx_stream_zone_hash_t  thash[BUCKETS];
static ngx_stream_zone_node_t  tnode[STREAMS];
static ngx_int_t               tfree, talloc;

/* ---- locks: a lock that is taken twice would block for ever; another worker
 * may run at every point where this one holds nothing it needs ---- */
static int  nheld;          /* locks held by whoever runs */
static int  budget;         /* preemptions left */
static int  inner;          /* the preempting worker runs */
static int  op2, me2, k2;
static ngx_int_t r2;
static ngx_int_t snap_head[BUCKETS], snap_slot[STREAMS], snap_next[STREAMS], snap_free;

static ngx_int_t call(int op, ngx_int_t me, int k);

static void
snapshot(void)
{
    int i;
    for (i = 0; i < BUCKETS; i++) {
        snap_head[i] = thash[i].node;
    }
    for (i = 0; i < STREAMS; i++) {
        snap_slot[i] = tnode[i].slot;
        snap_next[i] = tnode[i].next;
    }
    snap_free = tfree;
}

static void
unchanged(void)
{
    int i;
    for (i = 0; i < BUCKETS; i++) {
        CHECK(snap_head[i] == thash[i].node, "the table changes only under its lock");
    }
    for (i = 0; i < STREAMS; i++) {
        CHECK(snap_slot[i] == tnode[i].slot && snap_next[i] == tnode[i].next,
              "the table changes only under its lock");
    }
    CHECK(snap_free == tfree, "the table changes only under its lock");
}

static void
preempt(void)
{
    ngx_int_t  me;
    int        h;

    if (budget && !inner && ND_BOOL()) {
        budget--;
        inner = 1;
        me = ngx_process_slot;
        h = nheld;
        nheld = 0;
        r2 = call(op2, me2, k2);
        nheld = h;
        ngx_process_slot = me;
        inner = 0;
    }
}

void
ngx_shmtx_lock(ngx_shmtx_t *m)
{
    if (c->hash == thash) {
        if (nheld == 0 && !inner) {
            unchanged();
        }
        preempt();
        if (inner) {
            ASSUME(!m->spin);           /* blocks: not a possible schedule */
        }
        CHECK(!m->spin, "no worker waits for a lock it holds");
        m->spin = 1;
        nheld++;
    }
}

void
ngx_shmtx_unlock(ngx_shmtx_t *m)
{
    if (c->hash == thash) {
        CHECK(m->spin, "only a held lock is released");
        m->spin = 0;
        nheld--;
        preempt();
        if (nheld == 0 && !inner) {
            snapshot();
        }
    }
}

static void
start(void)
{
    ngx_core_module_t      *m = ngx_stream_zone_module.ctx;
    int                     i, k;

    vf_init();
    vf_cycle.conf_ctx = (void ****) conf_ctx;
    ngx_stream_zone_module.index = 0;
    c = m->create_conf(&vf_cycle);
    conf_ctx[0] = c;
    c->nbuckets = BUCKETS;
    c->nstreams = STREAMS;
    CHECK(m->init_conf(&vf_cycle, c) == NGX_CONF_OK, "zone set up");
    nm[0][0] = 'a'; nm[1][0] = 'b'; nm[2][0] = 'a'; nm[2][1] = 'b';
    for (k = 0; k < NAMES; k++) {
        owner[k] = -1;
    }

    /* move what was initialised to separate typed arrays: the same state,
     * far cheaper to index symbolically */
    for (i = 0; i < BUCKETS; i++) {
        thash[i] = c->hash[i];
        thash[i].mutex.spin = 0;
    }
    for (i = 0; i < STREAMS; i++) {
        tnode[i] = c->stream_node[i];
    }
    tfree = *c->free_node;
    talloc = *c->alloc;
    c->hash = thash;
    c->stream_node = tnode;
    c->free_node = &tfree;
    c->alloc = &talloc;
    c->mutex->spin = 0;
    snapshot();
}

static ngx_int_t
call(int op, ngx_int_t me, int k)
{
    ngx_str_t  s;

    ngx_process_slot = me;
    s.data = nm[k];
    s.len = k == 2 ? 2 : 1;
    if (op == 0) {
        return ngx_stream_zone_insert_stream(&s);
    }
    if (op == 1) {
        ngx_stream_zone_delete_stream(&s);
    } else if (op == 2) {
        ngx_stream_zone_module.exit_process(&vf_cycle);
    } else {
        ngx_stream_zone_module.init_process(&vf_cycle);
    }
    return 0;
}

/* what the call must do to the owners, and what it must answer */
static ngx_int_t
model(int op, ngx_int_t me, int k, ngx_int_t *o)
{
    int  j, used;

    if (op == 0) {
        for (j = used = 0; j < NAMES; j++) {
            used += o[j] != -1;
        }
        if (o[k] != -1) {
            return o[k];
        }
        if (used == STREAMS) {
            return NGX_ERROR;
        }
        o[k] = me;
        return me;
    }
    if (op == 1) {
        if (o[k] == me) {
            o[k] = -1;
        }
        return 0;
    }
    for (j = 0; j < NAMES; j++) {
        if (o[j] == me) {
            o[j] = -1;
        }
    }
    return 0;
}

static int
is_name(u_char *p, int k)
{
    return p[0] == nm[k][0] && p[1] == nm[k][1] && (p[1] == 0 || p[2] == 0);
}

/* 1 when the table holds exactly o, every other node being free */
static int
table_is(ngx_int_t *o)
{
    int        b, j, n, ok, seen[NAMES], total;
    ngx_int_t  i;

    ok = 1;
    total = 0;
    for (j = 0; j < NAMES; j++) {
        seen[j] = 0;
    }
    for (b = 0; b < BUCKETS; b++) {
        i = thash[b].node;
        for (n = 0; n < STREAMS && i != -1; n++) {
            if (i < 0 || i >= STREAMS) {
                return 0;
            }
            for (j = 0; j < NAMES; j++) {
                if (is_name(tnode[i].name, j)) {
                    seen[j]++;
                    ok &= o[j] == tnode[i].slot;
                }
            }
            total++;
            i = tnode[i].next;
        }
        ok &= i == -1;
    }
    for (j = 0; j < NAMES; j++) {
        ok &= seen[j] == (o[j] != -1);
    }
    ok &= talloc == total;
    i = tfree;
    for (n = 0; n <= STREAMS && i != -1; n++) {
        if (i < 0 || i >= STREAMS) {
            return 0;
        }
        total++;
        i = tnode[i].next;
    }
    return ok && i == -1 && total == STREAMS;
}

/* every history of publishes, unpublishes, worker exits and restarts by
 * several workers sharing the zone: a stream has at most one owner */
void
vf_zone(void)
{
    int        i, op, k;
    ngx_int_t  me, r, want;

    start();
    for (i = 0; i < OPS; i++) {
        op = ND_RANGE(0, 3);
        me = ND_RANGE(0, SLOTS - 1);
        k = ND_RANGE(0, NAMES - 1);
        want = model(op, me, k, owner);
        r = call(op, me, k);
        if (op == 0) {
            CHECK(r == want, "a publish answers the worker that owns the stream, or refuses when the zone is full");
        }
    }
    CHECK(table_is(owner), "the zone holds exactly the published streams with their owners");
    REACH("end");
}

/* after any history of PRE operations, two workers call at the same time: the
 * second runs at one arbitrary point of the first where the locks let it */
#ifndef OPA
#define OPA 0
#define OPB 0
#endif
#ifndef PRE
#define PRE 2
#endif
void
vf_zone_race(void)
{
    ngx_int_t  o1[NAMES], o2[NAMES], me, r, w1a, w1b, w2a, w2b;
    int        i, op, k;

    start();
    for (i = 0; i < PRE; i++) {
        me = ND_RANGE(0, SLOTS - 1);
        k = ND_RANGE(0, NAMES - 1);
        model(0, me, k, owner);
        call(0, me, k);
    }
    op = OPA;
    me = 0;
    k = ND_RANGE(0, NAMES - 1);
    op2 = OPB;
    me2 = 1;
    k2 = ND_RANGE(0, NAMES - 1);
    for (i = 0; i < NAMES; i++) {
        o1[i] = o2[i] = owner[i];
    }
    budget = 1;
    r = call(op, me, k);
    ASSUME(budget == 0);
    unchanged();

    /* the same as one of the two orders */
    w1a = model(op, me, k, o1);
    w1b = model(op2, me2, k2, o1);
    w2b = model(op2, me2, k2, o2);
    w2a = model(op, me, k, o2);
    CHECK((w1a == r && w1b == r2 && table_is(o1)) || (w2a == r && w2b == r2 && table_is(o2))
          || (op == 2 || op2 == 2),
          "two calls at once do what one after the other would");
    if (op == 2 || op2 == 2) {
        /* a worker leaving empties bucket after bucket, so only what stays is
         * settled: nothing of the leaver, everything of the other */
        CHECK(table_is(o1) || table_is(o2), "a worker leaving removes its streams only");
    }
    REACH("both");
}
