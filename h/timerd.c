#include "vf.h"
#include <ngx_config.h>
#include <ngx_core.h>
/* zeroing a whole object as an assignment, which the solver's front end follows */
#undef ngx_memzero
#define VF_OBJ(p)          __typeof__(__builtin_choose_expr(__builtin_types_compatible_p(__typeof__(p), void *), (char *) 0, (p)))
#define ngx_memzero(p, n)  (sizeof(*(VF_OBJ(p)) (p)) == (n) ? (void) (*(VF_OBJ(p)) (p) = (__typeof__(*(VF_OBJ(p)) (p))) { 0 }) : (void) memset(p, 0, n))
#include "ngx_timerd.c"
#include "mapmodel.h"
#include "ngx_stubs.h"

#ifndef OPS
#define OPS 4
#endif
#define E 2

/* the event timer tree, as nginx uses it: armed or not */
static ngx_event_t  *armed[8];
static int           narmed;

static struct { ngx_uint_t number; } conn[E];
static ngx_event_t   ev0, ev1, *const evs[E] = { &ev0, &ev1 };
static int           pending[E], fired[E], expect[E];
static ngx_uint_t    owner[E];
static int           rearm, rearm_other;

static void
handler(ngx_event_t *e)
{
    int i = e == &ev1;
    fired[i]++;
    CHECK(e == evs[i], "the timer event of the caller is the one that fires");
    CHECK(e->timedout && !e->timer_set, "a fired timer is marked timed out and no longer armed");
    if (rearm) {
        ngx_add_timer_debug(e, 10, 0, "f", 3);
        owner[i] = conn[i].number;
        pending[i] = 1;
    } else if (rearm_other) {
        i = 1 - i;
        if (!pending[i] || owner[i] == conn[i].number) {
            owner[i] = conn[i].number;
            pending[i] = 1;
        }
        ngx_add_timer_debug(evs[i], 10, 0, "f", 3);
    }
}

/* (op: 0 arm, 1 cancel, 6 cancel as another, 2 fire, 4 fire and arm again in the
 * handler, 5 fire and arm the other one, 3 a new owner) */
#ifdef SEQ
static const int    seq[] = { SEQ };
#endif

/* every history of arming, cancelling, firing and reuse of the event by a new owner */
void
vf_timerd(void)
{
    int           i, k, op;
    ngx_uint_t    n, before;
    ngx_timerd_node_t *node;
    ngx_map_node_t *m;

    vf_init();
    for (k = 0; k < E; k++) {
        evs[k]->data = &conn[k];
        evs[k]->handler = handler;
        conn[k].number = ngx_timerd_footprint();
    }
    CHECK(conn[0].number != conn[1].number, "footprints differ");

#ifdef SEQ
    for (i = 0; i < (int) (sizeof(seq) / sizeof(seq[0])); i++) {
        op = seq[i] % 10;
        k = seq[i] / 10;
#else
    for (i = 0; i < OPS; i++) {
        op = ND_RANGE(0, 3);
        k = ND_RANGE(0, E - 1);
#endif
        rearm = op == 4;
        rearm_other = op == 5;
        m = ngx_map_find(&ngx_timerd_map, (intptr_t) evs[k]);
        node = m ? (ngx_timerd_node_t *) ((char *) m - offsetof(ngx_timerd_node_t, m)) : NULL;
        if (op == 0) {
            if (!pending[k] || owner[k] == conn[k].number) {
                ngx_add_timer_debug(evs[k], 10, 0, "f", 1);
                owner[k] = conn[k].number;
                pending[k] = 1;
            } else {
                ngx_add_timer_debug(evs[k], 10, 0, "f", 1);
            }
        } else if (op == 1 || op == 6) {
#ifdef SEQ
            n = op == 1 ? conn[k].number : conn[1 - k].number;
#else
            n = ND_BOOL() ? conn[k].number : conn[1 - k].number;
#endif
            if (pending[k] && n == owner[k]) {
                pending[k] = 0;
                ngx_del_timer_debug(evs[k], n, "f", 2);
                CHECK(!evs[k]->timer_set, "a cancelled timer is not armed");
                CHECK(!node->ev.timer_set, "a cancelled timer is not armed");
            } else {
                ngx_del_timer_debug(evs[k], n, "f", 2);
            }
        } else if (op == 2 || op == 4 || op == 5) {
            /* the event loop fires this timer */
            if (node && node->ev.timer_set) {
                ngx_event_del_timer(&node->ev);
                node->ev.timer_set = 0;
                node->ev.timedout = 1;
                if (owner[k] == conn[k].number) {
                    expect[k]++;
                    pending[k] = 0;
                }
                node->ev.handler(&node->ev);
            }
        } else if (!pending[k]) {
            conn[k].number = ngx_timerd_footprint();
        }
        n = 0;
        for (k = 0; k < E; k++) {
            CHECK(fired[k] == expect[k], "a timer fires once, for its owner, and never after it was cancelled");
            m = ngx_map_find(&ngx_timerd_map, (intptr_t) evs[k]);
            CHECK((m != NULL) == pending[k], "a timer is recorded exactly while it is pending");
            if (pending[k] && evs[k]->timer_set) {
                node = (ngx_timerd_node_t *) ((char *) m - offsetof(ngx_timerd_node_t, m));
                CHECK(node->ev.timer_set, "a pending timer is armed");
            }
            n += pending[k];
        }
        CHECK(ngx_timerd_nalloc - ngx_timerd_nfree == n, "the counters tell how many timers are pending");
    }
    REACH("end");
}
