#include "vf.h"
#include "ngx_process_slot_module.c"
#include "ngx_stubs.h"

static ngx_core_conf_t  ccf;
static void            *conf_ctx[2];
static ngx_process_slot_conf_t  *pscf;

#ifndef WORKERS
#define WORKERS 160
#endif
#define MAXW 160

VFS ngx_int_t
ngx_shm_alloc(ngx_shm_t *shm)
{
    shm->addr = vf_malloc(shm->size);
    return NGX_OK;
}

static void
start(void)
{
    ngx_core_module_t *m = ngx_process_slot_module.ctx;

    vf_init();
    vf_cycle.conf_ctx = (void ****) conf_ctx;
    ngx_core_module.index = 0;
    ngx_process_slot_module.index = 1;
    conf_ctx[0] = &ccf;
    conf_ctx[1] = m->create_conf(&vf_cycle);
    CHECK(m->init_conf(&vf_cycle, conf_ctx[1]) == NGX_CONF_OK, "configuration");
    ccf.worker_processes = ND_RANGE(1, MAXW);
    CHECK(ngx_process_slot_module.init_module(&vf_cycle) == NGX_OK, "module start");
}

/* two workers register, one leaves; a third lookup index is arbitrary */
void
vf_slot(void)
{
    ngx_uint_t  a, b, q;
    ngx_int_t   sa, sb, r;
    int         gone;

    start();
    ASSUME(ccf.worker_processes <= WORKERS);
    a = ND_RANGE(0, MAXW);
    b = ND_RANGE(0, MAXW);
    ASSUME(a < (ngx_uint_t) ccf.worker_processes && b < (ngx_uint_t) ccf.worker_processes && a != b);
    sa = ND_RANGE(0, 1023);
    sb = ND_RANGE(0, 1023);
    ngx_process = NGX_PROCESS_WORKER;
    ngx_worker = a;
    ngx_process_slot = sa;
    CHECK(ngx_process_slot_module.init_process(&vf_cycle) == NGX_OK, "worker start");
    ngx_worker = b;
    ngx_process_slot = sb;
    CHECK(ngx_process_slot_module.init_process(&vf_cycle) == NGX_OK, "worker start");

    gone = ND_BOOL();
    if (gone) {
        ngx_process_slot_module.exit_process(&vf_cycle);
    }

    q = ND64();
    r = ngx_multiport_get_slot(q);
    if (q == a) {
        CHECK(r == (a < 128 ? sa : -1), "a running worker is found at its slot; there are 128 slots");
        REACH("a");
    } else if (q == b && !gone) {
        CHECK(r == (b < 128 ? sb : -1), "a running worker is found at its slot; there are 128 slots");
    } else {
        CHECK(r == -1, "a worker that is not running has no slot");
        REACH("none");
    }
}

/* a restarted worker: the old process of the same index exits after (or
 * before) its replacement registered, and must not unregister it */
void
vf_slot_restart(void)
{
    ngx_uint_t  a;
    ngx_int_t   s1, s2;

    start();
    ASSUME(ccf.worker_processes <= WORKERS);
    a = ND_RANGE(0, MAXW);
    ASSUME(a < (ngx_uint_t) ccf.worker_processes);
    s1 = ND_RANGE(0, 1023);
    s2 = ND_RANGE(0, 1023);
    ASSUME(s1 != s2);
    ngx_process = NGX_PROCESS_WORKER;
    ngx_worker = a;
    ngx_process_slot = s1;
    ngx_process_slot_module.init_process(&vf_cycle);
    if (ND_BOOL()) {
        ngx_process_slot = s2;
        ngx_process_slot_module.init_process(&vf_cycle);
        ngx_process_slot = s1;
        ngx_process_slot_module.exit_process(&vf_cycle);
    } else {
        ngx_process_slot_module.exit_process(&vf_cycle);
        CHECK(ngx_multiport_get_slot(a) == -1, "after exit there is no slot");
        ngx_process_slot = s2;
        ngx_process_slot_module.init_process(&vf_cycle);
    }
    CHECK(ngx_multiport_get_slot(a) == (a < 128 ? s2 : -1), "the replacement stays registered");
    REACH("restart");
}

/* processes that are not workers (cache manager, single) leave the table alone */
void
vf_slot_other(void)
{
    ngx_uint_t a, p;

    start();
    ASSUME(ccf.worker_processes <= WORKERS);
    a = ND_RANGE(0, MAXW);
    ASSUME(a < (ngx_uint_t) ccf.worker_processes);
    p = ND_RANGE(0, 4);
    ASSUME(p != NGX_PROCESS_WORKER);
    ngx_process = p;
    ngx_worker = a;
    ngx_process_slot = ND_RANGE(0, 1023);
    ngx_process_slot_module.init_process(&vf_cycle);
    CHECK(ngx_multiport_get_slot(a) == -1, "helpers take no slot");
    ngx_process_slot_module.exit_process(&vf_cycle);
    REACH("other");
}
