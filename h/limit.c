#include "vf.h"
#define VF_ARRAY_CAP 2
#define VF_MEM_LOOP
#define VF_OWN_PCALLOC
#include "ngx_rtmp_init.c"
#include "ngx_rtmp_limit_module.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

/* sessions are typed objects: cheaper than bytes */
static struct { ngx_rtmp_session_t s; ngx_chain_t *out[2]; } mem_s[4];
static struct { void *p[4]; } mem_ctx[4];
static ngx_rtmp_stream_t      mem_streams[4][2];
static int                    mem_n;

void *
ngx_pcalloc(ngx_pool_t *pool, size_t n)
{
    void *p;

    if (n == sizeof(ngx_rtmp_session_t) + sizeof(void *)) {
        return &mem_s[mem_n++];
    }
    if (n == 3 * sizeof(void *)) {
        return &mem_ctx[mem_n - 1];
    }
    if (n == sizeof(ngx_rtmp_stream_t)) {
        return mem_streams[mem_n - 1];
    }
    p = vf_malloc(n);
    memset(p, 0, n);
    return p;
}

/* 0, 1: client 0 or 1 connects, or leaves when it is there; 2: a session over
 * HTTP comes and goes */
#ifndef SEQ
#define SEQ 0, 1, 0
#endif
#ifndef LIMITED
#define LIMITED 1
#endif
#ifndef SERVED
#define SERVED 1
#endif
#define K 2
static const int seq[] = { SEQ };
#define OPS (int) (sizeof(seq) / sizeof(seq[0]))

static ngx_rtmp_core_main_conf_t   cmcf;
static ngx_rtmp_core_srv_conf_t    cscf;
static ngx_rtmp_limit_main_conf_t *lmcf;
static ngx_shm_zone_t              zone;
static ngx_slab_pool_t             slab;
static uint32_t                    count;
static ngx_rtmp_conf_ctx_t         cctx;
static ngx_rtmp_core_srv_conf_t    dflt;
static ngx_rtmp_addr_conf_t        addr_conf;
static ngx_rtmp_in_addr_t          in_addr;
static ngx_rtmp_port_t             port;
static ngx_listening_t             ls;

static ngx_connection_t  conn[K];
static ngx_event_t       rev[K], wev[K];
static struct sockaddr_in sa[K], lsa;
static int               up[K];      /* let in and still there */
static int               cur, passed, closed[K];
static ngx_rtmp_session_t *sess[K];

static ngx_rtmp_handler_pt handlers[NGX_RTMP_MAX_EVENT - (NGX_RTMP_MSG_MAX)][2];
VFS ngx_module_t   ngx_rtmp_core_module;
VFS ngx_uint_t     ngx_rtmp_max_module;
static ngx_atomic_t n_active;
ngx_atomic_t       *ngx_stat_active = &n_active;

/* what ngx_rtmp_fire_event does, with the calls written out */
ngx_int_t
ngx_rtmp_fire_event(ngx_rtmp_session_t *s, ngx_uint_t evt, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    if (evt == NGX_RTMP_CONNECT && handlers[NGX_RTMP_CONNECT - (NGX_RTMP_MSG_MAX)][0] == ngx_rtmp_limit_connect) {
        /* checked, then given as a constant: one path at a time */
        CHECK((ngx_rtmp_limit_connect(s, h, in) == NGX_OK) == SERVED, "a client is let in when there are fewer than max_connections");
        return SERVED ? NGX_OK : NGX_ERROR;
    }
    if (evt == NGX_RTMP_DISCONNECT && handlers[NGX_RTMP_DISCONNECT - (NGX_RTMP_MSG_MAX)][0] == ngx_rtmp_limit_disconnect) {
        return ngx_rtmp_limit_disconnect(s, h, in) == NGX_OK ? NGX_OK : NGX_ERROR;
    }
    return NGX_OK;
}

VFS ngx_module_t   ngx_live_relay_module;
VFS ngx_uint_t     ngx_rtmp_naccepted_;

void ngx_rtmp_handshake(ngx_rtmp_session_t *s) { passed = 1; }
void ngx_rtmp_proxy_protocol(ngx_rtmp_session_t *s) { passed = 1; }
ngx_int_t ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t n) { return NGX_OK; }
void ngx_rtmp_free_handshake_buffers(ngx_rtmp_session_t *s) { }
void ngx_rtmp_free_merge_frame(ngx_rtmp_session_t *s) { }
VFS void ngx_close_connection(ngx_connection_t *c) { closed[c - conn]++; }
VFS ngx_shm_zone_t *ngx_shared_memory_add(ngx_conf_t *cf, ngx_str_t *name, size_t size, void *tag) { return &zone; }
VFS void *ngx_slab_alloc(ngx_slab_pool_t *p, size_t n) { return &count; }

static void
run_posted(void)
{
    ngx_queue_t *q;
    ngx_event_t *ev;
    int          i;

    for (i = 0; i < 2 && !ngx_queue_empty(&ngx_posted_events); i++) {
        q = ngx_queue_head(&ngx_posted_events);
        ev = ngx_queue_data(q, ngx_event_t, queue);
        ngx_delete_posted_event(ev);
        CHECK(ev->handler == ngx_rtmp_close_session_handler, "what is posted closes a session");
        ngx_rtmp_close_session_handler(ev);
    }
}

/* every history of client connects, client disconnects and ends of sessions
 * that came over HTTP: at most max_connections RTMP clients at a time */
void
vf_limit(void)
{
    ngx_conf_t           cf;
    ngx_rtmp_conf_ctx_t  rc;
    ngx_rtmp_session_t  *s;
    int                  i, k, n, max, base, limited;

    vf_init();
    ngx_rtmp_core_module.ctx_index = 0;
    ngx_rtmp_limit_module.ctx_index = 1;
    ngx_live_relay_module.ctx_index = 2;
    ngx_rtmp_max_module = 3;
    memset(&cf, 0, sizeof(cf));
    cf.pool = &vf_pool;
    cf.ctx = &rc;
    rc.main_conf = vf_main_conf;
    for (i = 0; i < NGX_RTMP_MAX_EVENT; i++) {
        if (i >= NGX_RTMP_MSG_MAX) {
            cmcf.events[i].elts = handlers[i - NGX_RTMP_MSG_MAX];
            cmcf.events[i].nalloc = 2;
            cmcf.events[i].size = sizeof(ngx_rtmp_handler_pt);
            cmcf.events[i].pool = &vf_pool;
        }
    }
    vf_main_conf[0] = &cmcf;
    vf_main_conf[1] = lmcf = ngx_rtmp_limit_create_main_conf(&cf);
    limited = LIMITED;
    max = ND_RANGE(1, 1000000);
    if (limited) {
        lmcf->max_conn = max;
    }
    CHECK(ngx_rtmp_limit_postconfiguration(&cf) == NGX_OK, "configured");
    if (limited) {
        zone.shm.addr = (u_char *) &slab;
        CHECK(zone.init(&zone, NULL) == NGX_OK, "zone");
    }
    base = ND_RANGE(0, 1000000);     /* clients of other workers */
    count = base;
    /* every client of this run is let in, or none is */
    ASSUME(SERVED ? (!LIMITED || base + 2 <= max) : LIMITED && base >= max);
    vf_srv_conf[0] = &cscf;
    cscf.out_queue = 1;
    cscf.max_streams = 1;
    dflt.ctx = &cctx;
    cctx.main_conf = vf_main_conf;
    cctx.srv_conf = vf_srv_conf;
    in_addr.conf.default_server = &dflt;
    addr_conf.default_server = &dflt;
    port.addrs = &in_addr;
    port.naddrs = 1;
    ls.servers = &port;
    lsa.sin_family = AF_INET;

    for (i = 0; i < OPS; i++) {
        k = cur = seq[i];
        n = base + up[0] + up[1];
        if (k < K) {
            if (sess[k] == NULL) {
                conn[k].read = &rev[k];
                conn[k].write = &wev[k];
                conn[k].listening = &ls;
                conn[k].log = &vf_log;
                conn[k].local_sockaddr = (struct sockaddr *) &lsa;
                conn[k].sockaddr = (struct sockaddr *) &sa[k];
                conn[k].socklen = sizeof(sa[k]);
                conn[k].destroyed = 0;
                passed = 0;
                ngx_rtmp_init_connection(&conn[k]);
                run_posted();
                if (!SERVED) {
                    CHECK(!passed, "a client above max_connections is not served");
                    CHECK(closed[k], "a client above max_connections is disconnected");
#if !SERVED
                    REACH("refused");
#endif
                } else {
                    CHECK(passed, "a client within max_connections is served");
                    up[k] = 1;
                    sess[k] = &mem_s[mem_n - 1].s;
                }
                closed[k] = 0;
            } else {
                ngx_rtmp_finalize_session(sess[k]);
                ngx_rtmp_finalize_session(sess[k]);
                run_posted();
                CHECK(closed[k] == 1, "a finalized session closes its connection once");
                closed[k] = 0;
                up[k] = 0;
                sess[k] = NULL;
            }
        } else {
            /* a player over HTTP comes and goes */
            s = ngx_rtmp_create_session(&addr_conf);
            s->live_type = NGX_HLS_LIVE;
            ngx_rtmp_finalize_session(s);
        }
    }
    if (limited) {
        CHECK(count == (uint32_t) (base + up[0] + up[1]), "exactly the clients that are there count");
    }
    REACH("end");
}
