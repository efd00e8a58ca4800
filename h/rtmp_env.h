/* An RTMP session with its configuration, for harnesses.  Include after the
 * real sources and ngx_stubs.h. */
#ifndef RTMP_ENV_H
#define RTMP_ENV_H
#include "ngx_rtmp.h"
#include "ngx_rtmp_cmd_module.h"
#include "ngx_rbuf.h"
#include "ngx_poold.h"

#ifndef VF_OWN_POOLD
VFS ngx_pool_t *ngx_create_pool_debug(size_t n, ngx_log_t *l, char *f, int line) { return ngx_create_pool(n, l); }
VFS void ngx_destroy_pool_debug(ngx_pool_t *p, char *f, int line) { ngx_destroy_pool(p); }
#endif

#ifndef VF_OWN_CHAINBUF
/* the chain-buffer pool as C18 states it: each link its own object, freed on
 * put so that any later use is caught */
static int vf_chainbufs;
typedef struct { ngx_chain_t cl; ngx_buf_t buf; int mem; } vf_chainbuf_t;
VFS ngx_chain_t *
ngx_get_chainbuf_debug(size_t size, ngx_flag_t mem, char *f, int line)
{
    vf_chainbuf_t *c = vf_malloc(sizeof(vf_chainbuf_t));
    memset(c, 0, sizeof(vf_chainbuf_t));
    c->cl.buf = &c->buf;
    c->buf.memory = 1;
    c->mem = mem;
    if (mem) {
        c->buf.start = c->buf.pos = c->buf.last = vf_malloc(size);
        c->buf.end = c->buf.start + size;
    }
    vf_chainbufs++;
    return &c->cl;
}
VFS void
ngx_put_chainbuf_debug(ngx_chain_t *cl, char *f, int line)
{
    vf_chainbuf_t *c = (vf_chainbuf_t *) cl;
    if (cl == NULL) {
        return;
    }
#ifdef VF_CHAINBUF_SPOIL
    /* in place of free(), which makes path exploration branch */
    CHECK(c->mem != 9, "a chain buffer is put back once");
    c->mem = 9;
    c->cl.buf = NULL;
    c->cl.next = NULL;
    c->buf.start = c->buf.pos = c->buf.last = c->buf.end = NULL;
#else
    if (c->mem) {
        free(c->buf.start);
    }
    free(c);
#endif
    vf_chainbufs--;
}
#endif

#define VF_NMOD 8
static void  *vf_main_conf[VF_NMOD], *vf_srv_conf[VF_NMOD], *vf_app_conf[VF_NMOD];

static inline void
vf_session(ngx_rtmp_session_t *s, void **ctx, ngx_connection_t *c)
{
    memset(s, 0, sizeof(*s));
    s->ctx = ctx;
    s->main_conf = vf_main_conf;
    s->srv_conf = vf_srv_conf;
    s->app_conf = vf_app_conf;
    s->pool = &vf_pool;
    s->log = &vf_log;
    s->connection = c;
}
#endif
