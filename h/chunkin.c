/* RTMP chunk input: a peer writes messages as chunks the way the RTMP
 * specification says, the real ngx_rtmp_recv reads them; the messages that
 * come out must be those that were written */
#include "vf.h"
#define VF_MEM_LOOP
#define VF_MEM_KILL
#define VF_OWN_POOLD
#define VF_OWN_PALLOC
#define VF_OWN_PCALLOC
#include "ngx_rtmp_handler.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

#ifndef MAXS
#define MAXS 8                      /* max_streams */
#endif
#ifndef CS0
#define CS0 4                       /* chunk size at the start */
#endif
#ifndef FIX
#define FIX 1                       /* publish_time_fix */
#endif
#ifndef NOREP
#define NOREP 0                     /* ext timestamp not repeated in type 3 chunks */
#endif
#ifndef CUTS
#define CUTS 1                      /* 0: all at once, 1: in two reads, any place, 2: byte by byte,
                                     * 3: chunk by chunk */
#endif
#ifndef MAXMSG
#define MAXMSG 1000
#endif

/* one chunk: bytes of the basic header, csid, fmt, timestamp (0 any plain, 1 any
 * extended, 2 a plain and 3 an extended constant), message length, type; a message of type 1 sets the chunk size to val */
typedef struct { int form, csid, fmt, ext, mlen, type; uint32_t val; } chunk_t;
#ifndef CH
#define CH { 1, 4, 0, 0, 6, 9, 0 }, { 1, 4, 3, 0, 0, 0, 0 }
#endif
static const chunk_t  ch[] = { CH };
#define NCH ((int) (sizeof(ch) / sizeof(ch[0])))

typedef struct { u_char e[4]; uint32_t time, delta, msid, extval; int mlen, type, len, ext, used; } state_t;
static state_t        st[MAXS];

#define MAXMLEN 32
typedef struct { uint32_t csid, type, msid, mlen, time; u_char data[MAXMLEN]; } msg_t;
static msg_t          want[NCH + 1], part[MAXS];
static int            nwant, ngot;

static u_char         wire[64];
static int            nwire, rpos, arrived, dead, chunk_end[NCH], chunk_msgs[NCH];

static ngx_rtmp_core_main_conf_t  cmcf;
static ngx_rtmp_core_srv_conf_t   cscf;
ngx_rtmp_core_main_conf_t        *ngx_rtmp_core_main_conf = &cmcf;
VFS ngx_module_t                  ngx_rtmp_core_module;
#ifdef WANT_DEAD
static ngx_rtmp_stream_t          streams[MAXS + 1];    /* one to fall into */
#else
static ngx_rtmp_stream_t          streams[MAXS];
#endif
static ngx_connection_t           c;
static ngx_event_t                rev, wev;
static ngx_rtmp_session_t         s;

/* pools that spoil their memory when they are destroyed */
typedef struct { ngx_pool_t p; int nm, nb, nc; void *m[24]; size_t size[24]; ngx_buf_t *b[24]; ngx_chain_t *c[24]; } pool_t;
static pool_t     pools[NCH + 3];
static int        npools;
static ngx_buf_t  zero;
VFS void *ngx_palloc(ngx_pool_t *pool, size_t size)
{
    pool_t *p = (pool_t *) pool;
    CHECK(size < 256, "buffers follow the chunk size");
    CHECK(p->nm < 24, "no more buffers than needed");
    p->size[p->nm] = size;
    return p->m[p->nm++] = vf_malloc(size);
}
VFS void *ngx_pcalloc(ngx_pool_t *pool, size_t size)
{
    pool_t    *p = (pool_t *) pool;
    ngx_buf_t *b;
    CHECK(size == sizeof(ngx_buf_t), "only buffers are zeroed");
    CHECK(p->nb < 24, "no more buffers than needed");
    b = malloc(sizeof(ngx_buf_t));
    *b = zero;
    p->b[p->nb++] = b;
    return b;
}
VFS ngx_chain_t *ngx_alloc_chain_link(ngx_pool_t *pool)
{
    pool_t      *p = (pool_t *) pool;
    ngx_chain_t *cl = malloc(sizeof(ngx_chain_t));
    CHECK(p->nc < 24, "no more buffers than needed");
    p->c[p->nc++] = cl;
    return cl;
}
VFS ngx_pool_t *ngx_create_pool_debug(size_t n, ngx_log_t *l, char *f, int line)
{
    CHECK(npools < NCH + 3, "a pool per chunk size");
    return &pools[npools++].p;
}
VFS void ngx_destroy_pool_debug(ngx_pool_t *pool, char *f, int line)
{
    pool_t *p = (pool_t *) pool;
    int     i;
    size_t  k;
    CHECK(pool != s.in_pool, "the pool in use is not destroyed");
    for (i = 0; i < p->nb; i++) {
        *p->b[i] = zero;
    }
    for (i = 0; i < p->nc; i++) {
        p->c[i]->buf = NULL;
        p->c[i]->next = NULL;
    }
    for (i = 0; i < p->nm; i++) {
        for (k = 0; k < p->size[i]; k++) {
            ((u_char *) p->m[i])[k] = 0xdd;
        }
    }
}

#ifndef WANT_DEAD
void ngx_rtmp_finalize_session(ngx_rtmp_session_t *ss) { CHECK(0, "a valid stream is read to the end"); ASSUME(0); }
#else
void ngx_rtmp_finalize_session(ngx_rtmp_session_t *ss) { dead++; c.destroyed = 1; }
#endif
void ngx_rtmp_update_bandwidth(ngx_rtmp_bandwidth_t *b, uint32_t n) { }
ngx_int_t ngx_rtmp_send_ack(ngx_rtmp_session_t *ss, uint32_t n) { return NGX_OK; }

static ssize_t
in_recv(ngx_connection_t *cc, u_char *buf, size_t size)
{
    int i, n, have;

    CHECK(size > 0, "there is room to read into");
    have = arrived - rpos;
    n = have < (int) size ? have : (int) size;
    if (n == 0) {
        return NGX_AGAIN;
    }
    for (i = 0; i < n; i++) {
        buf[i] = wire[rpos + i];
    }
    rpos += n;
    return n;
}

static ngx_int_t
on_msg(ngx_rtmp_session_t *ss, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    ngx_chain_t *cl;
    u_char      *p;
    uint32_t     n = 0;
    msg_t       *w = &want[ngot];

    CHECK(!dead, "nothing is handled after the session ended");
    MUST(ngot < nwant, "no message that was not sent");
    MUST(h->csid == w->csid, "chunk stream of the message");
    CHECK(h->type == w->type, "type of the message");
    CHECK(h->msid == w->msid, "message stream of the message");
    MUST(h->mlen == w->mlen, "length of the message");
    CHECK(h->timestamp == w->time, "timestamp of the message");
    for (cl = in; cl; cl = cl->next) {
        for (p = cl->buf->pos; p < cl->buf->last; p++) {
            MUST(n < w->mlen, "no more payload than was sent");
            CHECK(*p == w->data[n], "payload of the message");
            n++;
        }
    }
    MUST(n == w->mlen, "all the payload");
    ngot++;
    if (w->type == 1) {
        return ngx_rtmp_set_chunk_size(ss, (uint32_t) w->data[0] << 24 | w->data[1] << 16 | w->data[2] << 8 | w->data[3]);
    }
    return NGX_OK;
}

static void put(u_char x) { CHECK(nwire < 64, "harness: room"); wire[nwire++] = x; }
static void put3(uint32_t x) { put(x >> 16); put(x >> 8); put(x); }

/* the peer */
static void
writer(void)
{
    int            i, k, n, cs = CS0;
    uint32_t       ts;
    const chunk_t *x;
    state_t       *t;
    msg_t         *m;

    for (i = 0; i < NCH; i++) {
        x = &ch[i];
        t = &st[x->csid];
        m = &part[x->csid];
        switch (x->form) {
        case 1: put(x->fmt << 6 | x->csid); break;
        case 2: put(x->fmt << 6); put(x->csid - 64); break;
        case 3: put(x->fmt << 6 | 1); put((x->csid - 64) & 255); put((x->csid - 64) >> 8); break;
        }
        ts = x->ext < 2 ? ND32() : x->ext == 2 ? 1000 + 7 * i : 0x1000000 + i;
        if (x->fmt <= 2) {
            if (x->ext == 0) {
                ASSUME(ts < 0xffffff);
            }
            put3(x->ext & 1 ? 0xffffff : ts);
            t->ext = x->ext & 1;
            if (x->ext == 1) {
                t->e[0] = ND8(); t->e[1] = ND8(); t->e[2] = x->val ? x->val : ND8(); t->e[3] = ND8();
                ts = (uint32_t) t->e[0] << 24 | t->e[1] << 16 | t->e[2] << 8 | t->e[3];
            } else {
                t->e[0] = ts >> 24; t->e[1] = ts >> 16; t->e[2] = ts >> 8; t->e[3] = ts;
            }
            t->extval = ts;
            if (x->fmt <= 1) {
                t->mlen = x->mlen;
                t->type = x->type;
                put3(t->mlen);
                put(t->type);
                if (x->fmt == 0) {
                    t->msid = ND32();
                    put(t->msid); put(t->msid >> 8); put(t->msid >> 16); put(t->msid >> 24);
                }
            }
        }
        if (t->ext && (x->fmt <= 2 || (FIX && !NOREP))) {
            put(t->e[0]); put(t->e[1]); put(t->e[2]); put(t->e[3]);
        }
        if (t->len == 0) {
            if (x->fmt == 0) {
                t->time = ts;
                t->delta = 0;
            } else {
                if (x->fmt <= 2) {
                    t->delta = ts;
                }
                t->time += t->delta;
            }
            m->csid = x->csid;
            m->type = t->type;
            m->msid = t->msid;
            m->mlen = t->mlen;
            m->time = t->time;
        }
        n = t->mlen - t->len;
        if (n > cs) {
            n = cs;
        }
        for (k = 0; k < n; k++) {
            m->data[t->len + k] = t->type == 1 ? x->val >> (24 - 8 * (t->len + k)) : ND8();
            put(m->data[t->len + k]);
        }
        if (NOREP && x->fmt == 3 && t->ext) {
            ASSUME(n >= 4);
            ASSUME(((uint32_t) m->data[t->len] << 24 | m->data[t->len + 1] << 16 | m->data[t->len + 2] << 8 | m->data[t->len + 3]) != t->extval);
        }
        t->len += n;
        if (t->len == t->mlen) {
            t->len = 0;
            want[nwant++] = *m;
            if (t->type == 1) {
                cs = x->val;
            }
        }
        chunk_end[i] = nwire;
        chunk_msgs[i] = nwant;
    }
}

static ngx_rtmp_handler_pt  handlers[1] = { on_msg };

static void
start(void)
{
    int i;

    vf_init();
    vf_session(&s, NULL, &c);
    vf_main_conf[0] = &cmcf;
    vf_srv_conf[0] = &cscf;
    cscf.max_streams = MAXS;
    cscf.max_message = MAXMSG;
    cscf.publish_time_fix = FIX;
    for (i = 0; i <= NGX_RTMP_MSG_MAX; i++) {
        cmcf.events[i].elts = handlers;
        cmcf.events[i].nelts = 1;
    }
    s.in_streams = streams;
    c.data = &s;
    c.read = &rev;
    c.write = &wev;
    c.recv = in_recv;
    rev.data = &c;
    ngx_rtmp_set_chunk_size(&s, CS0);
}

void
vf_chunks(void)
{
    int i, k;

    start();
    writer();
#if CUTS == 1
    k = ND_RANGE(0, nwire);
    for (i = 0; i <= nwire; i++) {
        if (k == i) {
            arrived = i;
            break;
        }
    }
    ngx_rtmp_recv(&rev);
#endif
#if CUTS == 3
    for (i = 0; i < NCH; i++) {
        arrived = chunk_end[i];
        ngx_rtmp_recv(&rev);
        CHECK(ngot == chunk_msgs[i], "a message is delivered as soon as its last chunk is there");
        ASSUME(ngot == chunk_msgs[i]);
    }
#else
    for (i = 0; CUTS == 2 && i < nwire; i++) {
        arrived = i;
        ngx_rtmp_recv(&rev);
    }
    arrived = nwire;
    ngx_rtmp_recv(&rev);
#endif
    CHECK(rpos == nwire, "everything is read");
    CHECK(ngot == nwant, "every message is delivered");
    REACH("end");
}

#ifdef WANT_DEAD
/* a chunk that does not fit what came before it: the session ends or a whole
 * message of at most max_message bytes comes out, in memory of its own */
static ngx_int_t
on_any(ngx_rtmp_session_t *ss, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    ngx_chain_t *cl;
    uint32_t     n = 0;

    CHECK(!dead, "nothing is handled after the session ended");
    CHECK(h->mlen <= MAXMSG, "no message above max_message");
    for (cl = in; cl; cl = cl->next) {
        CHECK(cl->buf->start <= cl->buf->pos && cl->buf->pos <= cl->buf->last && cl->buf->last <= cl->buf->end, "payload lies in the buffer");
        n += cl->buf->last - cl->buf->pos;
    }
    CHECK(n == h->mlen, "all the payload");
    ngot++;
    return NGX_OK;
}

void
vf_refuse(void)
{
    int           i, k, fmt, n, len;
    const chunk_t *x = &ch[0];

    start();
    handlers[0] = on_any;
    /* the first chunk of a longer message */
    put(x->csid);
    put3(1000); put(0); put(0); put(x->mlen); put(9);
    put3(0); put(1);
    for (i = 0; i < CS0; i++) {
        put(ND8());
    }
    arrived = nwire;
    ngx_rtmp_recv(&rev);
    CHECK(!dead && ngot == 0, "the message is not complete");
    /* and a chunk of the same stream that says its length is another one */
    fmt = x->fmt;
    put(fmt << 6 | x->csid);
    put3(7); put(0);
    len = LEN;
    put3(len); put(9);
    if (fmt == 0) {
        put3(0); put(1);
    }
    k = CS0;
    for (i = 0; i < k; i++) {
        put(ND8());
    }
    arrived = nwire;
    ngx_rtmp_recv(&rev);
    if (len < CS0 || len > MAXMSG) {
        CHECK(dead == 1 && ngot == 0, "a length that cannot be ends the session");
    }
    if (dead) {
        n = ngot;
        ngx_rtmp_recv(&rev);
        CHECK(ngot == n && rpos == nwire - 0, "nothing more is read");
    }
    REACH("end");
}

void
vf_toobig(void)
{
    int      i, form = ch[0].form, csid = ch[0].csid;
    uint32_t mlen = LEN;

    start();
    handlers[0] = on_any;
    switch (form) {
    case 1: put(csid); break;
    case 2: put(0); put(csid - 64); break;
    case 3: put(1); put((csid - 64) & 255); put((csid - 64) >> 8); break;
    }
    put3(1000); put3(mlen); put(9);
    put3(0); put(1);
    for (i = 0; i < CS0; i++) {
        put(ND8());
    }
    arrived = nwire;
    ngx_rtmp_recv(&rev);
    if (csid >= MAXS || mlen > MAXMSG) {
        CHECK(dead == 1 && ngot == 0, "too large a message or chunk stream ends the session");
    }
    if (mlen <= MAXMSG && csid < MAXS) {
        CHECK(!dead && (ngot >= 1) == (mlen <= CS0), "any other does not");
    }
    REACH("end");
}
#endif
