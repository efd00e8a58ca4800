#include "vf.h"
#define VF_MEM_LOOP
#include "ngx_rtmp.h"
#define VF_OWN_CHAINBUF
#include "ngx_rtmp_handler.c"
#include "ngx_rtmp_shared_module.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

/* 0-3: a message of that priority, 9: the socket becomes writable, for any
 * number of buffers, 10 + n: for n buffers */
#ifndef SEQ
#define SEQ 0, 0, 9
#endif
#ifndef QUEUE
#define QUEUE 4
#endif
#ifndef MERGE
#define MERGE 2
#endif
static const int seq[] = { SEQ };
#define OPS (int) (sizeof(seq) / sizeof(seq[0]))

VFS ngx_module_t  ngx_rtmp_core_module;
static ngx_rtmp_core_main_conf_t  cmcf;
ngx_rtmp_core_main_conf_t        *ngx_rtmp_core_main_conf = &cmcf;
VFS ngx_rtmp_bandwidth_t          ngx_rtmp_bw_in, ngx_rtmp_bw_out;

static struct { ngx_rtmp_session_t s; ngx_rtmp_frame_t *out[QUEUE]; } mem;
static ngx_rtmp_core_app_conf_t  cacf;
static ngx_rtmp_shared_conf_t    rscf;
static void                     *conf_ctx[1];
static ngx_connection_t          c;
static ngx_event_t               wev, rev;

static ngx_rtmp_frame_t  fr[OPS];
static ngx_chain_t       pcl[OPS];
static ngx_buf_t         pb[OPS];
static u_char            wire[OPS];          /* which frames went out */
static int               nwire, put[OPS];

ngx_chain_t *ngx_get_chainbuf_debug(size_t size, ngx_flag_t mem, char *f, int line) { return NULL; }
void ngx_put_chainbuf_debug(ngx_chain_t *cl, char *f, int line) { if (cl) { put[cl - pcl]++; } }
void ngx_rtmp_finalize_session(ngx_rtmp_session_t *s) { CHECK(0, "the session goes on"); ASSUME(0); }
void ngx_rtmp_update_bandwidth(ngx_rtmp_bandwidth_t *b, uint32_t n) { }
void ngx_rtmp_monitor_frame(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in, ngx_flag_t av, ngx_flag_t i) { }
VFS void ngx_event_process_posted(ngx_cycle_t *cy, ngx_queue_t *q) { }
static ngx_int_t add_del(ngx_event_t *ev, ngx_int_t event, ngx_uint_t flags) { return NGX_OK; }
#define NMSG(x) ((x)->hdr.csid)

/* the message as one buffer; what is in it is not the queue's business */
static ngx_chain_t *
prepare(ngx_rtmp_session_t *s)
{
    ngx_rtmp_frame_t *f = s->out[s->out_pos];
    int               i;

    for (i = 0; i < OPS; i++) {
        if (f == &fr[i]) {
            pcl[i].buf = &pb[i];
            pcl[i].next = NULL;
            pb[i].tag = (ngx_buf_tag_t) (intptr_t) i;
            put[i] = 0;
            return &pcl[i];
        }
    }
    CHECK(0, "only queued messages are prepared");
    return NULL;
}

static int  quota;

static ngx_chain_t *
send_chain(ngx_connection_t *cc, ngx_chain_t *in, off_t limit)
{
    int i;

    for (i = 0; i < OPS && in && quota > 0; i++) {
        quota--;
        CHECK(nwire < OPS, "nothing is sent twice");
        wire[nwire++] = (u_char) (intptr_t) in->buf->tag;
        cc->sent += 10;
        in = in->next;
    }
    return in;
}

/* every history of messages of any priority and partial writes */
void
vf_outq(void)
{
    int                 i, k, n, used, sent, order[OPS], pr;
    ngx_int_t           rc;
    ngx_rtmp_session_t *s = &mem.s;

    vf_init();
    conf_ctx[0] = &rscf;
    ngx_rtmp_shared_module.index = 0;
    vf_cycle.conf_ctx = (void ****) conf_ctx;
    vf_session(s, NULL, &c);
    vf_app_conf[0] = &cacf;
    cacf.merge_frame = MERGE;
    s->out_queue = QUEUE;
    s->prepare_handler = prepare;
    ngx_queue_init(&s->posted_dry_events);
    c.data = s;
    c.read = &rev;
    c.write = &wev;
    c.log = &vf_log;
    c.send_chain = send_chain;
    wev.data = &c;
    wev.log = rev.log = &vf_log;
    wev.write = 1;
    ngx_event_actions.add = add_del;
    ngx_event_actions.del = add_del;
    n = 0;
    s->out_pos = s->out_last = START;
    for (i = 0; i < OPS; i++) {
        if (seq[i] < 9) {
            fr[i].ref = 1;
            used = (int) ((s->out_last + QUEUE - s->out_pos) % QUEUE);
            pr = seq[i];
            rc = ngx_rtmp_send_message(s, &fr[i], pr);
            if (used + 1 + (pr > 3 ? 3 : pr) * QUEUE / 4 >= QUEUE) {
                CHECK(rc == NGX_AGAIN && fr[i].ref == 1, "a message there is no room for is refused and not kept");
            } else {
                CHECK(rc == NGX_OK && fr[i].ref == 2, "a message there is room for is kept");
                order[n++] = i;
            }
        } else {
            wev.ready = 1;
            quota = seq[i] == 9 ? ND_RANGE(0, OPS) : seq[i] - 10;
            ngx_rtmp_send(&wev);
        }
    }
    /* let it all out */
    quota = 100;
    ngx_rtmp_send(&wev);
    CHECK(nwire == n, "every message that was taken is sent once");
    for (k = 0; k < n; k++) {
        CHECK(wire[k] == order[k], "messages are sent in the order they were taken");
    }
    for (k = 0; k < OPS; k++) {
        if (seq[k] < 9) {
            CHECK(fr[k].ref == 1, "a message is released when it was sent");
        }
    }
    CHECK(s->out_pos == s->out_last && s->out_chain == NULL && s->nframe == 0, "the queue is empty at the end");
    REACH("end");
}

/* every queue, every priority: one more message */
void
vf_put(void)
{
    static struct { ngx_rtmp_session_t s; ngx_rtmp_frame_t *out[64]; } m;
    static ngx_rtmp_frame_t  f, mark;
    ngx_uint_t               q, pos, used, pr, p4, i, k, at;
    ngx_rtmp_session_t      *s = &m.s;
    ngx_int_t                rc;

    vf_init();
    vf_session(s, NULL, &c);
    c.write = &wev;
    wev.log = &vf_log;
    q = ND_RANGE(2, 64);
    pos = ND_RANGE(0, q - 1);
    used = ND_RANGE(0, q - 1);
    s->out_queue = q;
    s->out_pos = pos;
    s->out_last = at = (pos + used) % q;
    s->out_buffer = ND_BOOL();
    s->out_cork = ND_RANGE(0, 64);
    for (i = 0; i < 64; i++) {
        m.out[i] = &mark;
    }
    f.ref = ND_RANGE(1, 1000);
    k = f.ref;
    pr = ND64();
    wev.active = ND_BOOL();
    rc = ngx_rtmp_send_message(s, &f, pr);
    p4 = (pr > 3 ? 3 : pr) * q / 4;
    CHECK(s->out_pos == pos, "what waits is still there");
    if (used + 1 + p4 >= q) {
        CHECK(rc == NGX_AGAIN && f.ref == k && s->out_last == at, "a message there is no room for is refused and not kept");
        REACH("refused");
    } else {
        CHECK(rc == NGX_OK && f.ref == k + 1, "a message there is room for is kept");
        CHECK(s->out_last == (at + 1) % q && s->out_last != pos && m.out[at] == &f, "it is the last in the queue");
        REACH("kept");
    }
    k = ND_RANGE(0, 63);
    CHECK(k == at || m.out[k] == &mark, "no other message is touched");
}
