/* RTMP chunk output: what the real code puts on the wire for a message, read
 * back the way the RTMP specification says */
#include "vf.h"
#define VF_MEM_LOOP
#define VF_MEM_KILL
#define VF_CHAINBUF_SPOIL
#include "ngx_rtmp.h"
#include "ngx_event.h"
#undef ngx_add_timer
#undef ngx_del_timer
#define ngx_add_timer(ev, t)  ((ev)->timer_set = 1)
#define ngx_del_timer(ev)     ((ev)->timer_set = 0)
#include "ngx_rtmp_handler.c"
#include "ngx_rtmp_shared_module.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

#ifndef CS
#define CS 4
#endif
#ifndef FIX
#define FIX 0                       /* play_time_fix */
#endif
#ifndef CSID
#define CSID 4
#endif
#ifndef EXT
#define EXT 0                       /* 0: timestamps below 0xffffff, 1: the others */
#endif
#ifndef LENS
#define LENS 3, 4                   /* two input buffers */
#endif
#ifndef MAXS
#define MAXS 70000
#endif

static ngx_rtmp_core_main_conf_t  cmcf;
static ngx_rtmp_core_srv_conf_t   cscf;
ngx_rtmp_core_main_conf_t        *ngx_rtmp_core_main_conf = &cmcf;
VFS ngx_module_t                  ngx_rtmp_core_module;
static ngx_rtmp_shared_conf_t     rscf;
static void                      *conf_ctx[1];
static ngx_connection_t           c;
static ngx_event_t                rev, wev;
static struct { ngx_rtmp_session_t s; ngx_rtmp_frame_t *out[8]; } mem;

#ifndef QFROM
#define QFROM 0
#define QTO 99
#endif
#ifndef MERGE
#define MERGE 2
#endif
#define MAXL 12
static const int    lens[] = { LENS };
#define NL ((int) (sizeof(lens) / sizeof(lens[0])))
static ngx_chain_t  cin[NL];
static ngx_buf_t    bin[NL];
static u_char       data[NL][MAXL], want[NL * MAXL];
static int          dead, monitored;

void ngx_rtmp_finalize_session(ngx_rtmp_session_t *s) { MUST(CSID >= MAXS, "only a chunk stream out of range ends the session"); dead++; }
void ngx_rtmp_update_bandwidth(ngx_rtmp_bandwidth_t *b, uint32_t n) { }
void ngx_rtmp_monitor_frame(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in, ngx_flag_t av, ngx_flag_t i) { monitored++; }
ngx_int_t ngx_rtmp_send_ack(ngx_rtmp_session_t *ss, uint32_t n) { return NGX_OK; }
VFS void ngx_event_process_posted(ngx_cycle_t *cy, ngx_queue_t *q) { }

/* the wire */
static ngx_chain_t *rcl;
static u_char      *rp;
static int
get(void)
{
    while (rcl && rp == rcl->buf->last) {
        rcl = rcl->next;
        rp = rcl ? rcl->buf->pos : NULL;
    }
    MUST(rcl != NULL, "a chunk is not cut short");
    return *rp++;
}
static uint32_t get3(void) { uint32_t v = (uint32_t) get() << 16; v |= get() << 8; return v | get(); }
static uint32_t get4(void) { uint32_t v = (uint32_t) get() << 24; return v | get3(); }
static int
more(void)
{
    while (rcl && rp == rcl->buf->last) {
        rcl = rcl->next;
        rp = rcl ? rcl->buf->pos : NULL;
    }
    return rcl != NULL;
}

static int
basic(int *fmt)
{
    int b = get(), x;
    *fmt = b >> 6;
    b &= 63;
    if (b == 0) {
        return 64 + get();
    }
    if (b == 1) {
        x = get();
        return 64 + x + get() * 256;
    }
    return b;
}

static void
put_on_wire(ngx_rtmp_session_t *s, ngx_chain_t *l)
{
    rcl = l;
    rp = l ? l->buf->pos : NULL;
}

void
vf_out(void)
{
    int                 i, k, n, fmt, frag, x;
    uint32_t            ts, t, msid;
    uint8_t             type;
    ngx_rtmp_frame_t   *f;
    ngx_rtmp_session_t *s = &mem.s;
    ngx_chain_t        *l;

    vf_init();
    vf_session(s, NULL, &c);
    conf_ctx[0] = &rscf;
    vf_cycle.conf_ctx = (void ****) conf_ctx;
    ngx_rtmp_shared_module.index = 0;
    rscf.pool = &vf_pool;
    vf_main_conf[0] = &cmcf;
    vf_srv_conf[0] = &cscf;
    cscf.max_streams = MAXS;
    cscf.chunk_size = CS;
    cscf.play_time_fix = FIX;
    s->out_queue = 8;

    n = 0;
    for (i = 0; i < NL; i++) {
        for (k = 0; k < lens[i]; k++) {
            want[n++] = data[i][k] = ND8();
        }
        bin[i].start = bin[i].pos = data[i];
        bin[i].last = bin[i].end = data[i] + lens[i];
        bin[i].memory = 1;
        cin[i].buf = &bin[i];
        cin[i].next = i + 1 < NL ? &cin[i + 1] : NULL;
    }
    f = ngx_rtmp_shared_alloc_frame(CS, cin, 0);
    f->hdr.csid = CSID;
    f->hdr.type = type = ND8();
    f->hdr.msid = msid = ND32();
#if EXT
    ts = 0xffffff + ND_RANGE(0, 0xffffffff - 0xffffff);
#else
    ts = ND_RANGE(0, 0xfffffe);
#endif
    f->hdr.timestamp = ts;
    s->out[0] = f;
    s->out_last = 1;

    l = ngx_rtmp_prepare_out_chain(s);
    if (CSID >= MAXS) {
        CHECK(dead == 1 && l == NULL, "a chunk stream out of range is not sent");
        goto end;
    }
    put_on_wire(s, l);
    x = basic(&fmt);
    MUST(x == CSID, "chunk stream of the message");
    MUST(fmt == 0, "a message starts with a full header");
    t = get3();
    CHECK(t == (EXT ? 0xffffff : ts), "timestamp of the message");
    MUST(get3() == n, "length of the message");
    CHECK(get() == type, "type of the message");
    t = get(); t |= get() << 8; t |= get() << 16; t |= (uint32_t) get() << 24;
    CHECK(t == msid, "message stream of the message, low byte first");
    if (EXT) {
        CHECK(get4() == ts, "extended timestamp");
    }
    for (i = 0; i < n; ) {
        frag = n - i < CS ? n - i : CS;
        for (k = 0; k < frag; k++) {
            CHECK(get() == want[i], "payload of the message");
            i++;
        }
        if (i < n) {
            x = basic(&fmt);
            MUST(x == CSID && fmt == 3, "every further chunk continues the same message");
            if (EXT && FIX) {
                CHECK(get4() == ts, "extended timestamp repeated");
            }
        }
    }
    CHECK(!more(), "nothing follows the message");
    CHECK(f->ref == 1 && !dead, "the message is still shared");
end:
    REACH("end");
}

/* two messages through the queue, the socket takes any number of bytes first */
static int    quota;
static u_char sent[64], whole[64];
static int    nsent, nwhole;

static ngx_chain_t *
send_chain(ngx_connection_t *cc, ngx_chain_t *in, off_t limit)
{
    while (in) {
        while (in->buf->pos < in->buf->last && quota > 0) {
            MUST(nsent < 64, "no more than the messages is sent");
            sent[nsent++] = *in->buf->pos++;
            quota--;
            cc->sent++;
        }
        if (in->buf->pos < in->buf->last) {
            return in;
        }
        in = in->next;
    }
    return NULL;
}
static ngx_int_t add_del(ngx_event_t *ev, ngx_int_t event, ngx_uint_t flags) { return NGX_OK; }

void
vf_partial(void)
{
    int                 i, k, m, q;
    ngx_rtmp_frame_t   *f[2];
    ngx_rtmp_session_t *s = &mem.s;
    static ngx_rtmp_core_app_conf_t cacf;
    static ngx_chain_t  ci[2];
    static ngx_buf_t    bi[2];
    static u_char       d[2][8];
    ngx_chain_t        *l;

    vf_init();
    vf_session(s, NULL, &c);
    conf_ctx[0] = &rscf;
    vf_cycle.conf_ctx = (void ****) conf_ctx;
    ngx_rtmp_shared_module.index = 0;
    rscf.pool = &vf_pool;
    vf_main_conf[0] = &cmcf;
    vf_srv_conf[0] = &cscf;
    vf_app_conf[0] = &cacf;
    cacf.merge_frame = MERGE;
    cscf.max_streams = 32;
    cscf.chunk_size = CS;
    s->out_queue = 8;
    ngx_queue_init(&s->posted_dry_events);
    c.data = s;
    c.read = &rev;
    c.write = &wev;
    c.send_chain = send_chain;
    wev.data = &c;
    wev.write = 1;
    wev.log = rev.log = c.log = &vf_log;
    ngx_event_actions.add = add_del;
    ngx_event_actions.del = add_del;
    for (m = 0; m < 2; m++) {
        for (k = 0; k < lens[m]; k++) {
            d[m][k] = ND8();
        }
        bi[m].start = bi[m].pos = d[m];
        bi[m].last = bi[m].end = d[m] + lens[m];
        bi[m].memory = 1;
        ci[m].buf = &bi[m];
        f[m] = ngx_rtmp_shared_alloc_frame(CS, &ci[m], 0);
        f[m]->hdr.csid = 4 + m;
        f[m]->hdr.type = ND8();
        f[m]->hdr.msid = ND32();
        f[m]->hdr.timestamp = 77 + m;
        /* what must go out: the message alone, as vf_out has it */
        s->out[0] = f[m];
        l = ngx_rtmp_prepare_out_chain(s);
        for ( ; l; l = l->next) {
            for (k = 0; k < l->buf->last - l->buf->pos; k++) {
                whole[nwhole++] = l->buf->pos[k];
            }
        }
    }
    s->out[0] = NULL;
    for (m = 0; m < 2; m++) {
        i = ngx_rtmp_send_message(s, f[m], 0);
        MUST(i == NGX_OK, "there is room in the queue");
    }
    k = ND_RANGE(QFROM, QTO);
    for (q = QFROM; q < QTO && q < nwhole; q++) {
        if (k == q) {
            break;
        }
    }
    for (i = 0; i < 4; i++) {
        /* write a piece of q bytes and one of 3, then all */
        quota = i == 0 ? q : i == 1 ? 3 : 1000;
        wev.ready = 1;
        ngx_rtmp_send(&wev);
    }
    CHECK(nsent == nwhole, "all of the messages is sent");
    for (i = 0; i < nwhole && i < 64; i++) {
        CHECK(sent[i] == whole[i], "the bytes of the messages, in order, none lost or repeated");
    }
    CHECK(f[0]->ref == 1 && f[1]->ref == 1, "and they are released");
    CHECK(s->out_chain == NULL && s->out_pos == s->out_last, "nothing is left");
    REACH("end");
}
