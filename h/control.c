/* C05: protocol control and user control messages, both ways;
 * C06: aggregate messages */
#include "vf.h"
#define VF_MEM_LOOP
#define VF_CHAINBUF_SPOIL
#include "ngx_rtmp_shared_module.c"
#include "ngx_rtmp_amf.c"
#include "ngx_rtmp_receive.c"
#include "ngx_rtmp_send.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

#ifndef CS
#define CS 16
#endif
#ifndef KIND
#define KIND 0
#endif

static ngx_rtmp_shared_conf_t    rscf;
static ngx_rtmp_core_srv_conf_t  cscf;
static ngx_rtmp_core_main_conf_t cmcf;
static void                     *conf_ctx[1];
ngx_module_t ngx_rtmp_core_module;
static ngx_rtmp_session_t        S;
static ngx_connection_t          C;

/* what was sent */
static int                sent, send_rc;
static ngx_rtmp_header_t  sh;
static u_char             sp[32];
static int                sn;

ngx_int_t
ngx_rtmp_send_message(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f, ngx_uint_t priority)
{
    u_char *p;
    CHECK(f->ref == 1, "a message is held by its sender while it is queued");
    CHECK(priority == 0, "control messages have the highest priority");
    CHECK(f->chain && f->chain->next == NULL, "a control message is one buffer");
    sent++;
    sh = f->hdr;
    sn = 0;
    for (p = f->chain->buf->pos; p < f->chain->buf->last; p++) {
        CHECK(sn < 32, "a control message is short");
        sp[sn++] = *p;
    }
    return send_rc;
}

/* what was received */
static int       got, got_rc, pings;
static uint32_t  got_a, got_b;
static int       size_set;
static uint32_t  size_val;

ngx_int_t ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size) { size_set++; size_val = size; return got_rc; }
void ngx_rtmp_reset_ping(ngx_rtmp_session_t *s) { pings++; }
static ngx_int_t h_begin(ngx_rtmp_session_t *s, ngx_rtmp_stream_begin_t *v) { got |= 1; got_a = v->msid; return got_rc; }
static ngx_int_t h_eof(ngx_rtmp_session_t *s, ngx_rtmp_stream_eof_t *v) { got |= 2; got_a = v->msid; return got_rc; }
static ngx_int_t h_dry(ngx_rtmp_session_t *s, ngx_rtmp_stream_dry_t *v) { got |= 4; got_a = v->msid; return got_rc; }
static ngx_int_t h_buflen(ngx_rtmp_session_t *s, ngx_rtmp_set_buflen_t *v) { got |= 8; got_a = v->msid; got_b = v->buflen; return got_rc; }
static ngx_int_t h_recorded(ngx_rtmp_session_t *s, ngx_rtmp_recorded_t *v) { got |= 16; got_a = v->msid; return got_rc; }
ngx_rtmp_stream_begin_pt ngx_rtmp_stream_begin = h_begin;
ngx_rtmp_stream_eof_pt   ngx_rtmp_stream_eof = h_eof;
ngx_rtmp_stream_dry_pt   ngx_rtmp_stream_dry = h_dry;
ngx_rtmp_set_buflen_pt   ngx_rtmp_set_buflen = h_buflen;
ngx_rtmp_recorded_pt     ngx_rtmp_recorded = h_recorded;
char *ngx_rtmp_message_type(uint8_t t) { return ""; }
char *ngx_rtmp_user_message_type(uint16_t t) { return ""; }
void *ngx_hash_find(ngx_hash_t *h, ngx_uint_t k, u_char *n, size_t l) { return NULL; }

static void
setup(void)
{
    vf_init();
    vf_session(&S, NULL, &C);
    conf_ctx[0] = &rscf;
    vf_cycle.conf_ctx = (void ****) conf_ctx;
    ngx_rtmp_shared_module.index = 0;
    rscf.pool = &vf_pool;
    vf_main_conf[0] = &cmcf;
    vf_srv_conf[0] = &cscf;
    cscf.chunk_size = CS;
}

static uint32_t
be(u_char *p)
{
    return (uint32_t) p[0] << 24 | (uint32_t) p[1] << 16 | (uint32_t) p[2] << 8 | p[3];
}

/* every value sent, after a frame that was used for something else */
void
vf_send(void)
{
    ngx_rtmp_frame_t *f;
    uint32_t          a, b;
    uint8_t           lim, k;
    int               n, type, evt, held;
    ngx_int_t         rc;

    setup();
    if (ND_BOOL()) {
        f = ngx_rtmp_shared_alloc_frame(CS, NULL, 1);
        f->hdr.csid = ND32();
        f->hdr.timestamp = ND32();
        f->hdr.msid = ND32();
        f->hdr.mlen = ND32();
        f->hdr.type = ND8();
        ngx_rtmp_shared_free_frame(f);
    }
    held = vf_chainbufs;
    a = ND32();
    b = ND32();
    lim = ND8();
    send_rc = ND_BOOL() ? NGX_OK : NGX_ERROR;
    k = ND_RANGE(0, 11);
    evt = -1;
    n = 4;
    rc = 0;
    switch (k) {
    case 0: type = 1; rc = ngx_rtmp_send_chunk_size(&S, a); break;
    case 1: type = 2; rc = ngx_rtmp_send_abort(&S, a); break;
    case 2: type = 3; rc = ngx_rtmp_send_ack(&S, a); break;
    case 3: type = 5; rc = ngx_rtmp_send_ack_size(&S, a); break;
    case 4: type = 6; n = 5; rc = ngx_rtmp_send_bandwidth(&S, a, lim); break;
    case 5: type = 4; n = 6; evt = 0; rc = ngx_rtmp_send_stream_begin(&S, a); break;
    case 6: type = 4; n = 6; evt = 1; rc = ngx_rtmp_send_stream_eof(&S, a); break;
    case 7: type = 4; n = 6; evt = 2; rc = ngx_rtmp_send_stream_dry(&S, a); break;
    case 8: type = 4; n = 10; evt = 3; rc = ngx_rtmp_send_set_buflen(&S, a, b); break;
    case 9: type = 4; n = 6; evt = 4; rc = ngx_rtmp_send_recorded(&S, a); break;
    case 10: type = 4; n = 6; evt = 6; rc = ngx_rtmp_send_ping_request(&S, a); break;
    default: type = 4; n = 6; evt = 7; rc = ngx_rtmp_send_ping_response(&S, a); break;
    }
    CHECK(sent == 1 && rc == send_rc, "one message is sent and its outcome reported");
    CHECK(vf_chainbufs == held, "the message is released by its sender");
    CHECK(sh.csid == 2, "control messages use chunk stream 2");
    CHECK(sh.msid == 0, "control messages use message stream 0");
    CHECK(sh.timestamp == 0, "control messages carry no timestamp");
    CHECK(sh.type == type, "type of a control message");
    CHECK(sn == n, "length of a control message");
    if (evt >= 0) {
        CHECK(sp[0] == 0 && sp[1] == evt, "event of a user control message");
        CHECK(be(sp + 2) == a, "value of a user control message, high byte first");
        if (n == 10) {
            CHECK(be(sp + 6) == b, "second value of a user control message");
        }
    } else {
        CHECK(be(sp) == a, "value of a control message, high byte first");
        if (n == 5) {
            CHECK(sp[4] == lim, "limit of a bandwidth message");
        }
    }
    REACH("end");
}

/* every control message received, of every length */
#ifndef LEN
#define LEN 6
#endif
static u_char       pay[LEN + 1];

void
vf_receive(void)
{
    ngx_chain_t        in;
    ngx_buf_t          b;
    ngx_rtmp_header_t  h;
    uint32_t           v, ack0, buf0;
    int                evt;
    ngx_int_t          rc;

    setup();
    memset(&in, 0, sizeof(in));
    memset(&b, 0, sizeof(b));
    memset(&h, 0, sizeof(h));
    in.buf = &b;
    ND_BYTES(pay, LEN);
    b.start = b.pos = pay;
    b.last = b.end = pay + LEN;
    h.type = ND8();
    h.csid = ND32();
    h.timestamp = ND32();
    h.msid = ND32();
    h.mlen = LEN;
    S.ack_size = ack0 = ND32();
    S.buflen = buf0 = ND32();
    got_rc = ND_BOOL() ? NGX_OK : NGX_ERROR;
    send_rc = ND_BOOL() ? NGX_OK : NGX_ERROR;

#if KIND
    rc = ngx_rtmp_user_message_handler(&S, &h, &in);
    CHECK(S.ack_size == ack0 && !size_set, "a user control message changes no window or chunk size");
    if (LEN < 6) {
        CHECK(rc == NGX_OK && !got && !sent && !pings && S.buflen == buf0, "a short user control message is ignored");
    } else {
        evt = pay[0] << 8 | pay[1];
        v = be(pay + 2);
        if (evt == 0 || evt == 1 || evt == 2 || evt == 4 || (evt == 3 && LEN >= 10)) {
            CHECK(got == 1 << evt && rc == got_rc, "the event goes to its handler");
            CHECK(got_a == v, "message stream of the event");
            CHECK(!sent && !pings, "no answer to this event");
        } else {
            CHECK(!got, "no other event goes to a handler");
            CHECK(sent == (evt == 6), "a ping is answered");
            CHECK(pings == (evt == 7), "the answer to a ping is noticed");
            CHECK(rc == (evt == 6 ? send_rc : NGX_OK), "outcome of other events");
        }
        if (evt == 3 && LEN >= 10) {
            CHECK(got_b == be(pay + 6) && S.buflen == be(pay + 6), "buffer length of the event");
        } else {
            CHECK(S.buflen == buf0, "no other event sets the buffer length");
        }
        if (evt == 6) {
            CHECK(sh.type == 4 && sh.csid == 2 && sn == 6 && sp[0] == 0 && sp[1] == 7 && be(sp + 2) == v, "a ping is answered with its own time");
        }
    }
#else
    rc = ngx_rtmp_protocol_message_handler(&S, &h, &in);
    CHECK(!got && !sent && !pings && S.buflen == buf0, "a protocol control message raises no event");
    v = LEN < 4 ? 0 : be(pay);
    if (LEN < 4) {
        CHECK(rc == NGX_OK && !size_set && S.ack_size == ack0, "a short control message is ignored");
    } else if (h.type == 1) {
        CHECK(S.ack_size == ack0, "set chunk size leaves the window");
        if (v == 0 || v > 0x7fffffff) {
            CHECK(rc == NGX_ERROR && !size_set, "an invalid chunk size is refused");
        } else {
            CHECK(size_set == 1 && size_val == v && rc == got_rc, "the chunk size of the peer is set");
        }
    } else {
        CHECK(!size_set, "only set chunk size sets the chunk size");
        CHECK(S.ack_size == (h.type == 5 ? v : ack0), "the window is what the peer says");
        CHECK(rc == ((h.type >= 2 && h.type <= 6 && h.type != 4) ? NGX_OK : NGX_ERROR), "only control messages are accepted");
    }
#endif
    CHECK(b.pos <= b.last, "position in the message");
    REACH("end");
}

/* ---- aggregate ---- */
#ifndef AN
#define AN 30
#endif
#ifndef NB
#define NB 2
#endif
#ifndef CUT
#define CUT 15
#endif
static u_char       flat[AN + 1], mem1[AN + 1];
static int          at, subs, failed;
static uint32_t     base, hts;
static ngx_chain_t  ac[NB];
static ngx_buf_t    ab[NB];
static u_char      *al[NB];
static ngx_chain_t *an[NB];

ngx_int_t
ngx_rtmp_receive_message(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    ngx_chain_t *l;
    uint32_t     ts;
    u_char      *p;
    int          n, q;

    MUST(at + 11 <= AN, "a message has a whole header");
    n = flat[at + 1] << 16 | flat[at + 2] << 8 | flat[at + 3];
    MUST(n < AN - at - 11, "a message is followed by its size");
    for (q = 0; q < AN; q++) {
        if (n == q) {
            break;
        }
    }
    n = q;
    CHECK(h->type == flat[at] && h->type != 22, "type of a message in the aggregate");
    CHECK(h->mlen == n, "length of a message in the aggregate");
    ts = (uint32_t) flat[at + 7] << 24 | (uint32_t) flat[at + 4] << 16 | (uint32_t) flat[at + 5] << 8 | flat[at + 6];
    if (subs == 0) {
        base = ts;
    }
    CHECK(h->timestamp == hts + (ts - base), "timestamp of a message in the aggregate counts from the first one");
    CHECK(h->msid == ((uint32_t) flat[at + 8] << 16 | (uint32_t) flat[at + 9] << 8 | flat[at + 10]), "message stream of a message in the aggregate");
    at += 11;
    q = 0;
    for (l = in; l; l = l->next) {
        for (p = l->buf->pos; p < l->buf->last; p++) {
            MUST(q < n, "a message in the aggregate is as long as it says");
            CHECK(*p == flat[at + q], "payload of a message in the aggregate");
            q++;
        }
#ifdef EAT
        l->buf->pos = l->buf->last;
#endif
    }
    MUST(q == n, "a message in the aggregate is complete");
    at += n + 4;
    subs++;
    if (ND_BOOL()) {
        failed = 1;
        return NGX_ERROR;
    }
    return NGX_OK;
}

void
vf_aggregate(void)
{
    static const int  cut[NB + 1] = { 0, CUT, AN };
    ngx_rtmp_header_t h;
    ngx_int_t         rc;
    int               i, left, bad;

    setup();
    for (i = 0; i < AN; i++) {
        flat[i] = ND8();
    }
#ifdef LENS
    /* lengths of the messages given, the rest free */
    {
        static const int lens[] = { LENS };
        for (i = 0, left = 0; i < (int) (sizeof(lens) / sizeof(int)); i++) {
            if (left + 3 < AN) {
                flat[left + 1] = 0; flat[left + 2] = lens[i] >> 8; flat[left + 3] = lens[i];
                if (i < (int) (sizeof(lens) / sizeof(int)) - 1) ASSUME(flat[left] != 22);
            }
            left += 15 + lens[i];
        }
    }
#endif
    memcpy(mem1, flat, AN);
    for (i = 0; i < NB; i++) {
        memset(&ab[i], 0, sizeof(ngx_buf_t));
        ab[i].start = ab[i].pos = mem1 + cut[i];
        ab[i].last = ab[i].end = mem1 + cut[i + 1];
        al[i] = ab[i].last;
        ac[i].buf = &ab[i];
        an[i] = ac[i].next = i + 1 < NB ? &ac[i + 1] : NULL;
    }
    memset(&h, 0, sizeof(h));
    h.type = 22;
    h.csid = 4;
    h.msid = ND32();
    h.timestamp = hts = ND32();
    h.mlen = AN;
    rc = ngx_rtmp_aggregate_message_handler(&S, &h, ac);
    for (i = 0; i < NB; i++) {
        CHECK(ab[i].last == al[i] && ac[i].next == an[i] && ac[i].buf == &ab[i], "the buffers of the aggregate are left as they were");
        CHECK(ab[i].pos >= ab[i].start && ab[i].pos <= ab[i].last, "position in the aggregate");
    }
    if (failed) {
        CHECK(rc == NGX_ERROR, "an error of a message ends the aggregate");
    } else {
        left = AN - at;
        bad = left > 0;
        CHECK(rc == (bad ? NGX_ERROR : NGX_OK), "an aggregate is accepted when it is whole");
        if (bad && left >= 11 && flat[at] != 22) {
            CHECK((flat[at + 1] << 16 | flat[at + 2] << 8 | flat[at + 3]) >= left - 11, "every whole message of the aggregate is handed over");
        }
    }
    REACH("end");
}
