/* C31: what a player over HTTP gets */
#include "vf.h"
#define VF_MEM_LOOP
#define VF_CHAINBUF_SPOIL
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_http.h>
#include "ngx_rtmp.h"
#include "http/ngx_http_flv_live_module.c"
#include "ngx_rtmp_shared_module.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

/* 8, 9, 18, 15: a frame of that type; 4: a message that is none; 20 + n: the
 * socket takes n buffers, 2: all; 3: it fails; 5: it was too slow */
#ifndef SEQ
#define SEQ 18, 9, 23, 8, 21
#endif
#ifndef MERGE
#define MERGE 2
#endif
#ifndef AV
#define AV 3        /* what the header is to say, 0: what the stream has */
#endif
#ifndef HAS
#define HAS 3
#endif
#ifndef URILEN
#define URILEN 4
#endif
#define QUEUE 8
#define NF 8

ngx_module_t  ngx_rtmp_core_module;
static ngx_rtmp_core_main_conf_t  cmcf;
ngx_rtmp_core_main_conf_t        *ngx_rtmp_core_main_conf = &cmcf;
ngx_rtmp_bandwidth_t              ngx_rtmp_bw_in, ngx_rtmp_bw_out;

static struct { ngx_rtmp_session_t s; ngx_rtmp_frame_t *out[QUEUE]; } mem;
#define S mem.s
static ngx_rtmp_core_app_conf_t   cacf;
static ngx_live_stream_t          live;
static ngx_http_flv_live_loc_conf_t  lcf;
static ngx_http_flv_live_ctx_t    hctx;
static ngx_http_request_t         R;
static ngx_connection_t           conn;
static ngx_event_t                rev, wev;
static void                      *rctx[2], *rconf[2];

static ngx_rtmp_frame_t  F[NF];
static ngx_rtmp_shared_conf_t  rscf;
static void             *conf_ctx[1];
static u_char            data[NF][3];
static int               dead[NF], nf;

static u_char            want[13 + NF * 18], wire[13 + NF * 18];
static int               nwant, nwire;
static ngx_buf_t        *pend[32];
static int               npend, ppend, fail, finals, fin_rc, headers, room;

static int
pick(int n)
{
    int v, i;
    v = ND8();
    ASSUME(v < n);
    for (i = 0; i < n - 1; i++) {
        if (v == i) {
            break;
        }
    }
    return i;
}

ngx_int_t
ngx_http_send_header(ngx_http_request_t *r)
{
    CHECK(!r->header_sent && headers == 0, "the answer has one head");
    headers++;
    r->header_sent = 1;
    return NGX_OK;
}

ngx_int_t
ngx_http_output_filter(ngx_http_request_t *r, ngx_chain_t *in)
{
    ngx_chain_t *cl;
    ngx_buf_t   *b;
    u_char      *p;
    int          n;

    CHECK(r->header_sent, "the head comes before the body");
    for (cl = in; cl; cl = cl->next) {
        MUST(npend < 32, "harness: room");
        pend[npend++] = cl->buf;
    }
    if (fail) {
        return NGX_ERROR;
    }
    n = npend - ppend;
    if (room >= 20 && n > room - 20) {
        n = room - 20;
        room = 20;
    }
    for (; n; n--) {
        b = pend[ppend++];
        for (p = b->pos; p < b->last; p++) {
            MUST(nwire < nwant, "nothing is sent that is not to be");
            wire[nwire] = *p;
            nwire++;
            conn.sent++;
        }
    }
    conn.buffered = ppend < npend ? 2 : 0;
    return conn.buffered ? NGX_AGAIN : NGX_OK;
}

void ngx_http_finalize_request(ngx_http_request_t *r, ngx_int_t rc) { finals++; fin_rc = rc; conn.destroyed = 1; }
void ngx_rtmp_finalize_session(ngx_rtmp_session_t *s) { MUST(0, "the session goes on"); }
void ngx_rtmp_finalize_fake_session(ngx_rtmp_session_t *s) { }
void ngx_rtmp_update_bandwidth(ngx_rtmp_bandwidth_t *b, uint32_t n) { }
void ngx_rtmp_monitor_frame(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in, ngx_flag_t av, ngx_flag_t i) { }
static ngx_int_t add_del(ngx_event_t *ev, ngx_int_t event, ngx_uint_t flags) { return NGX_OK; }
void ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s) { }
ngx_int_t ngx_http_arg(ngx_http_request_t *r, u_char *name, size_t len, ngx_str_t *value) { return NGX_DECLINED; }

static void put(uint32_t b) { want[nwant++] = (u_char) b; }

static void
setup(void)
{
    vf_init();
    vf_session(&S, NULL, &conn);
    ngx_http_flv_live_module.ctx_index = 0;
    vf_app_conf[0] = &cacf;
    cacf.merge_frame = MERGE;
    S.out_queue = QUEUE;
    S.live_type = NGX_HTTP_FLV_LIVE;
    S.live_stream = &live;
    S.prepare_handler = ngx_http_flv_live_prepare_out_chain;
    S.request = &R;
    S.timeout = 1000;
    live.bw_in_audio.bytes = HAS & 1;
    live.bw_in_video.bytes = HAS >> 1;
    conn.read = &rev;
    conn.write = &wev;
    conn.log = &vf_log;
    rev.log = wev.log = &vf_log;
    vf_cycle.conf_ctx = (void ****) conf_ctx;
    conf_ctx[0] = &rscf;
    ngx_rtmp_shared_module.index = 0;
    rev.data = wev.data = &conn;
    R.connection = &conn;
    R.pool = &vf_pool;
    R.ctx = rctx;
    R.loc_conf = rconf;
    rctx[0] = &hctx;
    rconf[0] = &lcf;
    hctx.session = &S;
    lcf.audio = AV & 1;
    lcf.video = AV >> 1;
    ngx_event_actions.add = add_del;
    ngx_event_actions.del = add_del;
    ngx_event_flags = NGX_USE_CLEAR_EVENT;
}

void
vf_play(void)
{
    static const int  seq[] = { SEQ };
    static const char flv[] = "FLV\1";
    int               i, j, k, n, lens, tail, av, ok = 1;
    uint32_t          ts;
    u_char           *p;

    setup();
    for (i = 0; i < 4; i++) {
        put(flv[i]);
    }
    av = AV ? AV : HAS;
    put((av & 1 ? 4 : 0) | (av & 2 ? 1 : 0));
    put(0); put(0); put(0); put(9);
    put(0); put(0); put(0); put(0);

    for (i = 0; i < (int) (sizeof(seq) / sizeof(seq[0])); i++) {
        k = seq[i];
        if (k >= 20 || k == 2 || k == 3 || k == 5) {
            room = k;
            fail = k == 3;
            wev.timedout = k == 5;
            n = nwire;
            ngx_http_flv_live_write_handler(&R);
            if (finals) {
                break;
            }
            CHECK(wev.timer_set == (ppend < npend), "a player that is behind is waited for a time");
            CHECK(k != 2 || S.out_pos == S.out_last, "everything is sent when there is room");
            continue;
        }
        ts = ND32();
        lens = nf % 3 + 1;
        tail = nf & 1;
        for (j = 0; j < lens; j++) {
            data[nf][j] = ND8();
        }
        F[nf].ref = 1;
        F[nf].hdr.type = k;
        F[nf].hdr.timestamp = ts;
        F[nf].hdr.mlen = lens;
        F[nf].chain = ngx_get_chainbuf(4, 1);
        p = F[nf].chain->buf->pos;
        for (j = 0; j < lens - tail; j++) {
            *p++ = data[nf][j];
        }
        F[nf].chain->buf->last = p;
        if (tail) {
            F[nf].chain->next = ngx_get_chainbuf(4, 1);
            p = F[nf].chain->next->buf->pos;
            *p++ = data[nf][lens - 1];
            F[nf].chain->next->buf->last = p;
        }
        S.out[S.out_last] = &F[nf];
        S.out_last = (S.out_last + 1) % QUEUE;
        if (k != 4) {
            put(k);
            put(0); put(0); put(lens);
            put(ts >> 16); put(ts >> 8); put(ts); put(ts >> 24);
            put(0); put(0); put(0);
            for (j = 0; j < lens; j++) {
                put(data[nf][j]);
            }
            put(0); put(0); put(0); put(lens + 11);
        }
        nf++;
    }
    if (fail || wev.timedout) {
        MUST(finals == 1, "a player that cannot be sent to is gone, once");
        CHECK(fin_rc != NGX_OK, "with an error");
        CHECK(S.finalize_reason == (fail ? NGX_LIVE_FLV_SEND_ERR : NGX_LIVE_FLV_SEND_TIMEOUT), "and a reason");
        ngx_http_flv_live_write_handler(&R);
        MUST(finals == 1, "and stays so");
        ngx_rtmp_free_merge_frame(&S);
        while (S.out_pos != S.out_last) {
            ngx_rtmp_shared_free_frame(S.out[S.out_pos]);
            S.out_pos = (S.out_pos + 1) % QUEUE;
        }
    } else {
        room = 2;
        ngx_http_flv_live_write_handler(&R);
        MUST(finals == 0, "the player goes on");
        MUST(nwire == nwant, "everything is sent");
        for (i = 0; i < nf; i++) {
            MUST(F[i].ref == 0, "what was sent is given back");
        }
        CHECK(S.out_pos == S.out_last && S.out_chain == NULL, "nothing is left");
    }
    for (i = 0; i < nwire; i++) {
        ok = ok & (wire[i] == want[i]);
    }
    CHECK(ok, "the header and a tag for each frame are sent, in order");
    CHECK(vf_chainbufs == 0, "the buffers are given back");
    REACH("end");
}

/* the stream a request is for */
void
vf_url(void)
{
    static u_char    uri[24];
    static const char *tok[] = { "/", "a", ".flv", "bc" };
    ngx_rtmp_play_t  v;
    ngx_int_t        rc;
    int              n, i, j, k, slash, end, good;

    setup();
    memset(&v, 0, sizeof(v));
    n = 0;
    uri[n++] = '/';
    for (i = 0; i < URILEN; i++) {
        k = pick(4);
        for (j = 0; tok[k][j]; j++) {
            uri[n++] = tok[k][j];
        }
    }
    uri[n] = '/';       /* whatever comes behind it */
    R.uri.data = uri;
    R.uri.len = n;
    R.headers_in.server.data = (u_char *) "h";
    R.headers_in.server.len = 1;
    rc = ngx_http_flv_live_parse(&R, &S, &v);
    end = n;
    for (i = n - 4; i > 0; i--) {
        if (uri[i] == '.' && uri[i + 1] == 'f' && uri[i + 2] == 'l' && uri[i + 3] == 'v') {
            end = i;
        }
    }
    slash = 0;
    for (i = 1; i < end; i++) {
        if (uri[i] == '/') {
            slash = i;
        }
    }
    good = slash > 1 && end - slash - 1 > 0 && end - slash - 1 < NGX_RTMP_MAX_NAME;
    CHECK((rc == NGX_OK) == good, "a request without application or stream, or with too long a name, is refused");
    if (good) {
        MUST((int) S.app.len == slash - 1, "the application is what comes before the last slash");
        for (i = 0; i < slash - 1; i++) {
            CHECK(S.app.data[i] == uri[1 + i], "the application of the request");
        }
        for (i = slash + 1; i < end; i++) {
            CHECK(v.name[i - slash - 1] == uri[i], "the stream is what comes behind it");
        }
        CHECK(v.name[end - slash - 1] == 0, "the name of the stream has an end");
        CHECK((int) S.tc_url.len == 9 + slash - 1, "the url of the application");
    } else {
        CHECK(rc == NGX_HTTP_BAD_REQUEST, "a bad request is told so");
    }
    REACH("end");
}
