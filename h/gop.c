/* C09: the cache of the last group of pictures of a stream */
#include "vf.h"
#define VF_OWN_PCALLOC
#include <ngx_config.h>
#include <ngx_core.h>
#undef NGX_DEBUG        /* the cache printed to the log is left out */
#define NGX_DEBUG 0
#include "ngx_rtmp_gop_module.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

#ifndef OQ
#define OQ 6
#endif
#ifndef SEQ
#define SEQ -1,-1,-1
#endif
#ifndef CT
#define CT 100      /* cache_time */
#endif
#ifndef JOIN
#define JOIN -1     /* a player comes before this step */
#endif
#define NF 16

ngx_module_t ngx_rtmp_live_module, ngx_rtmp_codec_module;
ngx_rtmp_close_stream_pt ngx_rtmp_close_stream;

static struct { ngx_rtmp_gop_ctx_t c; ngx_rtmp_frame_t *room[1]; } pub_ctx, play_ctx;
static int                 npc;
static ngx_rtmp_session_t  S, T;
void *ngx_pcalloc(ngx_pool_t *p, size_t n)
{
    CHECK(n <= sizeof(ngx_rtmp_gop_ctx_t) + OQ * sizeof(ngx_rtmp_frame_t *), "harness: room for the cache");
    npc++;
    MUST(npc <= 2, "harness: one cache each");
    return npc == 1 ? (void *) &pub_ctx : (void *) &play_ctx;
}

static ngx_rtmp_frame_t  F[NF];
static ngx_chain_t       fc[NF];
static ngx_buf_t         fb[NF];
static u_char            data[NF][2];
static int               dead[NF], kind[NF], kept[NF];
static int               nf;
static ngx_rtmp_frame_t  meta;

void
ngx_rtmp_shared_free_frame(ngx_rtmp_frame_t *f)
{
    MUST(f != NULL && f->ref > 0, "a frame is given back only by those who hold it");
    if (--f->ref == 0) {
        MUST(f != &meta, "the meta data is held by its publisher");
        MUST(f >= F && f < F + NF, "only frames are given back");
        dead[f - F] = 1;
    }
}

static int  linked, last_sent;

/* the socket takes everything at once */
ngx_int_t
ngx_rtmp_send_message(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f, ngx_uint_t prio)
{
    MUST(s == &T && f == NULL, "only the player is sent to");
    while (s->out_pos != s->out_last) {
        f = s->out[s->out_pos];
        MUST(f == &meta || !dead[f - F], "a player is given frames that are alive");
        ngx_rtmp_shared_free_frame(f);
        s->out_pos = (s->out_pos + 1) % s->out_queue;
        linked++;
    }
    return NGX_OK;
}

static int  closed;
static ngx_int_t next_close(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v) { closed++; return NGX_OK; }

static int
pick(int n)
{
    int v, i;
    v = ND8();
    ASSUME(v < n);
    for (i = 0; i < n - 1; i++) {
        if (v == i) {
            break;
        }
    }
    return i;
}

static ngx_rtmp_gop_app_conf_t  gacf;
static ngx_rtmp_live_ctx_t      plctx, slctx;
static ngx_rtmp_codec_ctx_t     cctx;
static void                    *pctx[8], *sctx[8];
static ngx_connection_t         c1, c2;

/* what the cache holds is what it should */
static void
sound(void)
{
    ngx_rtmp_gop_ctx_t *g = pctx[0];
    int    i, in, n, q, key, video, prev;
    ngx_uint_t holders[NF];

    if (g == NULL) {
        return;
    }
    for (i = 0; i < nf; i++) {
        holders[i] = 0;
    }
    MUST(g->gop_pos < OQ && g->gop_last < OQ, "the cache stays within its room");
    n = (g->gop_last + OQ - g->gop_pos) % OQ;
    prev = -1;
    key = video = 0;
    for (q = 0; q < OQ; q++) {
        i = (g->gop_pos + q) % OQ;
        if (q >= n) {
            MUST(g->cache[i] == NULL, "an unused place of the cache is empty");
            continue;
        }
        MUST(g->cache[i] >= F && g->cache[i] < F + nf, "a used place of the cache has a frame");
        in = g->cache[i] - F;
        MUST(in > prev, "the cache is in the order of the stream");
        prev = in;
        holders[in]++;
        if (kind[in] == 3 || kind[in] == 4) {
            if (!video) {
                key = kind[in] == 3;
            }
            video = 1;
        }
    }
    MUST(!video || key, "the first picture in the cache is a key frame");
    if (g->aac_header) { in = g->aac_header - F; MUST(kind[in] == 1, "the audio header is one"); holders[in]++; }
    if (g->avc_header) { in = g->avc_header - F; MUST(kind[in] == 2, "the video header is one"); holders[in]++; }
    for (i = 0; i < nf; i++) {
        CHECK(F[i].ref == holders[i], "each frame is held once for each place it has");
        MUST(!(dead[i] && holders[i]), "the cache has only frames that are alive");
    }
    /* what a player needs to start is there */
    key = -1;
    for (i = 0; i < nf; i++) {
        if (kind[i] == 3) {
            key = i;
        }
    }
    if (key >= 0 && kept[key]) {
        for (i = key; i < nf; i++) {
            CHECK(holders[i] == 1 || !kept[i], "everything since the last key frame is in the cache");
        }
        in = -1;
        for (i = 0; i < key; i++) {
            if (kind[i] == 2) {
                in = i;
            }
        }
        CHECK(in < 0 || !kept[in] || holders[in] == 1, "the last video header is kept");
        in = -1;
        for (i = 0; i < nf; i++) {
            if (kind[i] == 1) {
                in = i;
            }
        }
        CHECK(in < 0 || !kept[in] || holders[in] == 1, "the last audio header is kept");
    }
}

void
vf_gop(void)
{
    static const int        seq[] = { SEQ };
    static const u_char     first[] = { 0xaf, 0xaf, 0x17, 0x17, 0x27 }, second[] = { 1, 0, 0, 1, 1 };
    ngx_rtmp_close_stream_t v;
    ngx_rtmp_frame_t       *f;
    ngx_rtmp_gop_ctx_t     *g;
    ngx_int_t               rc;
    int                     i, k, used;

    vf_init();
    vf_session(&S, pctx, &c1);
    vf_session(&T, sctx, &c2);
    ngx_rtmp_gop_module.ctx_index = 0;
    ngx_rtmp_live_module.ctx_index = 1;
    ngx_rtmp_codec_module.ctx_index = 2;
    vf_app_conf[0] = &gacf;
    gacf.cache_time = CT;
    gacf.send_all = 1;
    S.out_queue = T.out_queue = OQ;
    plctx.publishing = 1;
    pctx[1] = &plctx;
    pctx[2] = &cctx;
    sctx[1] = &slctx;
    cctx.meta = &meta;
    cctx.meta_version = 1;
    meta.ref = 1;
    meta.hdr.type = NGX_RTMP_MSG_AMF_META;
    next_close_stream = next_close;

    for (i = 0; i < (int) (sizeof(seq) / sizeof(seq[0])); i++) {
        k = seq[i];
        if (k < 0) {
            k = pick(5);
        }
        if (k == 9) {
            /* the stream is closed and may be published again */
            rc = ngx_rtmp_gop_close_stream(&S, &v);
            CHECK(rc == NGX_OK, "close goes on");
            for (k = 0; k < nf; k++) {
                MUST(F[k].ref == 0, "everything is given back on close");
                kind[k] = 0;
                kept[k] = 0;
            }
            sctx[0] = NULL;     /* its players leave */
            npc = npc > 1 ? 1 : npc;
            memset(&play_ctx, 0, sizeof(play_ctx));
            continue;
        }
        f = &F[nf];
        kind[nf] = k;
        data[nf][0] = first[k];
        data[nf][1] = second[k];
        fb[nf].pos = data[nf];
        fb[nf].last = data[nf] + 2;
        fc[nf].buf = &fb[nf];
        f->chain = &fc[nf];
        f->hdr.type = k < 2 ? NGX_RTMP_MSG_AUDIO : NGX_RTMP_MSG_VIDEO;
        f->hdr.timestamp = 40 * i;
        f->hdr.mlen = 2;
        f->ref = 1;
        used = 0;
        if ((g = pctx[0]) != NULL) {
            used = (g->gop_last + OQ - g->gop_pos) % OQ;
        }
        nf++;
        rc = ngx_rtmp_gop_cache(&S, f);
        CHECK(rc == (used + 1 >= OQ ? NGX_AGAIN : NGX_OK), "a frame is refused when the cache is full");
        kept[nf - 1] = f->ref > 1;
        if (JOIN >= 0 && i >= JOIN) {
            rc = ngx_rtmp_gop_send(&S, &T);
            CHECK(rc != NGX_ERROR, "a player goes on");
        }
        ngx_rtmp_shared_free_frame(f);
        if (sctx[0] && T.out_pos != T.out_last) {
            ngx_rtmp_send_message(&T, NULL, 0);
        }
        sound();
    }
    for (i = 0; i < 2; i++) {
        rc = ngx_rtmp_gop_close_stream(&S, &v);
        CHECK(rc == NGX_OK && closed > i, "close goes on");
        for (k = 0; k < nf; k++) {
            MUST(F[k].ref == 0 && dead[k], "everything is given back on close, once");
        }
    }
    CHECK(meta.ref == 1, "the meta data is held by its publisher only");
    REACH("end");
}
