#include "vf.h"
#define VF_MEM_LOOP
#include "ngx_rtmp_shared_module.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

#ifndef SZ
#define SZ 3
#endif
#ifndef MAXL
#define MAXL 4
#endif

static ngx_rtmp_shared_conf_t  rscf;
static void                   *conf_ctx[1];

static ngx_chain_t  cin[2];
static ngx_buf_t    bin[2];
static u_char       data[2][MAXL + 1];

static void
setup(void)
{
    vf_init();
    conf_ctx[0] = &rscf;
    vf_cycle.conf_ctx = (void ****) conf_ctx;
    ngx_rtmp_shared_module.index = 0;
    rscf.pool = &vf_pool;
}

static ngx_chain_t *
input(int a, int b)
{
    int i, n[2];

    n[0] = a;
    n[1] = b;
    for (i = 0; i < 2; i++) {
        ND_BYTES(data[i], MAXL);
        bin[i].start = bin[i].pos = data[i];
        bin[i].last = bin[i].end = data[i] + n[i];
        cin[i].buf = &bin[i];
        cin[i].next = i == 0 && b >= 0 ? &cin[1] : NULL;
    }
    return cin;
}

/* the frame holds exactly these bytes, each buffer but the last one full */
static void
same(ngx_chain_t *cl, u_char *want, int n)
{
    int  i, k;

    i = 0;
    for ( ; cl; cl = cl->next) {
        CHECK(cl->buf->last - cl->buf->pos <= SZ, "no fragment is longer than the chunk size");
        for (k = 0; k < cl->buf->last - cl->buf->pos; k++) {
            CHECK(i < n && cl->buf->pos[k] == want[i], "a frame holds the bytes that were put in");
            i++;
        }
        CHECK(cl->next == NULL || cl->buf->last - cl->buf->pos == SZ, "every fragment but the last is full");
    }
    CHECK(i == n, "a frame holds all the bytes that were put in");
}

/* every content, all lengths of two input buffers and one more append */
void
vf_content(void)
{
    ngx_rtmp_frame_t  *f;
    u_char             want[4 * MAXL];
    int                a, b, c, n, before;

    setup();
    for (a = 0; a <= MAXL; a++) {
        for (b = -1; b <= MAXL; b++) {
            for (c = 0; c <= 2; c++) {
                before = vf_chainbufs;
                f = ngx_rtmp_shared_alloc_frame(SZ, input(a, b), 0);
                CHECK(f != NULL && f->ref == 1, "a new frame has one user");
                n = 0;
                memcpy(want, data[0], a);
                n += a;
                if (b >= 0) {
                    memcpy(want + n, data[1], b);
                    n += b;
                }
                if (c) {
                    ngx_rtmp_shared_append_chain(f, SZ, input(c, -1), 0);
                    memcpy(want + n, data[0], c);
                    n += c;
                }
                same(f->chain, want, n);
                ngx_rtmp_shared_free_frame(f);
                CHECK(vf_chainbufs == before, "a freed frame gives all its buffers back");
            }
        }
    }
    REACH("end");
}

/* every order of sharing and releasing frames */
#ifndef OPS
#define OPS 4
#endif
/* one bit a step: which frame it is about */
#ifndef HIST
#define HIST 0
#endif
#define F 2
void
vf_refs(void)
{
    ngx_rtmp_frame_t  *f[F];
    int                i, k, j, n, ref[F], op;
    u_char             tag[F];

    setup();
    for (k = 0; k < F; k++) {
        f[k] = NULL;
        ref[k] = 0;
    }
    for (i = 0; i < OPS; i++) {
        k = (HIST >> i) & 1;
        op = ND_BOOL();
        if (ref[k] == 0) {
            f[k] = ngx_rtmp_shared_alloc_frame(SZ, NULL, 1);
            tag[k] = ND8();
            *f[k]->chain->buf->last++ = tag[k];
            ref[k] = 1;
            for (j = 0; j < F; j++) {
                CHECK(j == k || ref[j] == 0 || f[j] != f[k], "no two users are given the same frame");
            }
            CHECK(f[k]->next == NULL && f[k]->ref == 1, "a new frame has one user");
            CHECK(f[k]->hdr.timestamp == 0 && f[k]->hdr.msid == 0 && !f[k]->av_header && !f[k]->keyframe
                  && !f[k]->mandatory, "a new frame carries nothing of an earlier one");
            f[k]->hdr.timestamp = ND32();
            f[k]->hdr.msid = ND32();
            f[k]->hdr.type = ND8();
            f[k]->av_header = f[k]->keyframe = f[k]->mandatory = 1;
        } else if (op) {
            ngx_rtmp_shared_acquire_frame(f[k]);
            ref[k]++;
        } else {
            ngx_rtmp_shared_free_frame(f[k]);
            ref[k]--;
        }
        for (j = n = 0; j < F; j++) {
            if (ref[j]) {
                n++;
                CHECK(f[j]->chain->buf->pos[0] == tag[j], "a frame stays as it is while anyone uses it");
            }
        }
        CHECK(vf_chainbufs == n, "a frame's buffers are released with its last user");
        CHECK(rscf.nalloc_frame - rscf.nfree_frame == (ngx_uint_t) n, "frames in use are counted");
    }
    REACH("end");
}

/* the same for MPEG-TS frames */
void
vf_mpegts_refs(void)
{
    ngx_mpegts_frame_t  *f[F];
    int                  i, k, j, n, ref[F], op;
    u_char               tag[F];

    setup();
    for (k = 0; k < F; k++) {
        f[k] = NULL;
        ref[k] = 0;
    }
    for (i = 0; i < OPS; i++) {
        k = (HIST >> i) & 1;
        op = ND_BOOL();
        if (ref[k] == 0) {
            f[k] = ngx_rtmp_shared_alloc_mpegts_frame(NULL, 1);
            tag[k] = ND8();
            *f[k]->chain->buf->last++ = tag[k];
            ref[k] = 1;
            for (j = 0; j < F; j++) {
                CHECK(j == k || ref[j] == 0 || f[j] != f[k], "no two users are given the same frame");
            }
            CHECK(f[k]->next == NULL && f[k]->ref == 1, "a new frame has one user");
            CHECK(f[k]->pts == 0 && f[k]->dts == 0 && !f[k]->key, "a new frame carries nothing of an earlier one");
            f[k]->pts = ND64();
            f[k]->key = 1;
        } else if (op) {
            ngx_rtmp_shared_acquire_frame(f[k]);
            ref[k]++;
        } else {
            ngx_rtmp_shared_free_mpegts_frame(f[k]);
            ref[k]--;
        }
        for (j = n = 0; j < F; j++) {
            if (ref[j]) {
                n++;
                CHECK(f[j]->chain->buf->pos[0] == tag[j], "a frame stays as it is while anyone uses it");
            }
        }
        CHECK(vf_chainbufs == n, "a frame's buffers are released with its last user");
    }
    REACH("end");
}
