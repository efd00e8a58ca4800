/* C12: what is learnt from the headers of audio and video.  The reader of
 * bits (decided by vf_bits and vf_golomb) is replaced by a list of syntax
 * elements, so that every value of an element is explored. */
#include "vf.h"
#define VF_MEM_LOOP
#define VF_OWN_PCALLOC
#include <ngx_config.h>
#include <ngx_core.h>
#include "ngx_rtmp.h"
#include "ngx_rtmp_bitop.h"
#ifndef DUMP
#undef NGX_DEBUG        /* the dump of headers to the log is left out */
#define NGX_DEBUG 0
#endif

static void     t_init(ngx_rtmp_bit_reader_t *br, u_char *pos, u_char *last);
static uint64_t t_read(ngx_rtmp_bit_reader_t *br, ngx_uint_t n);
static uint64_t t_golomb(ngx_rtmp_bit_reader_t *br);
#define ngx_rtmp_bit_init_reader  t_init
#define ngx_rtmp_bit_read         t_read
#define ngx_rtmp_bit_read_golomb  t_golomb
#include "ngx_rtmp_codec_module.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

ngx_module_t                   ngx_rtmp_core_module;
static ngx_rtmp_codec_ctx_t    C;
static int                     nctx;
void *ngx_pcalloc(ngx_pool_t *p, size_t n) { CHECK(n == sizeof(C) && nctx++ == 0, "one context for a session"); return &C; }

/* elements: width 0 is a golomb code */
#define GOL 0
typedef struct { int width; uint64_t v; } el_t;
static el_t     list[2][80];
static int      nel[2], at[2], used[2];
static u_char  *base[2];
static int      cur;            /* list that is being made */

static uint64_t add(int width, uint64_t v) { MUST(nel[cur] < 80, "harness: elements"); list[cur][nel[cur]].width = width; list[cur][nel[cur]++].v = v; return v; }
static void u(int width, uint64_t v) { add(width, v); }
static void ue(uint64_t v) { add(GOL, v); }

static u_char   want_rbsp[80];
static int      n_rbsp = -1, seen_rbsp;
static u_char   m[128];

static void
t_init(ngx_rtmp_bit_reader_t *br, u_char *pos, u_char *last)
{
    int i;
    br->pos = pos;
    br->last = last;
    br->offs = 0;
    br->err = 0;
    for (i = 0; i < 128 && pos != m + i; i++);
    if (i == 128) {
        /* the content of the parameter set */
        seen_rbsp++;
        MUST(last - pos == n_rbsp, "length of the parameter set without its escapes");
        for (i = 0; i < n_rbsp; i++) {
            CHECK(pos[i] == want_rbsp[i], "parameter set without its escapes");
        }
        at[1] = used[1] = 0;
        br->offs = 1000;
    }
}

static uint64_t
t_read(ngx_rtmp_bit_reader_t *br, ngx_uint_t n)
{
    int       l = br->offs >= 1000, w;
    uint64_t  v = 0;
    el_t     *e;
    size_t    i;

    if (!l && br->pos != base[0]) {
        /* the header of a unit, read in place */
        for (i = 0; i < n; i++) {
            if (br->pos >= br->last) {
                br->err = 1;
                return 0;
            }
            v = v << 1 | (*br->pos >> (7 - br->offs) & 1);
            if (++br->offs == 8) {
                br->offs = 0;
                br->pos++;
            }
        }
        return v;
    }
    while (n) {
        if (at[l] == nel[l]) {
            br->err = 1;
            return 0;
        }
        e = &list[l][at[l]];
        MUST(e->width != GOL, "an element of fixed width is read as one");
        w = e->width - used[l];
        if ((int) n < w) {
            w = n;
        }
        v = w == 64 ? 0 : v << w;
        v |= w == 64 ? e->v : e->v >> (e->width - used[l] - w) & ((1ULL << w) - 1);
        used[l] += w;
        n -= w;
        if (used[l] == e->width) {
            used[l] = 0;
            at[l]++;
        }
    }
    return v;
}

static uint64_t
t_golomb(ngx_rtmp_bit_reader_t *br)
{
    int l = br->offs >= 1000;
    if (at[l] == nel[l]) {
        br->err = 1;
        return 0;
    }
    MUST(list[l][at[l]].width == GOL && used[l] == 0, "a code is read as one");
    return list[l][at[l]++].v;
}

/* frames */
static ngx_rtmp_frame_t   fr[4];
static int                nfr, freed[4];
static ngx_chain_t        cl;
static ngx_buf_t          b;
ngx_rtmp_frame_t *
ngx_rtmp_shared_alloc_frame(size_t size, ngx_chain_t *cl0, ngx_flag_t mandatory)
{
    MUST(nfr < 4, "harness: frames");
    CHECK(cl0 == &cl && size == 128, "the header is kept in chunks");
    return &fr[nfr++];
}
void
ngx_rtmp_shared_free_frame(ngx_rtmp_frame_t *f)
{
    MUST(f >= fr && f < fr + nfr, "a header is given back");
    CHECK(!freed[f - fr], "a header is given back once");
    freed[f - fr] = 1;
}

static ngx_rtmp_session_t        S;
static void                     *ctxs[VF_NMOD];
static ngx_rtmp_header_t         h;
static ngx_rtmp_core_srv_conf_t  cscf;
static ngx_rtmp_core_app_conf_t  cacf;
static int                       live0;

static void
begin(int type, int b0, int b1, int len)
{
    vf_init();
    ngx_rtmp_core_module.ctx_index = 0;
    ngx_rtmp_codec_module.ctx_index = 1;
    S.ctx = ctxs;
    S.pool = &vf_pool;
    S.log = &vf_log;
    S.srv_conf = vf_srv_conf;
    S.app_conf = vf_app_conf;
    vf_srv_conf[0] = &cscf;
    vf_app_conf[0] = &cacf;
    cscf.chunk_size = 128;
    cacf.hevc_codec = 12;
    m[0] = b0;
    m[1] = b1;
    cl.buf = &b;
    cl.next = NULL;
    b.start = b.pos = m;
    b.last = m + len;
    b.end = m + 128;
    base[0] = m;
    at[0] = used[0] = 0;
    cur = 0;
    h.type = type;
}

static inline int
pick(int n)
{
    int i, v = ND8();
    for (i = 0; i < n - 1; i++) {
        if (v == i) {
            return i;
        }
    }
    return n - 1;
}

static uint64_t small(void) { return ND32(); }

#ifndef PROFILE
#define PROFILE 100
#endif

/* the parameters of H.264 */
void
vf_avc(void)
{
    uint64_t  prof, compat, level, w, ht, refs, cl_, cr, ct, cb;
    int       cf, fmo, crop, poc, n, i, nb, scal;

    begin(NGX_RTMP_MSG_VIDEO, 0x17, 0, 100);
    u(8, 0x17); u(8, 0); u(24, ND32() & 0xffffff);
    u(8, 1);
    prof = add(8, ND8());
    compat = add(8, ND8());
    level = add(8, ND8());
    nb = ND8();
    u(8, nb);
    u(8, 0xe1);
    u(16, ND16());
    u(8, 0x67);
    u(8, PROFILE);
    u(8, ND8());
    u(8, ND8());
    ue(small());
    cf = 1;
    if (PROFILE == 100 || PROFILE == 110 || PROFILE == 122 || PROFILE == 244 || PROFILE == 44 || PROFILE == 83 || PROFILE == 86 || PROFILE == 118) {
        cf = pick(2) ? 3 : 1;
        ue(cf);
        if (cf == 3) {
            u(1, ND8() & 1);
        }
        ue(small());
        ue(small());
        u(1, ND8() & 1);
        scal = pick(2);
        u(1, scal);
        if (scal) {
            for (i = 0; i < (cf != 3 ? 8 : 12); i++) {
                u(1, 0);
            }
        }
    }
    ue(small());
    poc = pick(3);
    ue(poc);
    if (poc == 0) {
        ue(small());
    } else if (poc == 1) {
        u(1, ND8() & 1);
        ue(small());
        ue(small());
        n = pick(3);
        ue(n);
        for (i = 0; i < n; i++) {
            ue(small());
        }
    }
    refs = small();
    ue(refs);
    u(1, ND8() & 1);
    w = ND16();
    ht = ND16();
    ue(w);
    ue(ht);
    fmo = pick(2);
    u(1, fmo);
    if (!fmo) {
        u(1, ND8() & 1);
    }
    u(1, ND8() & 1);
    crop = pick(2);
    u(1, crop);
    cl_ = cr = ct = cb = 0;
    if (crop) {
        cl_ = ND8(); cr = ND8(); ct = ND8(); cb = ND8();
        ue(cl_); ue(cr); ue(ct); ue(cb);
    }
    CHECK(ngx_rtmp_codec_av(&S, &h, &cl) == NGX_OK, "a header is taken");
    CHECK(S.vcodec == 7 && C.video_codec_id == 7, "codec of video");
    CHECK(C.avc_profile == prof && C.avc_compat == compat && C.avc_level == level, "profile, compatibility and level");
    CHECK(C.avc_nal_bytes == (ngx_uint_t) (nb & 3) + 1, "length of lengths");
    CHECK(C.avc_ref_frames == refs, "reference frames");
    if (cf != 3) {
        CHECK(C.width == (w + 1) * 16 - 2 * (cl_ + cr), "width of a picture");
        CHECK(C.height == (2 - fmo) * ((ht + 1) * 16 - 2 * (ct + cb)), "height of a picture");
    } else if (!crop) {
        CHECK(C.width == (w + 1) * 16 && C.height == (2 - fmo) * (ht + 1) * 16, "size of a picture");
    }
    CHECK(C.avc_header == &fr[0] && nfr == 1 && C.aac_header == NULL, "the header is kept");
    REACH("end");
}

/* the parameters of AAC */
void
vf_aac(void)
{
    static const ngx_uint_t rates[16] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350, 0, 0, 0 };
    int         o, o2, i1, i2, b0;
    ngx_uint_t  rate, chan, type;

    b0 = 0xa0 | (ND8() & 15);
    begin(NGX_RTMP_MSG_AUDIO, b0, 0, 30);
    u(16, b0 << 8);
    /* kind: plain, escaped, with bands above, with stereo */
    o = pick(5);
    type = o == 0 ? 2 : o == 1 ? 37 : o == 2 ? 5 : o == 3 ? 29 : 63;
    if (type < 32) {
        u(5, type);
    } else {
        u(5, 31);
        u(6, type - 32);
    }
    i1 = pick(4);
    i1 = i1 == 0 ? 15 : i1 == 1 ? 3 : i1 == 2 ? 12 : 0;
    u(4, i1);
    rate = rates[i1];
    if (i1 == 15) {
        rate = ND32() & 0xffffff;
        u(24, rate);
    }
    chan = ND8() & 15;
    u(4, chan);
    if (type == 5 || type == 29) {
        i2 = pick(2) ? 15 : 4;
        u(4, i2);
        rate = rates[i2];
        if (i2 == 15) {
            rate = ND32() & 0xffffff;
            u(24, rate);
        }
        o2 = pick(2);
        if (o2) {
            u(5, 31);
            u(6, 11);
            type = 43;
        } else {
            u(5, 2);
            type = 2;
        }
    }
    CHECK(ngx_rtmp_codec_av(&S, &h, &cl) == NGX_OK, "a header is taken");
    CHECK(S.acodec == 10 && C.audio_codec_id == 10 && C.audio_channels == (ngx_uint_t) (b0 & 1) + 1 && C.sample_size == (b0 & 2 ? 2u : 1u), "format of audio");
    CHECK(C.aac_profile == type, "type of AAC");
    CHECK(C.sample_rate == rate, "sample rate");
    CHECK(C.aac_chan_conf == chan, "channels of AAC");
    CHECK(C.aac_sbr == (o == 2 || o == 3) && C.aac_ps == (o == 3), "extensions of AAC");
    CHECK(C.aac_header == &fr[0] && nfr == 1 && C.avc_header == NULL, "the header is kept");
    REACH("end");
}

#ifndef NAL
#define NAL 0x42,1,0,0,3,1,9
#endif
#ifndef SAY
#define SAY (int) sizeof(bytes)         /* length the header gives for the unit */
#endif
#ifndef MSLM
#define MSLM 0
#endif
#ifndef HAVE
#define HAVE 4096
#endif

/* the parameters of H.265: bytes of the unit are real, elements are any */
void
vf_hevc(void)
{
    static const u_char bytes[] = { NAL };
    uint64_t  w, ht, c[4];
    int       i, k, zeros, crop, cf, sw, sh, bad, len, off, sub[8][2], nal_bytes;

    len = 28 + 5 + sizeof(bytes);
    if (len > 28 + 5 + HAVE) {
        len = 28 + 5 + HAVE;
    }
    begin(NGX_RTMP_MSG_VIDEO, 0x1c, 0, len);
    base[0] = NULL;             /* the header is read in place */
    for (i = 2; i < 27; i++) {
        m[i] = ND8();
    }
    nal_bytes = pick(2) * 3;
    m[26] = 0xf4 | nal_bytes;
    /* 5 bytes of the tag, 22 of the record, one array with one unit */
    m[27] = 1;
    m[28] = 0xa1;
    m[29] = 0; m[30] = 1;
    m[31] = SAY >> 8; m[32] = SAY & 255;
    for (i = 0; i < (int) sizeof(bytes) && 33 + i < len; i++) {
        m[33 + i] = bytes[i];
    }
    /* bytes beyond the message are not there */
    b.end = b.last;
    bad = (SAY) < 2 || 33 + (SAY) > len || (bytes[0] >> 1 & 63) != 33;
    n_rbsp = zeros = 0;
    for (i = 2; i < SAY && !bad; i++) {
        if (zeros == 2 && bytes[i] < 3) {
            bad = 1;
            break;
        }
        if (zeros == 2 && bytes[i] == 3) {
            if (i + 1 < SAY && bytes[i + 1] > 3) {
                bad = 1;
                break;
            }
            zeros = 0;
            continue;
        }
        want_rbsp[n_rbsp++] = bytes[i];
        zeros = bytes[i] ? 0 : zeros + 1;
    }
    cur = 1;
    u(4, ND8() & 15); u(3, MSLM); u(1, ND8() & 1);
    u(2, ND8() & 3); u(1, ND8() & 1); u(5, ND8() & 31); u(32, ND32()); u(48, 0); u(8, ND8());
    for (i = 0; i < MSLM; i++) {
        for (k = 0; k < 2; k++) {
            sub[i][k] = pick(2);
            u(1, sub[i][k]);
        }
    }
    if (MSLM) {
        for (i = MSLM; i < 8; i++) {
            u(2, 0);
        }
    }
    for (i = 0; i < MSLM; i++) {
        if (sub[i][0]) {
            u(32, ND32()); u(32, ND32()); u(24, ND32() & 0xffffff);
        }
        if (sub[i][1]) {
            u(8, ND8());
        }
    }
    ue(3);
    cf = pick(4);
    ue(cf);
    if (cf == 3) {
        u(1, ND8() & 1);
    }
    w = ND16();
    ht = ND16();
    ue(w);
    ue(ht);
    crop = pick(2);
    u(1, crop);
    for (k = 0; k < 4; k++) {
        c[k] = 0;
        if (crop) {
            c[k] = ND8();
            ue(c[k]);
        }
    }
    CHECK(ngx_rtmp_codec_av(&S, &h, &cl) == NGX_OK, "a header is taken");
    CHECK(C.video_codec_id == 12 && S.vcodec == 12, "codec of video");
    CHECK(C.avc_header == &fr[0] && nfr == 1, "the header is kept");
    CHECK(C.avc_nal_bytes == (ngx_uint_t) nal_bytes + 1, "length of lengths");
    if (SAY > 12) {
        /* more than the reader has room for: nothing but its memory counts */
    } else if (bad) {
        CHECK(C.width == 0 && C.height == 0 && !seen_rbsp, "a malformed parameter set says nothing");
    } else {
        CHECK(seen_rbsp == 1, "a parameter set is read");
        sw = cf == 1 || cf == 2 ? 2 : 1;
        sh = cf == 1 ? 2 : 1;
        CHECK(C.width == w - sw * (c[0] + c[1]), "width of a picture");
        CHECK(C.height == ht - sh * (c[2] + c[3]), "height of a picture");
    }
    REACH("end");
}

/* headers are kept until they are replaced or the session ends, any frames */
#ifndef STEPS
#define STEPS 2
#endif
void
vf_headers(void)
{
    static const int b0s[5] = { 0x17, 0xaf, 0x1c, 0x27, 0x2f };
    int  i, k, v, a, n, len, keep;

    begin(NGX_RTMP_MSG_VIDEO, 0x17, 0, 2);
    v = a = -1;
    for (i = 0; i < STEPS; i++) {
        k = pick(5);
        m[0] = b0s[k];
        m[1] = pick(2);
        len = pick(4);
        len = len == 0 ? 0 : len == 1 ? 2 : len == 2 ? 3 : 40;
        b.last = m + len;
        /* elements enough for nothing: a header that is cut off */
        nel[0] = nel[1] = 0;
        base[0] = m;
        h.type = b0s[k] == 0xaf || b0s[k] == 0x2f ? NGX_RTMP_MSG_AUDIO : NGX_RTMP_MSG_VIDEO;
        n = nfr;
        CHECK(ngx_rtmp_codec_av(&S, &h, &cl) == NGX_OK, "a frame is taken");
        keep = len >= 3 && m[1] == 0 && k != 4;
        CHECK(nfr == n + keep, "headers and nothing else are kept");
        if (keep) {
            if (k == 1) {
                if (a >= 0) {
                    CHECK(freed[a], "a header that is replaced is given back");
                }
                a = n;
            } else {
                if (v >= 0) {
                    CHECK(freed[v], "a header that is replaced is given back");
                }
                v = n;
            }
        }
        CHECK(!nctx || (C.avc_header == (v < 0 ? NULL : &fr[v]) && C.aac_header == (a < 0 ? NULL : &fr[a])), "the last headers are kept");
        CHECK((v < 0 || !freed[v]) && (a < 0 || !freed[a]), "the last headers are alive");
    }
    CHECK(ngx_rtmp_codec_disconnect(&S, &h, NULL) == NGX_OK, "the session ends");
    for (i = 0; i < nfr; i++) {
        CHECK(freed[i], "every header is given back in the end");
    }
    CHECK(C.avc_header == NULL && C.aac_header == NULL, "no header is kept in the end");
    REACH("end");
}
