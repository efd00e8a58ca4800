/* C30: what a record of a stream is made of */
#include "vf.h"
#define VF_OWN_PCALLOC
#define VF_MEM_LOOP
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_event.h>
/* the file is a model */
#undef ngx_open_file
#undef ngx_close_file
#undef ngx_lock_fd
#undef NGX_MAX_PATH
#define NGX_MAX_PATH 32
static int m_open(u_char *name, int mode, int create);
static int m_close(int fd);
#define ngx_open_file(name, mode, create, access)  m_open((u_char *) (name), mode, create)
#define ngx_close_file(fd)  m_close(fd)
#define ngx_lock_fd(fd)  0
static long m_lseek(int fd, long off, int whence);
#define lseek(fd, off, whence)  m_lseek(fd, off, whence)
#include "ngx_rtmp_record_module.c"
#undef lseek
#include "ngx_stubs.h"
#include "rtmp_env.h"

#ifndef RFLAGS
#define RFLAGS (NGX_RTMP_RECORD_AUDIO|NGX_RTMP_RECORD_VIDEO)
#endif
#ifndef SEQ
#define SEQ -1,-1,-1
#endif
#ifndef H264
#define H264 1
#endif
#ifndef AAC
#define AAC 1
#endif
#ifndef KNOWN
#define KNOWN 0     /* 1: audio header, 2: video header known before */
#endif
#ifndef APPEND
#define APPEND 0
#endif
#ifndef FAIL
#define FAIL -1     /* this write fails */
#endif
#ifndef MAXSIZE
#define MAXSIZE 0
#endif
#ifndef MAXFRAMES
#define MAXFRAMES 0
#endif
#ifndef INTERVAL
#define INTERVAL NGX_CONF_UNSET
#endif
#define NF    8
#define ROOM  240

ngx_module_t ngx_rtmp_codec_module;
ngx_rtmp_publish_pt       ngx_rtmp_publish;
ngx_rtmp_close_stream_pt  ngx_rtmp_close_stream;
ngx_rtmp_stream_begin_pt  ngx_rtmp_stream_begin;
ngx_rtmp_stream_eof_pt    ngx_rtmp_stream_eof;

static u_char   disk[ROOM];
static long     disklen;
static int      fdopen_, fdnext = 7, nopen, nclose, nwrite, failed, ever, dones;

static int
m_open(u_char *name, int mode, int create)
{
    static const char path[] = "/r/cam.flv";
    int  i;
    MUST(fdopen_ == 0, "a record is opened once at a time");
    for (i = 0; i < (int) sizeof(path); i++) {
        CHECK(name[i] == path[i], "the record is where it is to be");
    }
    if (create == (int) NGX_FILE_TRUNCATE) {
        disklen = 0;
    } else {
        CHECK(create == NGX_FILE_CREATE_OR_OPEN, "an appended record keeps what it has");
        CHECK(mode == NGX_FILE_RDWR, "an appended record can be read");
    }
    nopen++;
    failed = 0;
    return fdopen_ = fdnext++;
}

static int
m_close(int fd)
{
    MUST(fd == fdopen_ && fd != 0, "an open record is closed, once");
    fdopen_ = 0;
    nclose++;
    return 0;
}

static long
m_lseek(int fd, long off, int whence)
{
    MUST(fd == fdopen_ && off == 0 && whence == SEEK_END, "the end of the record is looked for");
    return disklen;
}

ssize_t
ngx_write_file(ngx_file_t *file, u_char *buf, size_t size, off_t offset)
{
    size_t  i;
    MUST(file->fd == fdopen_ && fdopen_ != 0, "only an open record is written to");
    if (nwrite++ == FAIL) {
        failed = ever = 1;
        return NGX_ERROR;
    }
    MUST(!failed || (size == 1 && offset == 4), "nothing more is written after a write that failed");
    MUST(offset >= 0 && (offset <= disklen || (ever && offset == 4)), "no hole is left in the record");
    MUST(offset + (long) size <= ROOM, "harness: room on the disk");
    for (i = 0; i < size; i++) {
        disk[offset + i] = buf[i];
    }
    if (offset + (long) size > disklen) {
        disklen = offset + size;
    }
    file->offset += size;
    return size;
}

ssize_t
ngx_read_file(ngx_file_t *file, u_char *buf, size_t size, off_t offset)
{
    size_t  i;
    MUST(file->fd == fdopen_ && fdopen_ != 0, "only an open record is read");
    MUST(offset >= 0 && offset <= disklen, "harness: within the file");
    for (i = 0; i < size && offset + (long) i < disklen; i++) {
        buf[i] = disk[offset + i];
    }
    file->offset += i;
    return i;
}

uintptr_t
ngx_escape_uri(u_char *dst, u_char *src, size_t size, ngx_uint_t type)
{
    CHECK(type == NGX_ESCAPE_URI_COMPONENT, "the name is made safe");
    memcpy(dst, src, size);
    return (uintptr_t) (dst + size);
}

ngx_int_t ngx_rtmp_send_status(ngx_rtmp_session_t *s, char *c, char *l, char *d) { return NGX_OK; }

static ngx_int_t
m_done(ngx_rtmp_session_t *s, ngx_rtmp_record_done_t *v)
{
    dones++;
    CHECK(v->path.len == 10 && fdopen_ == 0, "the path of a record that is done is told");
    return NGX_OK;
}

static struct { ngx_rtmp_record_ctx_t c; } rctx_room;
static int npc;
void *ngx_pcalloc(ngx_pool_t *p, size_t n)
{
    MUST(n <= sizeof(rctx_room) && npc == 0, "harness: one context");
    npc++;
    return &rctx_room;
}

static int nexts;
static ngx_int_t n_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v) { nexts++; return NGX_OK; }
static ngx_int_t n_close(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v) { nexts++; return NGX_OK; }
static ngx_int_t n_begin(ngx_rtmp_session_t *s, ngx_rtmp_stream_begin_t *v) { nexts++; return NGX_OK; }

static int
pick(int n)
{
    int v, i;
    v = ND8();
    ASSUME(v < n);
    for (i = 0; i < n - 1; i++) {
        if (v == i) {
            break;
        }
    }
    return i;
}

static ngx_rtmp_session_t          S;
static ngx_rtmp_record_app_conf_t  top, node;
static ngx_rtmp_record_app_conf_t *nodes[1] = { &node };
static ngx_rtmp_codec_ctx_t        cctx;
static void                       *sctx[8];
static ngx_connection_t            conn;
static ngx_event_t                 ev;

/* kinds: 0 audio, 1 audio header, 2 video header, 3 key frame, 4 inter frame */
static const u_char first_[] = { 0xaf, 0xaf, 0x17, 0x17, 0x27 }, second_[] = { 1, 0, 0, 1, 1 };
static u_char       data[NF][4];
static ngx_buf_t    fb[NF][2];
static ngx_chain_t  fc[NF][2];
static uint32_t     ts[NF];
static ngx_rtmp_frame_t  hdrs[NF];

static u_char       want[ROOM];
static long         wlen;
/* of the record in hand */
static int          w_open, w_ini, w_aac, w_avc, w_key, w_frames, w_audio, w_video, w_nopen, w_nclose, w_any, w_fail;
static uint32_t     w_t0;
static long         w_last, w_now;
static int          cur_aac = -1, cur_avc = -1;

static void put(u_char b) { MUST(wlen < ROOM, "harness: room"); want[wlen++] = b; }

static void
w_tag(int f, int video, uint32_t t)
{
    uint32_t  d, n, i;

    d = t - w_t0;
    d = d & 0x80000000 ? 0 : d;
    put(video ? 9 : 8);
    put(0);
    put(0);
    put(4);
    put(d >> 16);
    put(d >> 8);
    put(d);
    put(d >> 24);
    put(0);
    put(0);
    put(0);
    for (i = 0; i < 4; i++) {
        put(data[f][i]);
    }
    n = 15;
    put(n >> 24);
    put(n >> 16);
    put(n >> 8);
    put(n);
    if (video) {
        w_video = 1;
    } else {
        w_audio = 1;
    }
}

static void
w_start(void)
{
    if (w_open) {
        return;
    }
    w_open = 1;
    w_nopen++;
    w_last = w_now;
    w_ini = w_aac = w_avc = w_key = w_frames = w_audio = w_video = 0;
    if (!APPEND) {
        wlen = 0;
    }
}

static void
w_stop(void)
{
    if (!w_open) {
        return;
    }
    w_open = 0;
    w_nclose++;
    if (w_ini) {
        want[4] = (w_video ? 1 : 0) | (w_audio ? 4 : 0);
    }
}

static void
w_frame(int i, int k)
{
    static const u_char flv[] = { 'F', 'L', 'V', 1, 5, 0, 0, 0, 9, 0, 0, 0, 0 };
    int       video, key, starts, j;
    uint32_t  t;

    video = k >= 2;
    key = k == 2 || k == 3;         /* a header is marked as a key frame is */
    starts = video ? key : !(RFLAGS & NGX_RTMP_RECORD_VIDEO);
    if (starts && !(RFLAGS & NGX_RTMP_RECORD_MANUAL)) {
        if (INTERVAL != NGX_CONF_UNSET) {
            if (i + 1 - w_last > (long) INTERVAL / 1000) {
                w_stop();
                w_now = i + 1;
                w_start();
            }
        } else if (!w_fail) {
            w_start();
        }
    }
    if (!w_open) {
        return;
    }
    if ((RFLAGS & NGX_RTMP_RECORD_MANUAL) && !starts && w_frames == 0) {
        return;                     /* a manual record waits for a picture to start with */
    }
    if (video ? !(RFLAGS & NGX_RTMP_RECORD_VIDEO) && !((RFLAGS & NGX_RTMP_RECORD_KEYFRAMES) && key)
              : !(RFLAGS & NGX_RTMP_RECORD_AUDIO))
    {
        return;
    }
    if (!w_ini) {
        w_ini = 1;
        w_t0 = ts[i];
        if (wlen == 0) {
            for (j = 0; j < (int) sizeof(flv); j++) {
                put(flv[j]);
            }
        } else {
            /* goes on at the time of the last tag */
            t = (uint32_t) want[13 + 7] << 24 | (uint32_t) want[13 + 4] << 16 | (uint32_t) want[13 + 5] << 8 | want[13 + 6];
            w_t0 = ts[i] - t;
        }
    }
    if (!w_aac && cur_aac >= 0 && (RFLAGS & NGX_RTMP_RECORD_AUDIO)) {
        w_tag(cur_aac, 0, ts[i]);
        w_aac = 1;
    }
    if (!w_avc && cur_avc >= 0 && (RFLAGS & (NGX_RTMP_RECORD_VIDEO|NGX_RTMP_RECORD_KEYFRAMES))) {
        w_tag(cur_avc, 1, ts[i]);
        w_avc = 1;
    }
    if (video) {
        if (H264 && !w_avc) {
            return;
        }
        if (k == 3 || (k == 2 && !H264)) {
            w_key = 1;
        }
        if (!w_key) {
            return;
        }
    } else if (AAC && !w_aac) {
        return;
    }
    w_tag(i, video, ts[i]);
    w_frames++;
    if ((MAXFRAMES && w_frames >= MAXFRAMES) || (MAXSIZE && wlen >= MAXSIZE)) {
        w_stop();
    }
}

static void
same(void)
{
    if (ever) {
        return;
    }
    MUST(nopen == w_nopen && nclose == w_nclose && dones == nclose && (fdopen_ != 0) == w_open, "the record is open when it is to be");
    MUST(disklen == wlen, "the record has the tags it is to have");
}

static void
alike(void)
{
    long i;
    int  ok = 1;
    for (i = 0; i < wlen && !ever; i++) {
        ok = ok & (disk[i] == want[i]);
    }
    CHECK(ok, "the record is what it is to be");
}

void
vf_record(void)
{
    static const int        seq[] = { SEQ };
    ngx_rtmp_publish_t      pub;
    ngx_rtmp_close_stream_t cv;
    ngx_rtmp_stream_begin_t bv;
    ngx_rtmp_record_rec_ctx_t *r;
    ngx_rtmp_header_t       h;
    ngx_str_t               path;
    ngx_int_t               rc;
    int                     i, k, j, n;

    vf_init();
    vf_session(&S, sctx, &conn);
    conn.read = conn.write = &ev;
    conn.pool = &vf_pool;
    ngx_rtmp_record_module.ctx_index = 0;
    ngx_rtmp_codec_module.ctx_index = 2;
    vf_app_conf[0] = &top;
    top.rec.elts = nodes;
    top.rec.nelts = 1;
    top.interval = node.interval = INTERVAL;
    node.flags = RFLAGS;
    ngx_str_set(&node.path, "/r");
    ngx_str_set(&node.suffix, ".flv");
    node.append = APPEND;
    node.max_size = MAXSIZE;
    node.max_frames = MAXFRAMES;
    ngx_rtmp_record_done = m_done;
    next_publish = n_publish;
    next_close_stream = n_close;
    next_stream_begin = n_begin;
    next_stream_eof = n_begin;
    sctx[2] = &cctx;
    cctx.video_codec_id = H264 ? 7 : 2;
    cctx.audio_codec_id = AAC ? 10 : 2;
    vf_time.sec = 1000;

    if (APPEND == 2) {
        /* a record is there already: a header and a tag of two bytes */
        static const u_char flv[] = { 'F', 'L', 'V', 1, 5, 0, 0, 0, 9, 0, 0, 0, 0, 9, 0, 0, 2 };
        for (i = 0; i < (int) sizeof(flv); i++) {
            disk[i] = flv[i];
        }
        for (i = 0; i < 4; i++) {
            disk[17 + i] = ND8();
        }
        disk[21] = disk[22] = disk[23] = 0;
        disk[24] = ND8();
        disk[25] = ND8();
        disk[26] = disk[27] = disk[28] = 0;
        disk[29] = 13;
        disklen = 30;
        for (i = 0; i < 30; i++) {
            want[i] = disk[i];
        }
        wlen = 30;
    }
    n = sizeof(seq) / sizeof(seq[0]);
    for (i = 0; i < NF; i++) {
        for (j = 0; j < 4; j++) {
            data[i][j] = ND8();
        }
        ts[i] = ND32();
        /* in two buffers, and an empty one is not minded */
        fb[i][0].pos = data[i];
        fb[i][0].last = data[i] + 3;
        fb[i][1].pos = data[i] + 3;
        fb[i][1].last = data[i] + 4;
        fc[i][0].buf = &fb[i][0];
        fc[i][0].next = &fc[i][1];
        fc[i][1].buf = &fb[i][1];
        hdrs[i].chain = &fc[i][0];
    }
    if (KNOWN & 1) {
        cur_aac = 6;
        cctx.aac_header = &hdrs[6];
        data[6][0] = first_[1];
        data[6][1] = second_[1];
    }
    if (KNOWN & 2) {
        cur_avc = 7;
        cctx.avc_header = &hdrs[7];
        data[7][0] = first_[2];
        data[7][1] = second_[2];
    }
    memset(&pub, 0, sizeof(pub));
    pub.name[0] = 'c';
    pub.name[1] = 'a';
    pub.name[2] = 'm';
    rc = ngx_rtmp_record_publish(&S, &pub);
    CHECK(rc == NGX_OK && nexts == 1, "publishing goes on");
    if (!(RFLAGS & NGX_RTMP_RECORD_MANUAL)) {
        w_start();
    }
    r = rctx_room.c.rec.elts;
    same();
    for (i = 0; i < n; i++) {
        k = seq[i];
        vf_time.sec = 1000 + i + 1;
        w_now = i + 1;
        if (k < 0) {
            k = pick(-k);
        }
        if (k >= 10) {
            switch (k) {
            case 10:    /* record start */
                rc = ngx_rtmp_record_open(&S, 0, &path);
                CHECK(rc == (w_open ? NGX_AGAIN : NGX_OK), "a record is started when there is none");
                w_start();
                break;
            case 11:    /* record stop */
                rc = ngx_rtmp_record_close(&S, 0, &path);
                CHECK(rc == (w_open ? NGX_OK : NGX_AGAIN), "a record is stopped when there is one");
                w_stop();
                break;
            case 12:
                ngx_rtmp_record_stream_eof(&S, &bv);
                w_stop();
                break;
            case 13:
                ngx_rtmp_record_stream_begin(&S, &bv);
                if (!(RFLAGS & NGX_RTMP_RECORD_MANUAL)) {
                    w_start();
                }
                break;
            case 14:
                S.pause = !S.pause;
                break;
            }
            same();
            continue;
        }
        memset(&h, 0, sizeof(h));
        h.type = k < 2 ? NGX_RTMP_MSG_AUDIO : NGX_RTMP_MSG_VIDEO;
        h.mlen = 4;
        h.timestamp = ts[i];
        data[i][0] = first_[k];
        data[i][1] = second_[k];
        if (k == 1 && AAC) {
            cur_aac = i;
            cctx.aac_header = &hdrs[i];
        }
        if (k == 2 && H264) {
            cur_avc = i;
            cctx.avc_header = &hdrs[i];
        }
        rc = ngx_rtmp_record_av(&S, &h, hdrs[i].chain);
        CHECK(rc == NGX_OK, "the stream goes on");
        if (!S.pause) {
            w_frame(i, k);
        }
        same();
        if (i == n - 2) {
            alike();
        }
    }
    rc = ngx_rtmp_record_close_stream(&S, &cv);
    CHECK(rc == NGX_OK, "closing goes on");
    w_stop();
    same();
    alike();
    rc = ngx_rtmp_record_close_stream(&S, &cv);
    CHECK(rc == NGX_OK, "closing goes on");
    same();
    MUST(fdopen_ == 0 && r->file.fd == NGX_INVALID_FILE, "no record is left open");
    REACH("end");
}
