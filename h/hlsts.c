/* C13: MPEG-TS files written for HLS and records */
#include "vf.h"
#define VF_MEM_LOOP
#include <ngx_config.h>
#include <ngx_core.h>
#include <openssl/aes.h>
#ifndef L0
#define L0 1
#endif
#ifndef L1
#define L1 4
#endif
#ifndef KEY
#define KEY 1
#endif
#ifndef BF
#define BF 1        /* pts differs from dts */
#endif
#ifndef ENC
#define ENC 0
#endif
#define MAXO 2048
#ifndef CC
#define CC 12
#endif

ngx_int_t      NGX_RTMP_HEVC_CODEC_ID = 12;
static u_char  out[MAXO];
static int     on, fail_at = -1, writes, opened, closed;

static int
vf_open(const char *p, int flags, int mode)
{
    opened++;
    return 5;
}
static int vf_close(int fd) { CHECK(fd == 5, "the file that was opened is closed"); closed++; return 0; }
static ssize_t
vf_write(int fd, const void *b, size_t n)
{
    size_t i;
    CHECK(fd == 5, "written to the file that was opened");
    if (writes++ == fail_at) {
        return -1;
    }
    MUST(on + n <= MAXO, "harness: room for the output");
    for (i = 0; i < n; i++) {
        out[on++] = ((u_char *) b)[i];
    }
    return n;
}
#define ngx_write_fd vf_write
#undef ngx_open_file
#define ngx_open_file(name, mode, create, access) vf_open((const char *) name, mode | create, access)
#undef ngx_close_file
#define ngx_close_file vf_close
#include "ngx_rtmp_mpegts.c"
#include "ngx_stubs.h"

/* a cipher that can be undone: each block is its bytes with a mark, and says
 * how many blocks came before */
static int  blocks;
int AES_set_encrypt_key(const unsigned char *key, const int bits, AES_KEY *k) { CHECK(bits == 128, "size of the key"); return 0; }
void
AES_cbc_encrypt(const unsigned char *in, unsigned char *o, size_t n, const AES_KEY *k, unsigned char *iv, const int enc)
{
    size_t i;
    CHECK(n % 16 == 0 && enc == AES_ENCRYPT, "whole blocks are encrypted");
    for (i = 0; i < n; i++) {
        o[i] = in[i] ^ 0x5a ^ (blocks + i / 16);
    }
    blocks += n / 16;
}

static u_char                   data[L1 + 1];
static ngx_rtmp_mpegts_file_t   F;

static uint64_t
stamp(u_char *p, int mark)
{
    CHECK((p[0] >> 4) == mark && (p[0] & 1) && (p[2] & 1) && (p[4] & 1), "form of a time stamp");
    return (uint64_t) (p[0] & 0x0e) << 29 | (uint64_t) p[1] << 22 | (uint64_t) (p[2] & 0xfe) << 14 | (uint64_t) p[3] << 7 | p[4] >> 1;
}

#define M33 ((1ULL << 33) - 1)

static ssize_t h_write(ngx_rtmp_mpegts_file_t *f, u_char *in, size_t n) { return vf_write(5, in, n); }

static void
one(int L)
{
    ngx_rtmp_mpegts_frame_t  f;
    ngx_buf_t                b;
    ngx_uint_t               cc0, cc;
    ngx_int_t                rc;
    uint64_t                 pcr;
    u_char                   pes[24], *p;
    int                      i, n, pos, got, hdr, af;

    on = 0;
    writes = 0;
    memset(&F, 0, sizeof(F));
    memset(&f, 0, sizeof(f));
    memset(&b, 0, sizeof(b));
    F.fd = 5;
    F.log = &vf_log;
#ifdef HANDLE
    F.whandle = h_write;
#endif
    for (i = 0; i < L; i++) {
        data[i] = ND8();
    }
    b.start = b.pos = data;
    b.last = b.end = data + L;
    f.pid = ND16() & 0x1fff;
    f.sid = ND8();
    f.cc = cc0 = CC + 5 * L;
    f.key = KEY;
#ifdef STAMPS
    f.dts = ND64();
    f.pts = f.dts;
    if (BF) {
        f.pts = ND64();
        ASSUME(f.pts != f.dts);
    }
#else
    f.dts = 0x1fff00000ULL + 7919 * L;
    f.pts = f.dts + (BF ? 7200 : 0);
#endif
    rc = ngx_rtmp_mpegts_write_frame(&F, &f, &b);
    CHECK(rc == NGX_OK && b.pos == b.last, "a frame is written whole");
    MUST(on % 188 == 0, "a file is whole packets");
#ifndef HANDLE
    CHECK(F.file_size == on, "the size of the file is what was written");
#endif
    n = on / 188;
    CHECK(f.cc == cc0 + n, "the counter goes on after the frame");
    hdr = BF ? 19 : 14;
    got = 0;
    for (i = 0; i < n; i++) {
        p = out + 188 * i;
        cc = cc0 + 1 + i;
        CHECK(p[0] == 0x47, "a packet starts with its mark");
        CHECK(p[1] == ((f.pid >> 8) | (i == 0 ? 0x40 : 0)) && p[2] == (f.pid & 255), "pid of a packet, and its first one marked");
        CHECK((p[3] & 0xd0) == 0x10 && (p[3] & 0x0f) == (cc & 0x0f), "counter of a packet");
        pos = 4;
        if (p[3] & 0x20) {
            af = p[4];
            MUST(af <= 183, "an adaptation field is inside its packet");
            pos = 5 + af;
            if (KEY && i == 0) {
                MUST(af >= 7, "room for the clock");
                CHECK(p[5] == 0x50, "a key frame is marked and has a clock");
                pcr = (uint64_t) p[6] << 25 | (uint64_t) p[7] << 17 | (uint64_t) p[8] << 9 | (uint64_t) p[9] << 1 | p[10] >> 7;
                CHECK(pcr == ((f.dts - 63000) & M33), "clock of a key frame");
                CHECK((p[10] & 0x7e) == 0x7e && !(p[10] & 1) && p[11] == 0, "form of the clock");
                af = 12;
            } else {
                CHECK(af == 0 || p[5] == 0, "nothing else is in an adaptation field");
                af = 6;
            }
            for ( ; af < pos; af++) {
                CHECK(p[af] == 0xff, "the rest of an adaptation field is stuffing");
            }
        } else {
            CHECK(!(KEY && i == 0), "a key frame has a clock");
        }
        for ( ; pos < 188; pos++) {
            if (got < hdr) {
                pes[got] = p[pos];
            } else {
                MUST(got - hdr < L, "no more payload than the frame has");
                CHECK(p[pos] == data[got - hdr], "payload of the frame");
            }
            got++;
        }
    }
    MUST(got == hdr + L, "the whole frame is in the packets");
    CHECK(pes[0] == 0 && pes[1] == 0 && pes[2] == 1 && pes[3] == f.sid, "start of the frame");
    CHECK((pes[4] << 8 | pes[5]) == L + hdr - 6, "length of the frame");
    CHECK((pes[6] & 0xc0) == 0x80 && pes[7] == (BF ? 0xc0 : 0x80) && pes[8] == hdr - 9, "time stamps that are there");
    CHECK(stamp(pes + 9, BF ? 3 : 2) == ((f.pts + 63000) & M33), "presentation time");
    if (BF) {
        CHECK(stamp(pes + 14, 1) == ((f.dts + 63000) & M33), "decoding time");
    }
}

void
vf_frame(void)
{
    int L;
    vf_init();
    for (L = L0; L < L1; L++) {
        one(L);
    }
    REACH("end");
}

/* the CRC of MPEG: x^32 + x^26 + ... bit by bit */
static uint32_t
crc_bits(uint32_t c, u_char b)
{
    int i;
    c ^= (uint32_t) b << 24;
    for (i = 0; i < 8; i++) {
        c = c & 0x80000000 ? c << 1 ^ 0x04c11db7 : c << 1;
    }
    return c;
}

void
vf_crc(void)
{
    u_char   d[1], r[4];
    uint32_t c, want;
    int      i;
    vf_init();
    /* every byte: the table is the polynomial, and the CRC is over all bytes */
    d[0] = ND8();
    c = ngx_rtmp_mpegts_crc32(r, d, 1);
    want = crc_bits(0xffffffff, d[0]);
    CHECK(c == want, "checksum of a byte");
    CHECK(((uint32_t) r[0] << 24 | r[1] << 16 | r[2] << 8 | r[3]) == want, "a checksum is written high byte first");
    REACH("end");
}

static uint32_t
section_crc(u_char *p, int n)
{
    uint32_t c = 0xffffffff;
    int i;
    for (i = 0; i < n; i++) {
        c = crc_bits(c, p[i]);
    }
    return c;
}

#ifndef VC
#define VC 7
#endif
#ifndef AC
#define AC 10
#endif

/* program tables for every pair of codecs */
void
vf_tables(void)
{
    u_char *p;
    int     i, n, v, a, vt, at, es, nes, seen_v, seen_a, pmt_pid;

    vf_init();
    memset(&F, 0, sizeof(F));
    F.fd = 5;
    F.log = &vf_log;
    F.vcodec = VC;
    F.acodec = AC;
    vt = VC == NGX_RTMP_VIDEO_H264 ? 0x1b : VC == NGX_RTMP_HEVC_CODEC_ID ? 0x24 : 0;
    at = AC == NGX_RTMP_AUDIO_AAC ? 0x0f : AC == NGX_RTMP_AUDIO_MP3 ? 0x03 : 0;
    v = ngx_rtmp_mpegts_open_file(&F, (u_char *) "x", &vf_log);
    if (VC == 0 && AC == 0) {
        CHECK(v == NGX_ERROR && closed == 1, "a file needs a codec");
        goto end;
    }
    MUST(v == NGX_OK && on == 376 && opened == 1, "a file starts with two tables");
    p = out;
    MUST(p[0] == 0x47 && p[1] == 0x40 && p[2] == 0 && p[3] == 0x10 && p[4] == 0 && p[5] == 0, "the program table is on pid 0");
    n = (p[6] & 0x0f) << 8 | p[7];
    MUST((p[6] & 0xf0) == 0xb0 && n == 13, "length of the program table");
    CHECK(section_crc(p + 5, n + 3) == 0, "checksum of the program table");
    CHECK((p[13] << 8 | p[14]) == 1, "one program");
    pmt_pid = (p[15] & 0x1f) << 8 | p[16];
    for (i = 8 + n; i < 188; i++) {
        CHECK(p[i] == 0xff, "the rest of a table packet is stuffing");
    }
    p = out + 188;
    MUST(p[0] == 0x47 && (p[1] & 0xe0) == 0x40 && ((p[1] & 0x1f) << 8 | p[2]) == pmt_pid && p[3] == 0x10 && p[4] == 0 && p[5] == 2, "the stream table is where the program table says");
    n = (p[6] & 0x0f) << 8 | p[7];
    MUST((p[6] & 0xf0) == 0xb0 && n == 13 + 5 * ((vt != 0) + (at != 0)), "length of the stream table");
    CHECK(section_crc(p + 5, n + 3) == 0, "checksum of the stream table");
    CHECK(((p[13] & 0x1f) << 8 | p[14]) == 0x100, "the clock is on the pid of video");
    nes = (n - 13) / 5;
    seen_v = seen_a = 0;
    for (i = 0; i < nes; i++) {
        es = 17 + 5 * i;
        a = (p[es + 1] & 0x1f) << 8 | p[es + 2];
        if (p[es] == vt && a == 0x100) {
            seen_v++;
        } else if (p[es] == at && a == 0x101) {
            seen_a++;
        } else {
            CHECK(0, "only the codecs of the stream are in the table");
        }
        CHECK(((p[es + 3] & 0x0f) << 8 | p[es + 4]) == 0, "no descriptors");
    }
    CHECK(seen_v == (vt != 0) && seen_a == (at != 0), "each codec of the stream is in the table");
    for (i = 8 + n; i < 188; i++) {
        CHECK(p[i] == 0xff, "the rest of a table packet is stuffing");
    }
end:
    REACH("end");
}

/* any pieces through the cipher */
#ifndef PIECES
#define PIECES 5, 16, 3
#endif
void
vf_cipher(void)
{
    static const int pieces[] = { PIECES };
    static u_char    in[MAXO];
    u_char           key[16];
    int              i, k, n, pad;

    vf_init();
    memset(&F, 0, sizeof(F));
    F.fd = 5;
    F.log = &vf_log;
    F.log = &vf_log;
    CHECK(ngx_rtmp_mpegts_init_encryption(&F, key, 16, 0x0102030405060708ULL) == NGX_OK, "the key is taken");
    for (i = 0; i < 16; i++) {
        CHECK(F.iv[i] == (i < 8 ? 0 : i - 7), "the number of the file starts the cipher");
    }
    n = 0;
    for (i = 0; i < (int) (sizeof(pieces) / sizeof(int)); i++) {
        for (k = 0; k < pieces[i]; k++) {
            in[n + k] = pieces[i] > 200 ? k : ND8();
        }
        MUST(ngx_rtmp_mpegts_write_file(&F, in + n, pieces[i]) == NGX_OK, "a piece is taken");
        n += pieces[i];
    }
    MUST(ngx_rtmp_mpegts_close_file(&F) == NGX_OK && closed == 1, "the file is closed");
    pad = 16 - n % 16;
    MUST(on == n + pad, "the file is whole blocks with one to sixteen bytes added");
    for (i = 0; i < on; i++) {
        CHECK((out[i] ^ 0x5a ^ ((i / 16) & 0xff)) == (i < n ? in[i] : pad), "the file is its content, each block once and in order");
    }
    REACH("end");
}

/* a write that fails is an error, and a file that could not be started is closed */
void
vf_fail(void)
{
    ngx_rtmp_mpegts_frame_t  f;
    ngx_buf_t                b;
    u_char                   key[16];
    int                      i, k, enc;

    vf_init();
    for (enc = 0; enc < 2; enc++) {
        for (k = 0; k < 2; k++) {
            memset(&F, 0, sizeof(F));
            F.vcodec = 7;
            on = writes = opened = closed = 0;
            fail_at = k;
            if (enc) {
                CHECK(ngx_rtmp_mpegts_init_encryption(&F, key, 16, 1) == NGX_OK, "the key is taken");
            }
            CHECK(ngx_rtmp_mpegts_open_file(&F, (u_char *) "x", &vf_log) == NGX_ERROR && opened == 1 && closed == 1 && writes == k + 1, "a file that cannot be started is an error and is closed");
        }
    }
    for (k = 0; k < 3; k++) {
        memset(&F, 0, sizeof(F));
        memset(&f, 0, sizeof(f));
        memset(&b, 0, sizeof(b));
        F.fd = 5;
        F.log = &vf_log;
        on = writes = 0;
        fail_at = k;
        for (i = 0; i < 400; i++) {
            out[MAXO - 400 + i] = i;
        }
        b.pos = out + MAXO - 400;
        b.last = out + MAXO;
        CHECK(ngx_rtmp_mpegts_write_frame(&F, &f, &b) == NGX_ERROR && writes == k + 1, "a packet that cannot be written is an error");
    }
    REACH("end");
}

/* the length of a frame that does not fit its field is said to be open */
static u_char  big[70000];
static ssize_t h_first(ngx_rtmp_mpegts_file_t *f, u_char *in, size_t n) { int i; for (i = 0; i < 188; i++) out[i] = in[i]; return -1; }

void
vf_long(void)
{
    static const int         len[] = { 65520, 65526, 65527, 65528, 65532, 65533, 65536, 65700 };
    ngx_rtmp_mpegts_frame_t  f;
    ngx_buf_t                b;
    int                      k, bf, want;

    vf_init();
    for (k = 0; k < (int) (sizeof(len) / sizeof(int)); k++) {
        for (bf = 0; bf < 2; bf++) {
            memset(&F, 0, sizeof(F));
            memset(&f, 0, sizeof(f));
            memset(&b, 0, sizeof(b));
            F.whandle = h_first;
            F.log = &vf_log;
            f.pts = bf;
            b.pos = big;
            b.last = big + len[k];
            CHECK(ngx_rtmp_mpegts_write_frame(&F, &f, &b) == NGX_ERROR, "a packet that is not taken is an error");
            want = len[k] + (bf ? 13 : 8);
            if (want > 65535) {
                want = 0;
            }
            CHECK((out[8] << 8 | out[9]) == want, "length of a long frame");
        }
    }
    REACH("end");
}
