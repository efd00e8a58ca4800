/* C12: the reader of bits */
#include "vf.h"
#define VF_MEM_LOOP
#include <ngx_config.h>
#include <ngx_core.h>
#include "ngx_rtmp_bitop.c"
#include "ngx_stubs.h"

#ifndef LEN
#define LEN 4
#endif
#ifndef WIDTHS
#define WIDTHS 1, 3, 9, 8, 2
#endif

static int bit(u_char *p, int k) { return p[k / 8] >> (7 - k % 8) & 1; }

void
vf_bits(void)
{
    static const int       w[] = { WIDTHS };
    ngx_rtmp_bit_reader_t  br;
    u_char                 d[LEN];
    uint64_t               v, want;
    int                    i, k, at = 0;

    vf_init();
    for (i = 0; i < LEN; i++) {
        d[i] = ND8();
    }
    ngx_rtmp_bit_init_reader(&br, d, d + LEN);
    for (i = 0; i < (int) (sizeof(w) / sizeof(int)); i++) {
        v = ngx_rtmp_bit_read(&br, w[i]);
        if (at + w[i] > 8 * LEN) {
            CHECK(br.err && v == 0, "bits that are not there are an error");
            at = 8 * LEN;
            continue;
        }
        want = 0;
        for (k = 0; k < w[i]; k++) {
            want = want << 1 | bit(d, at + k);
        }
        at += w[i];
        CHECK(v == want && !br.err, "bits are read in order");
        CHECK(ngx_rtmp_bit_read_eof(&br) == (at == 8 * LEN), "end of the bits");
    }
    REACH("end");
}

/* every code in LEN bytes after SKIP bits */
#ifndef SKIP
#define SKIP 0
#endif
void
vf_golomb(void)
{
    ngx_rtmp_bit_reader_t  br;
    u_char                 d[LEN];
    uint64_t               v, want, next, w2;
    int                    i, k, n, end;

    vf_init();
    for (i = 0; i < LEN; i++) {
        d[i] = ND8();
    }
    ngx_rtmp_bit_init_reader(&br, d, d + LEN);
    if (SKIP) {
        ngx_rtmp_bit_read(&br, SKIP);
    }
    n = 8 * LEN;
    for (k = 8 * LEN - 1; k >= SKIP; k--) {
        if (bit(d, k)) {
            n = k - SKIP;
        }
    }
    v = ngx_rtmp_bit_read_golomb(&br);
    end = SKIP + 2 * n + 1;
    if (n == 8 * LEN || end > 8 * LEN) {
        CHECK(br.err, "a code that is cut off is an error");
    } else {
        want = 0;
        for (k = 0; k < 8 * LEN; k++) {
            if (k >= SKIP + n && k < end) {
                want = want << 1 | bit(d, k);
            }
        }
        CHECK(!br.err && v == want - 1, "value of a code");
        next = ngx_rtmp_bit_read(&br, 1);
        w2 = 0;
        for (k = 0; k < 8 * LEN; k++) {
            if (k == end) {
                w2 = bit(d, k);
            }
        }
        CHECK(end == 8 * LEN ? br.err : (next == w2 && !br.err), "the next bit is the one after the code");
    }
    REACH("end");
}

/* zeros without end */
void
vf_zeros(void)
{
    static u_char          d[12];
    ngx_rtmp_bit_reader_t  br;
    vf_init();
    d[11] = ND8();
    ngx_rtmp_bit_init_reader(&br, d, d + 12);
    ngx_rtmp_bit_read_golomb(&br);
    CHECK(br.err, "a code too long is an error");
    REACH("end");
}
