#include "vf.h"
#include "ngx_multiport_misc.c"
#include "ngx_stubs.h"

#ifndef TXT
#define TXT 9
#endif

static u_char  T[24];
static size_t  L;

static int
digits_value(u_char *p, size_t n, uint64_t *v)
{
    size_t i;
    *v = 0;
    if (n == 0) {
        return 0;
    }
    for (i = 0; i < n; i++) {
        if (p[i] < '0' || p[i] > '9') {
            return 0;
        }
        if (*v < 1000000) {
            *v = *v * 10 + (p[i] - '0');
        }
    }
    return 1;
}

/* out must be prefix T[0..pre) followed by the canonical decimal of v */
static void
check_out(ngx_str_t *out, size_t pre, uint64_t v)
{
    uint64_t  got;
    size_t    i;

    CHECK(out->len > pre, "the derived address has a port");
    for (i = 0; i < pre; i++) {
        CHECK(out->data[i] == T[i], "the host part is kept");
    }
    CHECK(digits_value(out->data + pre, out->len - pre, &got) && got == v,
          "the derived port is the base port plus the worker slot");
    CHECK(out->data[pre] != '0', "the derived port is canonical");
    CHECK(got >= 1 && got <= 65535, "the derived port is a port");
}

#ifndef PRE
#define PRE ""
#endif
#ifndef DIG
#define DIG 4
#endif
#ifndef V6
#define V6 0
#endif

/* host:port, port, [v6]:port: a fixed host part, then DIG arbitrary bytes */
void
vf_derive(void)
{
    ngx_str_t  in, out;
    ngx_int_t  slot, rc;
    size_t     i, d;
    uint64_t   v;
    int        ok;

    vf_init();
    d = sizeof(PRE) - 1;
    memcpy(T, PRE, d);
    ND_BYTES(T + d, DIG);
    L = d + DIG;
    slot = (ngx_int_t) ND64();
    if (d == 0) {
        for (i = 0; i < DIG; i++) {
            ASSUME(T[i] != ':' && T[i] != '[');
        }
    }
    in.data = T;
    in.len = L;
    out.len = 0;
    out.data = NULL;

    rc = ngx_multiport_get_port(&vf_pool, &out, &in, slot);

    ok = slot >= 0 && slot <= 127;
    if (!ok || !digits_value(T + d, DIG, &v) || v < 1 || v + slot > 65408) {
        CHECK(rc == NGX_ERROR, "what is not an address with a usable port is refused");
        return;
    }
    CHECK(rc == NGX_OK, "a usable address is accepted");
    check_out(&out, d, v + slot);
#if DIG
    REACH("derived");
#endif
}

/* MLEN arbitrary bytes: refused unless they are [host:]port with digits only */
#ifndef MLEN
#define MLEN 4
#endif
void
vf_malformed(void)
{
    ngx_str_t  in, out;
    size_t     i, from;
    uint64_t   v;

    vf_init();
    ND_BYTES(T, MLEN);
    in.data = T;
    in.len = L = MLEN;
    ASSUME(MLEN < 5 || (T[0] | 0x20) != 'u');
    from = 0;
    if (MLEN && T[0] == '[') {
        from = MLEN;
        for (i = MLEN; i-- > 0; ) {
            if (T[i] == ']') {
                from = i + 1 < MLEN && T[i + 1] == ':' ? i + 2 : MLEN;
            }
        }
    } else {
        for (i = MLEN; i-- > 0; ) {
            if (T[i] == ':') {
                from = i + 1;
            }
        }
    }
    ASSUME(!digits_value(T + from, MLEN - from, &v));
    CHECK(ngx_multiport_get_port(&vf_pool, &out, &in, ND_RANGE(0, 127)) == NGX_ERROR,
          "an address without a port is refused");
    REACH("malformed");
}

void
vf_unix(void)
{
    ngx_str_t  in, out;
    ngx_int_t  slot;
    size_t     i;
    uint64_t   v;

    vf_init();
    memcpy(T, "unix:", 5);
    ND_BYTES(T + 5, DIG);
    in.data = T;
    in.len = L = 5 + DIG;
    slot = ND_RANGE(0, 127);
    CHECK(ngx_multiport_get_port(&vf_pool, &out, &in, slot) == NGX_OK, "a unix address is accepted");
    CHECK(out.len > L + 1 && out.len <= L + 4 && out.data[L] == '.', "the slot follows the path");
    for (i = 0; i < L; i++) {
        CHECK(out.data[i] == T[i], "the path is kept");
    }
    CHECK(digits_value(out.data + L + 1, out.len - L - 1, &v) && v == (uint64_t) slot, "the suffix is the slot");
    CHECK(out.data[L + 1] != '0' || slot == 0, "the suffix is canonical");
    CHECK(out.data[out.len] == '\0', "the path is terminated");
    REACH("unix");
}

/* the largest numbers that parse at all */
void
vf_huge(void)
{
    ngx_str_t  in, out;
    size_t     i;

    vf_init();
    in.data = T;
    in.len = 19;
    for (i = 0; i < 19; i++) {
        T[i] = ND8();
        ASSUME(T[i] >= '0' && T[i] <= '9');
    }
    ASSUME(T[0] == '9' && T[1] == '2');
    CHECK(ngx_multiport_get_port(&vf_pool, &out, &in, ND_RANGE(0, 127)) == NGX_ERROR,
          "a number beyond any port is refused");
    REACH("huge");
}
