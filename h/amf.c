/* C03: reading AMF from a peer; C04: AMF written is AMF read */
#include "vf.h"
#define VF_MEM_KILL
#define VF_CHAINBUF_SPOIL
#include "ngx_rtmp_shared_module.c"
#ifndef KEEP_DEBUG      /* ngx_rtmp_amf_debug() has its own query */
#undef NGX_DEBUG
#endif
#include "ngx_rtmp_amf.c"
#include "ngx_rtmp_receive.c"
#include "ngx_rtmp_send.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

#ifndef BS
#define BS 5        /* bytes in each buffer */
#endif
#ifndef VALUES
#define VALUES 2    /* values inside these */
#endif
#ifndef SEQ
#define SEQ -1      /* types of the values in the input, -1 any */
#endif
#ifndef KEYS
#define KEYS 5      /* how many of the keys below are used */
#endif
#ifndef TYPES
#define TYPES 12    /* how many of the types below are used inside */
#endif
#ifndef TRUNC
#define TRUNC 0
#endif
#ifndef LIST
#define LIST 0
#endif
#define MAXW 120

ngx_module_t  ngx_rtmp_core_module;
static ngx_rtmp_shared_conf_t    rscf;
static ngx_rtmp_core_srv_conf_t  cscf;
static ngx_rtmp_core_main_conf_t cmcf;
static void                     *conf_ctx[1];
static ngx_rtmp_session_t        S;
static ngx_connection_t          C;

/* stand-ins for what these files call elsewhere */
ngx_int_t ngx_rtmp_send_message(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f, ngx_uint_t priority) { return NGX_OK; }
ngx_int_t ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size) { return NGX_OK; }
void ngx_rtmp_reset_ping(ngx_rtmp_session_t *s) { }
ngx_rtmp_stream_begin_pt ngx_rtmp_stream_begin;
ngx_rtmp_stream_eof_pt   ngx_rtmp_stream_eof;
ngx_rtmp_stream_dry_pt   ngx_rtmp_stream_dry;
ngx_rtmp_set_buflen_pt   ngx_rtmp_set_buflen;
ngx_rtmp_recorded_pt     ngx_rtmp_recorded;
char *ngx_rtmp_message_type(uint8_t t) { return ""; }
char *ngx_rtmp_user_message_type(uint16_t t) { return ""; }
void *ngx_hash_find(ngx_hash_t *h, ngx_uint_t k, u_char *n, size_t l) { return NULL; }
ngx_int_t ngx_rtmp_receive_message(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in) { return NGX_OK; }

static void
setup(void)
{
    vf_init();
    vf_session(&S, NULL, &C);
    conf_ctx[0] = &rscf;
    vf_cycle.conf_ctx = (void ****) conf_ctx;
    ngx_rtmp_shared_module.index = 0;
    rscf.pool = &vf_pool;
    vf_main_conf[0] = &cmcf;
    vf_srv_conf[0] = &cscf;
    cscf.chunk_size = BS;
}

/* a constant on each path */
static int
pick(int n)
{
    int v, i;
    v = ND8();
    ASSUME(v < n);
    for (i = 0; i < n - 1; i++) {
        if (v == i) {
            break;
        }
    }
    return i;
}

/* ---- the bytes of the peer: any sequence of values ---- */
static u_char  w[MAXW];
static int     wn, budget;

static void put(int b) { MUST(wn < MAXW, "harness: room for the input"); w[wn++] = b; }
static void put_any(int n) { while (n-- > 0) { put(ND8()); } }

static const char *keys[] = { "a", "bb", "ccc", "b", "dddd" };

static void gen(int depth, int first);

static void
gen_object(int depth)
{
    int i, k, n;

    for (i = 0; i < 3; i++) {
        if (budget == 0) {
            break;
        }
        k = pick(KEYS + 1);
        if (k == KEYS) {
            break;
        }
        n = strlen(keys[k]);
        put(0); put(n);
        for (int j = 0; j < n; j++) {
            put(keys[k][j]);
        }
        gen(depth + 1, -1);
    }
    put(0); put(0);
    put(9);
}

static void
gen(int depth, int first)
{
    /* what a value can start with; 4 and 11 stand for all unknown types */
    static const u_char types[] = { 0, 1, 2, 3, 5, 6, 8, 9, 10, 4, 11, 255 };
    int t, n, i;

    if (depth) {
        budget--;
    }
    t = first >= 0 ? first : pick(depth == 0 ? 12 : depth == 1 ? TYPES : 5);
    put(types[t]);
    switch (types[t]) {
    case 0:
        put_any(8);
        break;
    case 1:
        put_any(1);
        break;
    case 2:
        n = depth == 0 ? 5 : pick(4);
        n = n == 3 ? 5 : n;
        put(0); put(n);
        put_any(n);
        break;
    case 8:
        put_any(4);
        /* fall through */
    case 3:
        gen_object(depth);
        break;
    case 10:
        n = pick(4);
        if (n == 3) {
            put_any(1);
            put(1); put(0); put(2);
            n = 1;
        } else {
            put(0); put(0); put(0); put(n);
        }
        for (i = 0; i < n && budget > 0; i++) {
            gen(depth + 1, -1);
        }
        break;
    default:
        break;
    }
}

/* ---- what is asked for ---- */
static u_char    num[8], onum[8], anum[8], vnum[8];
static u_char    str[4], ostr[3], astr[2], vstr[3], obool, boolean;

static ngx_rtmp_amf_elt_t variants[] = {
    { NGX_RTMP_AMF_NUMBER, ngx_null_string, vnum, sizeof(vnum) },
    { NGX_RTMP_AMF_STRING, ngx_null_string, vstr, sizeof(vstr) },
};
static ngx_rtmp_amf_elt_t obj[] = {
    { NGX_RTMP_AMF_NUMBER, ngx_string("a"), onum, 0 },
    { NGX_RTMP_AMF_STRING, ngx_string("bb"), ostr, sizeof(ostr) },
    { NGX_RTMP_AMF_BOOLEAN, ngx_string("ccc"), &obool, 0 },
    { NGX_RTMP_AMF_VARIANT, ngx_string("b"), variants, sizeof(variants) },
};
static ngx_rtmp_amf_elt_t arr[] = {
    { NGX_RTMP_AMF_NUMBER, ngx_null_string, anum, 0 },
    { NGX_RTMP_AMF_STRING, ngx_null_string, astr, sizeof(astr) },
};
static ngx_rtmp_amf_elt_t list[] = {
#if LIST == 0
    { NGX_RTMP_AMF_STRING, ngx_null_string, str, sizeof(str) },
    { NGX_RTMP_AMF_NUMBER, ngx_null_string, num, 0 },
    { NGX_RTMP_AMF_OBJECT, ngx_null_string, obj, sizeof(obj) },
#elif LIST == 1
    { NGX_RTMP_AMF_OBJECT, ngx_null_string, obj, sizeof(obj) },
    { NGX_RTMP_AMF_OPTIONAL | NGX_RTMP_AMF_STRING, ngx_null_string, str, sizeof(str) },
#elif LIST == 2
    { NGX_RTMP_AMF_MIXED_ARRAY, ngx_null_string, obj, sizeof(obj) },
    { NGX_RTMP_AMF_ARRAY, ngx_null_string, arr, sizeof(arr) },
#else
    { NGX_RTMP_AMF_ARRAY, ngx_null_string, arr, sizeof(arr) },
    { NGX_RTMP_AMF_BOOLEAN, ngx_null_string, &boolean, 0 },
#endif
};
#define NLIST ((int) (sizeof(list) / sizeof(list[0])))

/* ---- the same, read from the flat input by the rules of AMF0 ---- */
static u_char    r_num[8], r_onum[8], r_anum[8], r_vnum[8];
static u_char    r_str[4], r_ostr[3], r_astr[2], r_vstr[3], r_obool, r_boolean;
static int       at, end, loose;

static void *
twin(void *p)
{
    if (p == num) return r_num;
    if (p == onum) return r_onum;
    if (p == anum) return r_anum;
    if (p == vnum) return r_vnum;
    if (p == str) return r_str;
    if (p == ostr) return r_ostr;
    if (p == astr) return r_astr;
    if (p == vstr) return r_vstr;
    if (p == &obool) return &r_obool;
    return &r_boolean;
}

/* 0 read, 1 the list ends here, -1 error */
static int
ref_value(ngx_rtmp_amf_elt_t *e)
{
    int     t, n, i, k, m, match, isvar;
    u_char *d;
    ngx_rtmp_amf_elt_t *kids, *v;

    isvar = e && (e->type & NGX_RTMP_AMF_TYPELESS);
    if (at >= end) {
        return (e && (e->type & NGX_RTMP_AMF_OPTIONAL)) ? 1 : -1;
    }
    t = w[at++];
    v = e;
    if (isvar) {
        match = 0;
        kids = e->data;
        m = e->len / sizeof(*e);
        v = NULL;
        for (i = 0; i < m; i++) {
            if (kids[i].type == t) {
                v = &kids[i];
            }
        }
        match = v != NULL;
    } else {
        k = e ? e->type & 0xff : -1;
        match = e && (k == t || (k == 3 && t == 8) || (k == 8 && t == 3));
    }
    if (t == 0) {
        if (end - at < 8) return -1;
        if (match) {
            d = twin(v->data);
            for (i = 0; i < 8; i++) d[i] = w[at + 7 - i];
        }
        at += 8;
        return 0;
    }
    if (t == 1) {
        if (end - at < 1) return -1;
        if (match) *(u_char *) twin(v->data) = w[at];
        at++;
        return 0;
    }
    if (t == 2) {
        if (end - at < 2) return -1;
        n = w[at] << 8 | w[at + 1];
        at += 2;
        if (end - at < n) { return -1; }
        if (match) {
            d = twin(v->data);
            for (i = 0; i < n && i < (int) v->len - 1; i++) d[i] = w[at + i];
            d[i] = 0;
        }
        at += n;
        return 0;
    }
    if (t == 5 || t == 6) {
        return 0;
    }
    if (t == 9) {
        return 1;
    }
    if (t == 3 || t == 8) {
        if (t == 8) {
            if (end - at < 4) return -1;
            at += 4;
        }
        kids = match ? v->data : NULL;
        m = match ? v->len / sizeof(*e) : 0;
        for ( ;; ) {
            if (end - at < 2) {
                loose = 1;      /* accepted, what follows is not said */
                return 0;
            }
            n = w[at] << 8 | w[at + 1];
            at += 2;
            if (n == 0) {
                break;
            }
            if (end - at < n) return -1;
            v = NULL;
            for (i = 0; i < m && !v; i++) {
                if ((int) kids[i].name.len == n) {
                    for (k = 0; k < n && kids[i].name.data[k] == w[at + k]; k++) { }
                    if (k == n) v = &kids[i];
                }
            }
            at += n;
            if (ref_value(v) < 0) return -1;
            if (loose) return 0;
        }
        if (end - at < 1 || w[at] != 9) return -1;
        at++;
        return 0;
    }
    if (t == 10) {
        if (end - at < 4) return -1;
        n = w[at] | w[at + 1] || w[at + 2] ? 1000 : w[at + 3];
        at += 4;
        kids = match ? v->data : NULL;
        m = match ? v->len / sizeof(*e) : 0;
        for (i = 0; i < n; i++) {
            if (ref_value(i < m ? &kids[i] : NULL) < 0) return -1;
            if (loose) return 0;
        }
        return 0;
    }
    return -1;
}

static int
ref_list(void)
{
    int i, rc;
    for (i = 0; i < NLIST; i++) {
        rc = ref_value(&list[i]);
        if (rc < 0) return NGX_ERROR;
        if (rc > 0 || loose) return NGX_OK;
    }
    return NGX_OK;
}

static ngx_chain_t  wc[MAXW / 3 + 1];
static ngx_buf_t    wb[MAXW / 3 + 1];
static u_char       wm[MAXW];

static ngx_chain_t *
as_chain(int n)
{
    int i, k;

    for (i = 0; i < n; i++) {
        wm[i] = w[i];
    }
    k = 0;
    for (i = 0; i == 0 || i < n; i += BS) {
        wb[k].start = wb[k].pos = wm + i;
        wb[k].last = wb[k].end = wm + (i + BS < n ? i + BS : n);
        wc[k].buf = &wb[k];
        wc[k].next = NULL;
        if (k) {
            wc[k - 1].next = &wc[k];
        }
        k++;
    }
    return wc;
}

static uint64_t
dirty(void *p, void *r, int n)
{
    for (int i = 0; i < n; i++) {
        ((u_char *) p)[i] = ((u_char *) r)[i] = 0xa0 + i;
    }
    return 0;
}

static void
same(void *p, void *r, int n)
{
    for (int i = 0; i < n; i++) {
        CHECK(((u_char *) p)[i] == ((u_char *) r)[i], "a value asked for is what the peer sent for it, any other is left alone");
    }
}

void
vf_read(void)
{
    static const int seq[] = { SEQ };
    int        i, rc;
    ngx_int_t  got;

    setup();
    dirty(num, r_num, 8); dirty(onum, r_onum, 8); dirty(anum, r_anum, 8); dirty(vnum, r_vnum, 8);
    dirty(str, r_str, 4); dirty(ostr, r_ostr, 3); dirty(astr, r_astr, 2); dirty(vstr, r_vstr, 3);
    dirty(&obool, &r_obool, 1); dirty(&boolean, &r_boolean, 1);
    budget = VALUES;
    for (i = 0; i < (int) (sizeof(seq) / sizeof(seq[0])); i++) {
        gen(0, seq[i]);
    }
    end = wn;
#if TRUNC
    end = pick(wn + 1);
#endif
    rc = ref_list();
    got = ngx_rtmp_receive_amf(&S, as_chain(end), list, NLIST);
    CHECK(got == rc, "AMF is accepted when it is well formed and has what is asked for");
    if (got == NGX_OK && !loose) {
        same(num, r_num, 8); same(onum, r_onum, 8); same(anum, r_anum, 8); same(vnum, r_vnum, 8);
        same(str, r_str, 4); same(ostr, r_ostr, 3); same(astr, r_astr, 2); same(vstr, r_vstr, 3);
        same(&obool, &r_obool, 1); same(&boolean, &r_boolean, 1);
    }
    REACH("end");
}

/* objects and arrays inside each other, deeper than any stack should follow */
#define R5(x) x x x x x
#define R25(x) R5(x) R5(x) R5(x) R5(x) R5(x)
#ifdef ARRAYS
#define NEST "\12\0\0\0\1"
#else
#define NEST "\3\0\1a"
#endif
void
vf_deep(void)
{
    static const u_char  text[] = R25(NEST) R25(NEST) R25(NEST);
    static ngx_chain_t   c;
    static ngx_buf_t     b;

    setup();
    c.buf = &b;
    b.start = b.pos = (u_char *) text;
    b.last = b.end = (u_char *) text + sizeof(text) - 1;
    CHECK(ngx_rtmp_receive_amf(&S, &c, NULL, 1) == NGX_ERROR, "values too deep inside each other are refused");
    REACH("end");
}

/* ---- C04 ---- */
#ifndef SLEN
#define SLEN 3
#endif
#ifndef KEYLEN
#define KEYLEN 2
#endif
static u_char  want[MAXW];
static int     wantn;

static void wput(int b) { MUST(wantn < MAXW, "harness: room for the expected bytes"); want[wantn++] = b; }
static void wnum(u_char *p) { int i; for (i = 7; i >= 0; i--) { wput(p[i]); } }
static void wstr(u_char *p, int n) { int i; wput(n >> 8); wput(n & 255); for (i = 0; i < n; i++) { wput(p[i]); } }

void
vf_write(void)
{
    static u_char  n1[8], n2[8], n3[8], s1[SLEN + 1], s2[SLEN + 2], b1[1], b2[1], key[KEYLEN + 1], i2[2], i4[4], i1[1];
    static u_char  N1[8], N2[8], N3[8], S1[SLEN + 1], S2[SLEN + 2], B1[1], B2[1], I2[2], I4[4], I1[1];
    static ngx_rtmp_amf_elt_t in[] = {
        { NGX_RTMP_AMF_NUMBER, ngx_string("nn"), n2, 0 },
        { NGX_RTMP_AMF_STRING, { KEYLEN, key }, s2, SLEN },
        { NGX_RTMP_AMF_NULL, ngx_string("u"), NULL, 0 },
        { NGX_RTMP_AMF_BOOLEAN, ngx_string("t"), b2, 0 },
    };
    static ngx_rtmp_amf_elt_t ar[] = {
        { NGX_RTMP_AMF_NUMBER, ngx_null_string, n3, 0 },
        { NGX_RTMP_AMF_INT16 | NGX_RTMP_AMF_TYPELESS, ngx_null_string, i2, 0 },
    };
    static ngx_rtmp_amf_elt_t out[] = {
        { NGX_RTMP_AMF_STRING, ngx_null_string, s1, 0 },
        { NGX_RTMP_AMF_NUMBER, ngx_null_string, n1, 0 },
#if LIST == 0
        { NGX_RTMP_AMF_OBJECT, ngx_null_string, in, sizeof(in) },
#elif LIST == 1
        { NGX_RTMP_AMF_MIXED_ARRAY, ngx_null_string, in, sizeof(in) },
        { NGX_RTMP_AMF_INT32 | NGX_RTMP_AMF_TYPELESS, ngx_null_string, i4, 0 },
#else
        { NGX_RTMP_AMF_ARRAY, ngx_null_string, ar, sizeof(ar) },
        { NGX_RTMP_AMF_INT8 | NGX_RTMP_AMF_TYPELESS, ngx_null_string, i1, 0 },
#endif
        { NGX_RTMP_AMF_BOOLEAN, ngx_null_string, b1, 0 },
    };
    static ngx_rtmp_amf_elt_t In[] = {
        { NGX_RTMP_AMF_NUMBER, ngx_string("nn"), N2, 0 },
        { NGX_RTMP_AMF_STRING, { KEYLEN, key }, S2, SLEN + 1 },
        { NGX_RTMP_AMF_BOOLEAN, ngx_string("t"), B2, 0 },
    };
    static ngx_rtmp_amf_elt_t Ar[] = {
        { NGX_RTMP_AMF_NUMBER, ngx_null_string, N3, 0 },
        { NGX_RTMP_AMF_INT16 | NGX_RTMP_AMF_TYPELESS, ngx_null_string, I2, 0 },
    };
    static ngx_rtmp_amf_elt_t back[] = {
        { NGX_RTMP_AMF_STRING, ngx_null_string, S1, SLEN + 1 },
        { NGX_RTMP_AMF_NUMBER, ngx_null_string, N1, 0 },
#if LIST == 0
        { NGX_RTMP_AMF_OBJECT, ngx_null_string, In, sizeof(In) },
#elif LIST == 1
        { NGX_RTMP_AMF_MIXED_ARRAY, ngx_null_string, In, sizeof(In) },
        { NGX_RTMP_AMF_INT32 | NGX_RTMP_AMF_TYPELESS, ngx_null_string, I4, 0 },
#else
        { NGX_RTMP_AMF_ARRAY, ngx_null_string, Ar, sizeof(Ar) },
        { NGX_RTMP_AMF_INT8 | NGX_RTMP_AMF_TYPELESS, ngx_null_string, I1, 0 },
#endif
        { NGX_RTMP_AMF_BOOLEAN, ngx_null_string, B1, 0 },
    };
    ngx_rtmp_header_t  h;
    ngx_rtmp_frame_t  *f;
    ngx_chain_t       *l;
    u_char            *p;
    int                i, n;

    setup();
    for (i = 0; i < 8; i++) {
        n1[i] = ND8(); n2[i] = ND8(); n3[i] = ND8();
    }
    n = SLEN;
    for (i = 0; i < n; i++) {
        s1[i] = 'A' + i;    /* its length is where it ends */
        s2[i] = ND8();
    }
    for (i = 0; i < KEYLEN; i++) {
        key[i] = 'k' + i;
    }
    b1[0] = ND8(); b2[0] = ND8(); i1[0] = ND8();
    i2[0] = ND8(); i2[1] = ND8();
    for (i = 0; i < 4; i++) {
        i4[i] = ND8();
    }
    wput(2); wstr(s1, SLEN);
    wput(0); wnum(n1);
#if LIST < 2
    wput(LIST ? 8 : 3);
    if (LIST) { wput(0); wput(0); wput(0); wput(0); }
    wstr((u_char *) "nn", 2); wput(0); wnum(n2);
#if SLEN
    wstr(key, KEYLEN); wput(2); wstr(s2, SLEN);
#else
    wstr(key, KEYLEN); wput(2); wstr(s2, 0);
#endif
    wstr((u_char *) "u", 1); wput(5);
    wstr((u_char *) "t", 1); wput(1); wput(b2[0]);
    wput(0); wput(0); wput(9);
    if (LIST) { for (i = 3; i >= 0; i--) { wput(i4[i]); } }
#else
    wput(10); wput(0); wput(0); wput(0); wput(2);
    wput(0); wnum(n3);
    wput(i2[1]); wput(i2[0]);
    wput(i1[0]);
#endif
    wput(1); wput(b1[0]);

    memset(&h, 0, sizeof(h));
    h.type = 20; h.csid = 3; h.msid = 7; h.timestamp = 9;
    f = ngx_rtmp_create_amf(&S, &h, out, sizeof(out) / sizeof(out[0]));
    MUST(f != NULL && f->ref == 1, "a message is made");
    CHECK(f->hdr.type == 20 && f->hdr.csid == 3 && f->hdr.msid == 7 && f->hdr.timestamp == 9, "header of the message");
    n = 0;
    for (l = f->chain; l; l = l->next) {
        MUST(l->buf->last - l->buf->pos <= BS, "no buffer is longer than the chunk size");
        MUST(l->next == NULL || l->buf->last - l->buf->pos == BS, "every buffer but the last is full");
        for (p = l->buf->pos; p < l->buf->last; p++) {
            MUST(n < wantn, "no more bytes than the values have");
            CHECK(*p == want[n], "values are written as AMF0 says, high byte first");
            n++;
        }
    }
    MUST(n == wantn, "every value is written");

    MUST(ngx_rtmp_receive_amf(&S, f->chain, back, sizeof(back) / sizeof(back[0])) == NGX_OK, "what was written can be read");
    for (i = 0; i < 8; i++) {
        CHECK(N1[i] == n1[i], "a number read is the number written");
    }
    for (i = 0; i < SLEN; i++) {
        CHECK(S1[i] == s1[i], "a string read is the string written");
    }
    CHECK(S1[SLEN] == 0 && B1[0] == b1[0], "a boolean read is the boolean written");
#if LIST < 2
    for (i = 0; i < 8; i++) {
        CHECK(N2[i] == n2[i], "a member read is the member written");
    }
    for (i = 0; i < SLEN; i++) {
        CHECK(S2[i] == s2[i], "a member read is the member written");
    }
    CHECK(B2[0] == b2[0], "a member read is the member written");
    for (i = 0; LIST && i < 4; i++) {
        CHECK(I4[i] == i4[i], "an integer read is the integer written");
    }
#else
    for (i = 0; i < 8; i++) {
        CHECK(N3[i] == n3[i], "an item read is the item written");
    }
    CHECK(I2[0] == i2[0] && I2[1] == i2[1] && I1[0] == i1[0], "an integer read is the integer written");
#endif
    ngx_rtmp_shared_free_frame(f);
    CHECK(vf_chainbufs == 0, "the message is released whole");
    REACH("end");
}
