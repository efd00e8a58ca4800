#include "vf.h"
#include "ngx_toolkit_misc.c"
#include "ngx_stubs.h"

#ifndef URLN
#define URLN 12
#endif

static ngx_request_url_t  ru;
static u_char            *U;
static size_t             L;

/* position of the first c in [from, to), or to */
static size_t
first(u_char c, size_t from, size_t to)
{
    size_t i;
    for (i = from; i < to; i++) {
        if (U[i] == c) {
            return i;
        }
    }
    return to;
}

static int
is(ngx_str_t *s, size_t from, size_t to)
{
    if (from == to) {
        return s->len == 0;
    }
    return s->data == U + from && s->len == to - from;
}

/*
 * The documented grammar scheme://[user@]host[:port][/path[?args][#fragment]]
 * read off by delimiter positions, independently of the parser.
 */
void
vf_url(void)
{
    ngx_str_t  url;
    ngx_int_t  rc;
    size_t     i, sep, auth, slash, at, host, colon, path, hash, q;
    int        ok;

    vf_init();
    L = ND_RANGE(0, URLN);
    U = vf_malloc(URLN);
    for (i = 0; i < URLN; i++) {
        U[i] = ND8();
        ASSUME(U[i] != 0);
    }
    url.data = U;
    url.len = L;
    memset(&ru, 0, sizeof(ru));

    rc = ngx_parse_request_url(&ru, &url);

    ok = 1;
    for (sep = 0; sep + 3 <= L; sep++) {
        if (U[sep] == ':' && U[sep + 1] == '/' && U[sep + 2] == '/') {
            break;
        }
    }
    if (sep + 3 > L) {
        CHECK(rc == NGX_ERROR, "text without :// is refused");
        return;
    }
    auth = sep + 3;
    if (auth == L) {
        CHECK(rc == NGX_ERROR, "nothing after :// is refused");
        return;
    }
    slash = first('/', auth, L);
    at = first('@', auth, slash);
    host = auth;
    if (at < slash) {
        host = at + 1;
        ok = ok && at != auth && host != slash;
    }
    colon = first(':', host, slash);
    ok = ok && !(colon < slash && colon + 1 == slash);

    path = slash + 1 < L ? slash + 1 : L;
    hash = first('#', path, L);
    q = first('?', path, hash);
    if (q < hash) {
        ok = ok && q + 1 != L;
    }
    if (hash < L) {
        ok = ok && hash + 1 != L;
    }

    if (!ok) {
        CHECK(rc == NGX_ERROR, "an empty user, host, port, args or fragment is refused");
        REACH("bad");
        return;
    }

    CHECK(rc == NGX_OK, "a well formed url is accepted");
    CHECK(is(&ru.scheme, 0, sep), "scheme");
    CHECK(is(&ru.user, auth, at < slash ? at : auth), "user");
    CHECK(is(&ru.host, host, colon), "host");
    CHECK(is(&ru.port, colon < slash ? colon + 1 : slash, slash), "port");
    CHECK(is(&ru.host_with_port, host, slash), "host with port");
    CHECK(is(&ru.path, path, q), "path");
    CHECK(is(&ru.args, q < hash ? q + 1 : hash, hash), "args");
    CHECK(is(&ru.fragment, hash < L ? hash + 1 : L, L), "fragment");
    CHECK(is(&ru.uri_with_args, path, L), "uri with args");
    REACH("accepted");
    if (hash < L && q < hash && at < slash && colon < slash) {
        REACH("all parts present");
    }
}

/* default ports, and explicit ones: 1..65535 or nothing */
void
vf_port(void)
{
    u_char     sc[5], pt[7];
    ngx_str_t  s, p;
    in_port_t  r;
    size_t     i;
    uint64_t   v;
    int        digits;

    vf_init();
    s.len = ND_RANGE(0, 5);
    ND_BYTES(sc, 5);
    s.data = sc;
    p.len = ND_RANGE(0, 7);
    ND_BYTES(pt, 7);
    p.data = pt;

    r = ngx_request_port(&s, &p);

    if (p.len == 0) {
        if (s.len == 4 && memcmp(sc, "http", 4) == 0) {
            CHECK(r == 80, "http default port");
        } else if (s.len == 5 && memcmp(sc, "https", 5) == 0) {
            CHECK(r == 443, "https default port");
        } else if (s.len == 4 && memcmp(sc, "rtmp", 4) == 0) {
            CHECK(r == 1935, "rtmp default port");
            REACH("rtmp");
        } else {
            CHECK(r == 0, "other schemes have no default port");
        }
        return;
    }

    v = 0;
    digits = 1;
    for (i = 0; i < p.len; i++) {
        if (pt[i] < '0' || pt[i] > '9') {
            digits = 0;
        }
        if (v < 100000) {
            v = v * 10 + (pt[i] - '0');
        }
    }
    if (digits && v >= 1 && v <= 65535) {
        CHECK(r == v, "explicit port is used as written");
        REACH("explicit");
    } else {
        CHECK(r == 0, "anything else is no port");
    }
}
