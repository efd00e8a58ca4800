#include "vf.h"
#include "ngx_rtmp_proxy_protocol.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

#ifndef N
#define N 20
#endif

static ngx_connection_t   c;
static ngx_event_t        rev;
static ngx_rtmp_session_t s;
static u_char             in[N];
static int                len, got, finalized, shaken, addr_ok, asked, took;
static size_t             a_from, a_len;
static struct sockaddr_in client;
static u_char            *peeked;

ssize_t
recv(int fd, void *buf, size_t size, int flags)
{
    int i;
    CHECK(flags == MSG_PEEK, "the header is looked at first");
    CHECK(size >= 107, "room for the longest header");
    peeked = buf;
    for (i = 0; i < len; i++) {
        ((u_char *) buf)[i] = in[i];
    }
    return len;
}

static ssize_t
take(ngx_connection_t *cc, u_char *buf, size_t n)
{
    CHECK(n <= (size_t) len, "no more is read than is there");
    took = n;
    return n;
}

VFS ngx_int_t
ngx_parse_addr(ngx_pool_t *pool, ngx_addr_t *addr, u_char *text, size_t n)
{
    asked = 1;
    a_from = text - peeked;
    a_len = n;
    if (!addr_ok) {
        return NGX_DECLINED;
    }
    addr->sockaddr = (struct sockaddr *) &client;
    addr->socklen = sizeof(client);
    return NGX_OK;
}

VFS size_t ngx_sock_ntop(struct sockaddr *sa, socklen_t socklen, u_char *text, size_t n, ngx_uint_t p)
{
    text[0] = '7';
    return 1;
}

void ngx_rtmp_finalize_session(ngx_rtmp_session_t *ss) { finalized++; }
void ngx_rtmp_handshake(ngx_rtmp_session_t *ss) { shaken++; }

/* every text a client may start with */
void
vf_proxy(void)
{
    static struct sockaddr_in lb;
    static ngx_str_t lbt = ngx_string("9");
    int  i, p, sp, eol, ok, unknown;

    vf_init();
    vf_session(&s, NULL, &c);
    c.data = &s;
    c.read = &rev;
    c.log = &vf_log;
    c.recv = take;
    c.sockaddr = (struct sockaddr *) &lb;
    c.addr_text = lbt;
    s.sockaddr = c.sockaddr;
    rev.data = &c;
    rev.log = &vf_log;
    rev.ready = 1;
    addr_ok = ND_BOOL();
    len = ND_RANGE(0, N);
    ND_BYTES(in, N);
    ngx_use_accept_mutex = 0;

    ngx_rtmp_proxy_protocol(&s);

    /* PROXY UNKNOWN ... CRLF, or PROXY TCP4|TCP6 address SP ... CRLF */
    ok = len > 8 && memcmp(in, "PROXY ", 6) == 0;
    unknown = ok && len >= 13 && memcmp(in + 6, "UNKNOWN", 7) == 0;
    p = 13;
    sp = len;
    if (!unknown) {
        ok = ok && len >= 11 && in[6] == 'T' && in[7] == 'C' && in[8] == 'P'
             && (in[9] == '4' || in[9] == '6') && in[10] == ' ';
        for (i = N - 1; i >= 11; i--) {
            if (i < len && in[i] == ' ') {
                sp = i;
            }
        }
        ok = ok && sp < len;
        if (ok) {
            CHECK(asked && a_from == 11 && a_len == (size_t) sp - 11, "the first address is the client's");
        }
        ok = ok && addr_ok;
        p = sp;
    }
    eol = -1;
    for (i = N - 2; i >= 0; i--) {
        if (i >= p && i + 1 < len && in[i] == CR && in[i + 1] == LF) {
            eol = i + 2;
        }
    }
    ok = ok && eol >= 0;

    if (ok) {
        CHECK(shaken == 1 && !finalized, "a valid header is followed by the handshake");
        CHECK(took == eol, "exactly the header is taken off the connection");
        if (unknown) {
            CHECK(c.sockaddr == (struct sockaddr *) &lb && s.sockaddr == (struct sockaddr *) &lb
                  && c.addr_text.data == lbt.data, "an unknown client keeps the address of the connection");
            REACH("unknown");
        } else {
            CHECK(c.sockaddr == (struct sockaddr *) &client && c.socklen == sizeof(client)
                  && c.addr_text.len == 1 && c.addr_text.data[0] == '7', "the client's address is taken over");
            CHECK(s.sockaddr == (struct sockaddr *) &client, "rules on addresses see the client's address");
            REACH("client");
        }
    } else {
        CHECK(finalized == 1 && !shaken && took == 0, "anything else is refused and nothing is read");
        REACH("refused");
    }
}
