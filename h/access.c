#include "vf.h"
#define VF_MEM_LOOP
#define VF_ARRAY_CAP 4
#include "ngx_rtmp_access_module.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

#ifndef OWN
#define OWN 1
#define PARENT 1
#endif
#define R 3
/* what each rule names: 0 an IPv4 network, 1 an IPv6 network, 2 all */
#ifndef KIND
#define KIND 0, 1, 2
#endif
static const int kind[R] = { KIND };

VFS ngx_module_t  ngx_rtmp_core_module;
ngx_rtmp_publish_pt ngx_rtmp_publish;
ngx_rtmp_play_pt    ngx_rtmp_play;

static ngx_rtmp_session_t s;
static int                published, played;
static ngx_cidr_t         cidr[R];
static int                deny[R], mode[R], cur;     /* mode 0 both, 1 publish, 2 play */
static int                all[R];

static ngx_int_t on_publish(ngx_rtmp_session_t *ss, ngx_rtmp_publish_t *v) { published = 1; return NGX_OK; }
static ngx_int_t on_play(ngx_rtmp_session_t *ss, ngx_rtmp_play_t *v) { played = 1; return NGX_OK; }

VFS ngx_int_t
ngx_ptocidr(ngx_str_t *text, ngx_cidr_t *c)
{
    *c = cidr[cur];
    return NGX_OK;
}

static void
rule(void *conf, int i)
{
    ngx_conf_t   cf;
    ngx_array_t  args;
    ngx_str_t    v[3];
    int          n, k;

    memset(&cf, 0, sizeof(cf));
    deny[i] = ND_BOOL();
    mode[i] = ND_RANGE(0, 2);
    all[i] = kind[i] == 2;
    memset(&cidr[i], 0, sizeof(cidr[i]));
    if (kind[i] == 0) {
        cidr[i].family = AF_INET;
        cidr[i].u.in.mask = ND32();
        cidr[i].u.in.addr = ND32() & cidr[i].u.in.mask;
    } else {
        cidr[i].family = AF_INET6;
        for (k = 0; k < 16; k++) {
            cidr[i].u.in6.mask.s6_addr[k] = ND8();
            cidr[i].u.in6.addr.s6_addr[k] = ND8() & cidr[i].u.in6.mask.s6_addr[k];
        }
    }
    n = 0;
    if (deny[i]) {
        v[n].data = (u_char *) "deny"; v[n++].len = 4;
    } else {
        v[n].data = (u_char *) "allow"; v[n++].len = 5;
    }
    if (mode[i] == 1) {
        v[n].data = (u_char *) "publish"; v[n++].len = 7;
    } else if (mode[i] == 2) {
        v[n].data = (u_char *) "play"; v[n++].len = 4;
    }
    if (all[i]) {
        v[n].data = (u_char *) "all"; v[n++].len = 3;
    } else {
        v[n].data = (u_char *) "10.0.0.0/8"; v[n++].len = 10;
    }
    args.elts = v;
    args.nelts = n;
    cf.args = &args;
    cf.pool = &vf_pool;
    cf.log = &vf_log;
    cur = i;
    CHECK(ngx_rtmp_access_rule(&cf, NULL, conf) == NGX_CONF_OK, "a rule is read");
}

static int
match4(int i, in_addr_t a)
{
    return all[i] || (cidr[i].family == AF_INET && (a & cidr[i].u.in.mask) == cidr[i].u.in.addr);
}

static int
match6(int i, u_char *p)
{
    int k, ok = 1;
    for (k = 0; k < 16; k++) {
        ok &= (p[k] & cidr[i].u.in6.mask.s6_addr[k]) == cidr[i].u.in6.addr.s6_addr[k];
    }
    return all[i] || (cidr[i].family == AF_INET6 && ok);
}

/* every own and inherited rule, every client address */
void
vf_access(void)
{
    ngx_conf_t           cf;
    void                *parent, *child;
    struct sockaddr_in   sin;
    struct sockaddr_in6  sin6;
    int                  i, k, fam, mapped, want, play, m, inter;
    ngx_int_t            rc;
    in_addr_t            a4;

    vf_init();
    memset(&cf, 0, sizeof(cf));
    cf.pool = &vf_pool;
    cf.log = &vf_log;
    ngx_rtmp_publish = on_publish;
    ngx_rtmp_play = on_play;
    ngx_rtmp_access_postconfiguration(&cf);
    parent = ngx_rtmp_access_create_app_conf(&cf);
    child = ngx_rtmp_access_create_app_conf(&cf);
    for (i = 0; i < OWN; i++) {
        rule(child, i);
    }
    for (i = OWN; i < OWN + PARENT; i++) {
        rule(parent, i);
    }
    CHECK(ngx_rtmp_access_merge_app_conf(&cf, parent, child) == NGX_CONF_OK, "rules are inherited");

    vf_session(&s, NULL, NULL);
    ngx_rtmp_access_module.ctx_index = 0;
    vf_app_conf[0] = child;
    fam = ND_RANGE(0, 3);       /* none, v4, v6, other */
    memset(&sin, 0, sizeof(sin));
    memset(&sin6, 0, sizeof(sin6));
    a4 = ND32();
    mapped = 0;
    s.sockaddr = NULL;
    if (fam == 1) {
        sin.sin_family = AF_INET;
        sin.sin_addr.s_addr = a4;
        s.sockaddr = (struct sockaddr *) &sin;
    } else if (fam == 2) {
        sin6.sin6_family = AF_INET6;
        mapped = ND_BOOL();
        for (k = 0; k < 16; k++) {
            sin6.sin6_addr.s6_addr[k] = ND8();
        }
        if (mapped) {
            memset(&sin6.sin6_addr, 0, 10);
            sin6.sin6_addr.s6_addr[10] = sin6.sin6_addr.s6_addr[11] = 0xff;
            memcpy(&sin6.sin6_addr.s6_addr[12], &a4, 4);
        } else {
            ASSUME(sin6.sin6_addr.s6_addr[0] != 0);
        }
        s.sockaddr = (struct sockaddr *) &sin6;
    } else if (fam == 3) {
        sin.sin_family = AF_UNIX;
        s.sockaddr = (struct sockaddr *) &sin;
    }

    play = ND_BOOL();
    inter = ND_BOOL();
    s.interprocess = inter;
    want = 1;
    if (fam == 1 || fam == 2) {
        for (i = OWN + PARENT - 1; i >= 0; i--) {
            m = fam == 1 || mapped ? match4(i, a4) : match6(i, sin6.sin6_addr.s6_addr);
            if (m && (mode[i] == 0 || mode[i] == (play ? 2 : 1))) {
                want = !deny[i];
            }
        }
    }
    if (!play && inter) {
        want = 1;
    }
    rc = play ? ngx_rtmp_play(&s, NULL) : ngx_rtmp_publish(&s, NULL);
    if (want) {
        CHECK(rc == NGX_OK && published == !play && played == play, "what the rules allow goes on");
        REACH("allowed");
    } else {
        CHECK(rc == NGX_ERROR && !published && !played, "what the first matching rule denies stops here");
        REACH("denied");
    }
}
