/* C10, C11: the registry of servers and streams, and the sessions in it */
#include "vf.h"
#define VF_OWN_PCALLOC
#define VF_MEM_LOOP
#include <ngx_config.h>
#include <ngx_core.h>
#include "ngx_rtmp.h"
#ifdef SESSIONS
#include "ngx_rtmp_cmd_module.c"
#endif
#include "ngx_live.c"
#include "ngx_stubs.h"
#include "rtmp_env.h"

#ifndef SB
#define SB 2
#endif
#ifndef PB
#define PB 1
#endif
#ifndef SEQ
#define SEQ 999,999
#endif

/* names: the last is too long; 16 is the room for names here */
static u_char   *nm[4] = { (u_char *) "a", (u_char *) "b", (u_char *) "a1234567890abcd", (u_char *) "0123456789abcdef" };
static size_t    nl[4] = { 1, 1, 15, 16 };

static ngx_live_server_t   srvs[8];
static ngx_live_stream_t   sts[16];
static ngx_live_server_t  *sbuck[4];
static ngx_live_stream_t  *stbuck[8][4];
static ngx_rtmp_core_ctx_t cctx[4];
static int                 nsrv, nst, nstb, ncc, nsb;

void *
ngx_pcalloc(ngx_pool_t *p, size_t n)
{
    if (n == sizeof(ngx_live_server_t)) {
        MUST(nsrv < 8, "harness: servers");
        return &srvs[nsrv++];
    }
    if (n == sizeof(ngx_live_stream_t)) {
        MUST(nst < 16, "harness: streams");
        return &sts[nst++];
    }
    if (n == sizeof(ngx_rtmp_core_ctx_t)) {
        MUST(ncc < 4, "harness: contexts");
        return &cctx[ncc++];
    }
    if (nsb == 0) {
        nsb = 1;
        MUST(n == sizeof(void *) * PB, "room for the servers");
        return sbuck;
    }
    MUST(nstb < 8 && n == sizeof(void *) * SB, "room for the streams of a server");
    return stbuck[nstb++];
}

void *
memset(void *p, int c, size_t n)
{
    static const ngx_live_stream_t  zero;
    size_t i;
    if (n == sizeof(ngx_live_stream_t) && c == 0) {
        *(ngx_live_stream_t *) p = zero;
        return p;
    }
    for (i = 0; i < n; i++) {
        ((char *) p)[i] = c;
    }
    return p;
}

void ngx_map_init(ngx_map_t *m, ngx_map_hash_pt h, ngx_cmp_pt c) { }
ngx_uint_t ngx_map_hash_int(intptr_t k) { return k; }
int ngx_cmp_int(intptr_t a, intptr_t b) { return 0; }

#ifndef SESSIONS
ngx_module_t ngx_rtmp_core_module;
#endif
static ngx_live_conf_t *lcf;
static void **confs[4];

static void
start(void)
{
    ngx_cycle_t  *cy = &vf_cycle;
    vf_init();
    ngx_live_module.index = 0;
    lcf = ngx_alloc(sizeof(ngx_live_conf_t), &vf_log);
    *lcf = (ngx_live_conf_t) { 0 };
    lcf->stream_buckets = SB;
    lcf->server_buckets = PB;
    CHECK(ngx_live_init_conf(cy, lcf) == NGX_CONF_OK, "the registry starts");
    confs[0] = (void **) lcf;
    cy->conf_ctx = (void ****) confs;
}

static int
same(u_char *s, int i)
{
    size_t k;
    for (k = 0; k < nl[i]; k++) {
        if (s[k] != nm[i][k]) {
            return 0;
        }
    }
    return s[nl[i]] == 0;
}

#ifndef SESSIONS
static int                 has_srv[4], del[4], has_st[4][4];
static ngx_live_server_t  *psrv[4];
static ngx_live_stream_t  *pst[4][4];
static int                 peak_srv, peak_st;

static int count(int k) { int j, n = 0; for (j = 0; j < 4; j++) { n += has_st[k][j]; } return n; }

static void
peaks(void)
{
    int  k, nv = 0, nt = 0;
    for (k = 0; k < 4; k++) {
        nv += has_srv[k];
        nt += count(k);
    }
    if (nv > peak_srv) {
        peak_srv = nv;
    }
    if (nt > peak_st) {
        peak_st = nt;
    }
}

static void
check_all(void)
{
    ngx_live_server_t *v, *fv;
    ngx_live_stream_t *t, *ft;
    int                k, j, a, b, nv, nt, n;

    nv = nt = 0;
    for (k = 0; k < 4; k++) {
        ngx_str_t sn = { nl[k], nm[k] };
        v = ngx_live_fetch_server(&sn);
        CHECK((v != NULL) == has_srv[k], "a server is there from its creation until it is deleted and empty");
        if (has_srv[k]) {
            nv++;
            MUST(v == psrv[k], "a server stays the same one");
            CHECK(same(v->serverid, k), "a server has its name");
            CHECK((int) v->n_stream == count(k), "streams of a server");
        }
        for (j = 0; j < 4; j++) {
            ngx_str_t tn = { nl[j], nm[j] };
            t = ngx_live_fetch_stream(&sn, &tn);
            CHECK((t != NULL) == has_st[k][j], "a stream is there from its creation to its deletion");
            if (has_st[k][j]) {
                nt++;
                MUST(t == pst[k][j], "a stream stays the same one");
                CHECK(same(t->name, j), "a stream has its name");
                for (a = 0; a < 4; a++) {
                    for (b = 0; b < 4; b++) {
                        CHECK((a == k && b == j) || !has_st[a][b] || pst[a][b] != t, "streams do not share their memory");
                    }
                }
                for (ft = lcf->free_stream; ft; ft = ft->next) {
                    CHECK(ft != t, "a stream in use is not free");
                }
            }
        }
        for (a = 0; a < k; a++) {
            CHECK(!has_srv[a] || !has_srv[k] || psrv[a] != psrv[k], "servers do not share their memory");
        }
        if (has_srv[k]) {
            for (fv = lcf->free_server; fv; fv = fv->next) {
                CHECK(fv != psrv[k], "a server in use is not free");
            }
        }
    }
    CHECK(nsrv == peak_srv && nst == peak_st, "memory is asked for only when none is free");
    CHECK((int) lcf->alloc_server_count == nsrv && (int) lcf->free_server_count == nsrv - nv, "servers that are counted");
    CHECK((int) lcf->alloc_stream_count == nst && (int) lcf->free_stream_count == nst - nt, "streams that are counted");
    n = 0;
    for (fv = lcf->free_server; fv; fv = fv->next) {
        n++;
    }
    CHECK(n == nsrv - nv, "every server not in use is free");
    n = 0;
    for (ft = lcf->free_stream; ft; ft = ft->next) {
        n++;
    }
    CHECK(n == nst - nt, "every stream not in use is free");
}

static void
step(int op, int k, int j)
{
    ngx_str_t           sn = { nl[k], nm[k] }, tn = { nl[j], nm[j] };
    ngx_live_server_t  *v;
    ngx_live_stream_t  *t;

    switch (op) {
    case 0:
        v = ngx_live_create_server(&sn);
        CHECK((v != NULL) == (k != 3), "a server is made unless its name is too long");
        if (v) {
            CHECK(!has_srv[k] || v == psrv[k], "a server that is there is used");
            psrv[k] = v;
            has_srv[k] = 1;
            del[k] = 0;
        }
        break;
    case 1:
        ngx_live_delete_server(&sn);
        if (has_srv[k]) {
            if (count(k)) {
                del[k] = 1;
            } else {
                has_srv[k] = 0;
            }
        }
        break;
    case 2:
        t = ngx_live_create_stream(&sn, &tn);
        CHECK((t != NULL) == (has_srv[k] && j != 3), "a stream is made unless its server is missing or its name too long");
        if (t) {
            if (!has_st[k][j]) {
                CHECK(t->publish_ctx == NULL && t->play_ctx == NULL && t->ctx == NULL && t->stream_nctx == NULL
                      && t->mpegts_ctx == NULL && t->hls_ctx == NULL && t->pslot == -1 && t->next == NULL
                      && t->bw_in.bytes == 0 && t->bw_out.bytes == 0 && !t->active && !t->publishing && !t->notify_meta, "a new stream is empty");
                CHECK(t->epoch == ngx_current_msec, "start of a stream");
            } else {
                CHECK(t == pst[k][j], "a stream that is there is used");
            }
            t->publish_ctx = &cctx[0];
            t->ctx = (void *) &cctx[0];
            t->active = t->publishing = t->notify_meta = 1;
            t->bw_in.bytes = 5;
            t->pslot = 3;
            pst[k][j] = t;
            has_st[k][j] = 1;
        }
        break;
    case 3:
        ngx_live_delete_stream(&sn, &tn);
        if (has_st[k][j]) {
            has_st[k][j] = 0;
            if (del[k] && count(k) == 0) {
                has_srv[k] = 0;
                del[k] = 0;
            }
        }
        break;
    }
}

static inline int
pick(int want, int n)
{
    int i, v;
    if (want != 9) {
        return want;
    }
    v = ND8();
    for (i = 0; i < n - 1; i++) {
        if (v == i) {
            return i;
        }
    }
    return n - 1;
}

void
vf_registry(void)
{
    static const int seq[] = { SEQ };
    int              i, op, k, j;

    start();
    for (i = 0; i < (int) (sizeof(seq) / sizeof(int)); i++) {
        ngx_current_msec = 1000 + i;
        op = pick(seq[i] / 100, 4);
        k = pick(seq[i] / 10 % 10, op == 0 ? 4 : 3);
        j = op < 2 ? 0 : pick(seq[i] % 10, op == 2 ? 4 : 3);
        step(op, k, j);
        peaks();
        if (i == (int) (sizeof(seq) / sizeof(int)) - 1 || seq[i] % 10 == 9 || seq[i] / 10 % 10 == 9 || seq[i] / 100 == 9) {
            check_all();
        }
    }
    REACH("end");
}
#endif

#ifdef SESSIONS
#define NS 3
/* the session modules around the commands, as counters */
ngx_module_t            ngx_rtmp_core_module;
static ngx_rtmp_session_t  S[NS];
static void               *sctx[NS][VF_NMOD];
static int              nstart, ndone, nzone, nnext, next_rc;
static ngx_str_t        zname;
void ngx_rtmp_notify_stream_start(ngx_rtmp_session_t *s) { nstart++; }
void ngx_rtmp_notify_stream_done(ngx_rtmp_session_t *s) { CHECK(s->live_stream->name[0] != 0, "a stream that ends is still there"); ndone++; }
void ngx_stream_zone_delete_stream(ngx_str_t *n) { nzone++; zname = *n; }
static ngx_int_t next_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v) { nnext++; return NGX_OK; }
static ngx_int_t next_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v) { nnext++; return NGX_OK; }
static ngx_int_t next_close(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v) { nnext++; return NGX_OK; }

static int   where[NS], pubd[NS], played[NS], closed[NS], nameof[NS], slot_mine[4];

static void
check_sessions(void)
{
    static u_char      full[4][16] = { "s/p/a", "s/p/b" };
    ngx_live_stream_t *t;
    ngx_rtmp_core_ctx_t *c;
    ngx_str_t          sn = { 1, (u_char *) "s" }, tn;
    int                j, i, n, np, nq, seen[NS];

    for (j = 0; j < 2; j++) {
        tn.data = full[j];
        tn.len = 5;
        t = ngx_live_fetch_stream(&sn, &tn);
        np = nq = 0;
        for (i = 0; i < NS; i++) {
            seen[i] = 0;
            np += where[i] == 1 && nameof[i] == j;
            nq += where[i] == 2 && nameof[i] == j;
        }
        CHECK((t != NULL) == (np + nq > 0), "a stream is there as long as a session is in it");
        if (t == NULL) {
            slot_mine[j] = 0;
            continue;
        }
        n = 0;
        for (c = t->publish_ctx; c; c = c->next) {
            MUST(n++ < NS, "publishers are no ring");
            CHECK(c->publishing, "a publisher");
            for (i = 0; i < NS; i++) {
                if (c->session == &S[i]) {
                    CHECK(where[i] == 1 && nameof[i] == j && !seen[i], "only the publishers of a stream are in its list");
                    seen[i] = 1;
                }
            }
        }
        CHECK(n == np, "every publisher is in the list");
        n = 0;
        for (c = t->play_ctx; c; c = c->next) {
            MUST(n++ < NS, "players are no ring");
            CHECK(!c->publishing, "a player");
            for (i = 0; i < NS; i++) {
                if (c->session == &S[i]) {
                    CHECK(where[i] == 2 && nameof[i] == j && !seen[i], "only the players of a stream are in its list");
                    seen[i] = 1;
                }
            }
        }
        CHECK(n == nq, "every player is in the list");
    }
}

#ifndef SSEQ
#define SSEQ 99,99,99
#endif

/* op: 0 publish a, 1 publish b, 2 play a, 3 play b, 4 publish a name too long, 5 close */
static void
sop(int op, int i)
{
    static ngx_rtmp_publish_t       vp;
    static ngx_rtmp_play_t          vq;
    static ngx_rtmp_close_stream_t  vc;
    ngx_int_t                       rc;
    int                             n0 = nnext, s0 = nstart, d0 = ndone, z0 = nzone, j, others, x;
    int                             nm_i = op & 1, ex, first;

    if (op < 4 || op == 4) {
        u_char *name = op < 2 ? vp.name : op < 4 ? vq.name : vp.name;
        if (op == 4) {
            for (x = 0; x < 14; x++) {
                vp.name[x] = 'x';
            }
            vp.name[14] = 0;
        } else {
            name[0] = 'a' + nm_i;
            name[1] = 0;
        }
        vp.args[0] = vq.args[0] = 0;
        first = op >= 2 && op < 4 ? !played[i] : !pubd[i];
        rc = op >= 2 && op < 4 ? ngx_rtmp_play_filter(&S[i], &vq) : ngx_rtmp_publish_filter(&S[i], &vp);
        if (!first) {
            CHECK(rc == NGX_OK && nnext == n0 && nstart == s0, "a second command changes nothing");
            return;
        }
        if (op >= 2 && op < 4) {
            played[i] = 1;
        } else {
            pubd[i] = 1;
        }
        if (nameof[i] == -1) {
            nameof[i] = op == 4 ? 3 : nm_i;
        }
        if (nameof[i] == 3) {
            CHECK(rc == NGX_ERROR && nnext == n0 && nstart == s0, "a session whose stream cannot be made is refused");
            return;
        }
        CHECK(rc == NGX_OK && nnext == n0 + 1, "the command goes on");
        CHECK(nstart == s0 + 1, "the start of a stream is told");
        where[i] = op >= 2 && op < 4 ? 2 : 1;
        CHECK(S[i].publishing == (where[i] == 1), "kind of a session");
        if (i != 1) {
            S[i].live_stream->pslot = ngx_process_slot;
            slot_mine[nameof[i]] = 1;
        }
        return;
    }
    others = 0;
    for (j = 0; j < NS; j++) {
        others += j != i && where[j] && nameof[j] == nameof[i];
    }
    ex = where[i] && !closed[i] && !others;
    rc = ngx_rtmp_close_stream_filter(&S[i], &vc);
    CHECK(rc == NGX_OK, "the end of a stream is taken");
    CHECK(nnext == n0 + !closed[i], "the end of a stream is told once");
    closed[i] = 1;
    CHECK(ndone == d0 + ex, "the end of a stream is told by the last session");
    CHECK(nzone == z0 + (ex && slot_mine[nameof[i] & 3]), "a stream of this process leaves the zone with the last session");
    if (nzone != z0) {
        CHECK(zname.len == 5 && zname.data[4] == 'a' + nameof[i], "the stream that ended leaves the zone");
    }
    where[i] = 0;
    if (ex) {
        slot_mine[nameof[i]] = 0;
    }
}

static inline int
spick(int want, int n)
{
    int i, v;
    if (want != 9) {
        return want;
    }
    v = ND8();
    for (i = 0; i < n - 1; i++) {
        if (v == i) {
            return i;
        }
    }
    return n - 1;
}

void
vf_sessions(void)
{
    static const int  seq[] = { SSEQ };
    ngx_str_t         sn = { 1, (u_char *) "s" };
    int               i, op, k;

    start();
    ngx_process_slot = 2;
    CHECK(ngx_live_create_server(&sn) != NULL, "a server is made");
    for (i = 0; i < NS; i++) {
        S[i].ctx = sctx[i];
        S[i].pool = &vf_pool;
        S[i].log = &vf_log;
        S[i].serverid = sn;
        S[i].app.data = (u_char *) "p";
        S[i].app.len = 1;
        nameof[i] = -1;
    }
    ngx_rtmp_publish = next_publish;
    ngx_rtmp_play = next_play;
    ngx_rtmp_close_stream = next_close;
    for (i = 0; i < (int) (sizeof(seq) / sizeof(int)); i++) {
        op = spick(seq[i] / 10, 6);
        k = spick(seq[i] % 10, NS);
        /* a session that has ended is gone */
        if (closed[k] && op != 5) {
            continue;
        }
        sop(op, k);
        if (i == (int) (sizeof(seq) / sizeof(int)) - 1 || seq[i] % 10 == 9 || seq[i] / 10 == 9) {
            check_sessions();
        }
    }
    /* in the end all sessions go */
    for (k = 0; k < NS; k++) {
        sop(5, k);
    }
    check_sessions();
    CHECK(ngx_live_fetch_server(&sn)->n_stream == 0, "no stream is left");
    REACH("end");
}
#endif
