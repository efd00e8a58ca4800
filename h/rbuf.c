#include "vf.h"
#include "ngx_rbuf.c"
#include "mapmodel.h"
#include "ngx_stubs.h"

#ifndef OPS
#define OPS 5
#endif
#define H 3

static ngx_chain_t *cl[H];      /* last link handed out per handle */
static int          live[H], mem[H];
static size_t       size[H];
static u_char       tag[H], *start[H];

static int
clean(ngx_buf_t *b)
{
    return !b->temporary && !b->mmap && !b->recycled && !b->in_file && !b->flush && !b->sync
           && !b->last_buf && !b->last_in_chain && !b->last_shadow && !b->temp_file
           && b->shadow == NULL && b->file == NULL && b->tag == NULL;
}

/* every history of gets and puts (a handle may be put again after it was put) */
void
vf_rbuf(void)
{
    int      i, h, k, n;

    vf_init();
    for (i = 0; i < OPS; i++) {
        h = ND_RANGE(0, H - 1);
        if (!live[h] && ND_BOOL()) {
            mem[h] = ND_BOOL();
            size[h] = ND_BOOL() ? 2 : 4;
            cl[h] = ngx_get_chainbuf_debug(size[h], mem[h], "f", 1);
            live[h] = 1;
            CHECK(cl[h] != NULL && cl[h]->next == NULL && cl[h]->buf != NULL, "a chain buffer is handed out alone");
            CHECK(clean(cl[h]->buf), "a chain buffer carries no flag of an earlier use");
            CHECK(cl[h]->buf->pos == cl[h]->buf->last, "a chain buffer starts empty");
            if (mem[h]) {
                start[h] = cl[h]->buf->start;
                CHECK(cl[h]->buf->pos == start[h] && cl[h]->buf->end == start[h] + size[h],
                      "a chain buffer has the size that was asked for");
                tag[h] = ND8();
                start[h][0] = tag[h];
                start[h][size[h] - 1] = tag[h];
            } else {
                CHECK(cl[h]->buf->start == NULL, "no memory unless asked for");
            }
            if (ND_BOOL()) {
                cl[h]->buf->last_buf = 1;
                cl[h]->buf->last_in_chain = 1;
            }
            for (k = 0; k < H; k++) {
                CHECK(k == h || !live[k] || (cl[k] != cl[h] && cl[k]->buf != cl[h]->buf),
                      "no two users share a chain buffer");
            }
        } else if (cl[h] != NULL) {
            /* a second put by a user who no longer owns it is not possible
             * to tell from the owner's put once it was handed out again */
            n = 0;
            for (k = 0; k < H; k++) {
                n |= k != h && live[k] && cl[k] == cl[h];
            }
            if (n) {
                continue;
            }
            ngx_put_chainbuf_debug(cl[h], "f", 2);
            live[h] = 0;
        }
        n = 0;
        for (k = 0; k < H; k++) {
            if (live[k]) {
                n++;
                if (mem[k]) {
                    CHECK(cl[k]->buf->start == start[k] && start[k][0] == tag[k]
                          && start[k][size[k] - 1] == tag[k],
                          "the memory of a chain buffer in use is nobody else's");
                }
            }
        }
        CHECK(ngx_rbuf_nalloc_chain - ngx_rbuf_nfree_chain == (ngx_uint_t) n,
              "the counters tell how many chain buffers are in use");
    }
    REACH("end");
}

/* longer given histories, every content and every use in between: a step is
 * 10 * user + what (0: get without memory, 1..4: get a size, 8: use it as
 * users do, 9: put) */
#ifdef SEQ
static const int    seq[] = { SEQ };
static const size_t sizes[] = { 0, 2, 4, 258, 514 };

void
vf_rbuf_seq(void)
{
    unsigned i, o;
    int      h, k, n, op, now[5], peak[5], kind[H];

    vf_init();
    for (k = 0; k < 5; k++) {
        now[k] = peak[k] = 0;
    }
    for (i = 0; i < sizeof(seq) / sizeof(seq[0]); i++) {
        h = seq[i] / 10;
        op = seq[i] % 10;
        if (op < 8) {
            mem[h] = op != 0;
            kind[h] = op;
            now[op]++;
            if (now[op] > peak[op]) {
                peak[op] = now[op];
            }
            size[h] = sizes[op];
            cl[h] = ngx_get_chainbuf_debug(size[h], mem[h], "f", 1);
            live[h] = 1;
            CHECK(cl[h] != NULL && cl[h]->next == NULL && cl[h]->buf != NULL, "a chain buffer is handed out alone");
            CHECK(clean(cl[h]->buf), "a chain buffer carries no flag of an earlier use");
            CHECK(cl[h]->buf->pos == cl[h]->buf->last, "a chain buffer starts empty");
            if (mem[h]) {
                start[h] = cl[h]->buf->start;
                CHECK(cl[h]->buf->pos == start[h] && cl[h]->buf->end == start[h] + size[h],
                      "a chain buffer has the size that was asked for");
                tag[h] = ND8();
                start[h][0] = tag[h];
                start[h][size[h] / 2] = tag[h];
                start[h][size[h] - 1] = tag[h];
            } else {
                CHECK(cl[h]->buf->start == NULL, "no memory unless asked for");
            }
        } else if (op == 8) {
            cl[h]->buf->last_buf = ND_BOOL();
            cl[h]->buf->flush = ND_BOOL();
            cl[h]->buf->sync = ND_BOOL();
            cl[h]->buf->recycled = ND_BOOL();
            if (mem[h]) {
                o = ND_BOOL();
                cl[h]->buf->pos = start[h] + o;
                cl[h]->buf->last = start[h] + size[h];
            }
            for (k = 0; k < H; k++) {
                if (k != h && live[k]) {
                    cl[h]->next = cl[k];
                }
            }
        } else {
            ngx_put_chainbuf_debug(cl[h], "f", 2);
            live[h] = 0;
            now[kind[h]]--;
        }
        n = 0;
        for (k = 0; k < H; k++) {
            if (live[k]) {
                n++;
                CHECK(!mem[k] || (cl[k]->buf->start == start[k] && start[k][0] == tag[k]
                                  && start[k][size[k] / 2] == tag[k] && start[k][size[k] - 1] == tag[k]),
                      "the memory of a chain buffer in use is nobody else's");
                for (h = 0; h < k; h++) {
                    CHECK(!live[h] || (cl[k] != cl[h] && cl[k]->buf != cl[h]->buf),
                          "no two users share a chain buffer");
                }
            }
        }
        CHECK(ngx_rbuf_nalloc_chain - ngx_rbuf_nfree_chain == (ngx_uint_t) n,
              "the counters tell how many chain buffers are in use");
        CHECK(ngx_rbuf_nalloc_buf - ngx_rbuf_nfree_buf == (ngx_uint_t) (now[1] + now[2] + now[3] + now[4]),
              "the counters tell how many buffers are in use");
        CHECK(ngx_rbuf_nalloc_buf == (ngx_uint_t) (peak[1] + peak[2] + peak[3] + peak[4]),
              "a buffer that was given back is used again before more memory is taken");
    }
    REACH("end");
}
#endif
