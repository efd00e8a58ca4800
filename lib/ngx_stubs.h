/*
 * Models of the nginx core functions the modules call.  nginx core is not part
 * of the repository under check (only its headers are installed), so every
 * function here is a stated assumption: it follows nginx 1.24's documented
 * behaviour.  Included after the real sources of /repo.
 * Each allocation is a separate object, so any access outside what was asked
 * for is caught.  Allocation does not fail.
 */
#ifndef NGX_STUBS_H
#define NGX_STUBS_H

#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <ngx_config.h>
#include <ngx_core.h>
#include <ngx_event.h>

#define VFS __attribute__((weak))

/* byte loops instead of cbmc's array operations: far cheaper when the length
 * is symbolic (their loop bounds are checked like any other) */
#if defined(VF_MEM_LOOP) && !defined(VF_NATIVE)
/* VF_MEM_KILL: do not follow an execution beyond a write out of bounds */
#ifdef VF_MEM_KILL
#define VF_ROOM(d, n)  do {                                                 \
        CHECK((n) <= __CPROVER_OBJECT_SIZE(d) - __CPROVER_POINTER_OFFSET(d), "copy stays within the buffer"); \
        ASSUME((n) <= __CPROVER_OBJECT_SIZE(d) - __CPROVER_POINTER_OFFSET(d)); } while (0)
#else
#define VF_ROOM(d, n)
#endif
void *
memcpy(void *d, const void *s, size_t n)
{
    size_t i;
    VF_ROOM(d, n);
    for (i = 0; i < n; i++) {
        ((char *) d)[i] = ((const char *) s)[i];
    }
    return d;
}

void *
memmove(void *d, const void *s, size_t n)
{
    size_t i;
    VF_ROOM(d, n);
    if (__CPROVER_POINTER_OBJECT(d) != __CPROVER_POINTER_OBJECT(s)
        || __CPROVER_POINTER_OFFSET(d) <= __CPROVER_POINTER_OFFSET(s))
    {
        for (i = 0; i < n; i++) {
            ((char *) d)[i] = ((const char *) s)[i];
        }
    } else {
        for (i = n; i > 0; i--) {
            ((char *) d)[i - 1] = ((const char *) s)[i - 1];
        }
    }
    return d;
}
#endif

/* ---- globals ---- */
static ngx_log_t                vf_log;       /* log_level 0: nothing logged */
static ngx_cycle_t              vf_cycle;
static ngx_pool_t               vf_pool;
static ngx_time_t               vf_time;

VFS volatile ngx_cycle_t       *ngx_cycle;
VFS volatile ngx_msec_t         ngx_current_msec;
VFS volatile ngx_time_t        *ngx_cached_time;
VFS volatile ngx_str_t          ngx_cached_http_time;
VFS volatile ngx_str_t          ngx_cached_err_log_time;
VFS volatile ngx_str_t          ngx_cached_http_log_time;
VFS ngx_uint_t                  ngx_pagesize = 4096;
VFS ngx_uint_t                  ngx_pagesize_shift = 12;
VFS ngx_uint_t                  ngx_cacheline_size = 64;
VFS ngx_uint_t                  ngx_process;
VFS ngx_uint_t                  ngx_worker;
VFS ngx_int_t                   ngx_process_slot;
VFS ngx_pid_t                   ngx_pid;
VFS ngx_int_t                   ngx_ncpu = 4;
VFS sig_atomic_t                ngx_quit, ngx_terminate;
VFS ngx_uint_t                  ngx_exiting;
VFS ngx_module_t                ngx_core_module;
VFS ngx_module_t                ngx_events_module;
VFS ngx_module_t                ngx_event_core_module;
VFS ngx_queue_t                 ngx_posted_events;
VFS ngx_queue_t                 ngx_posted_accept_events;
VFS ngx_queue_t                 ngx_posted_next_events;
VFS ngx_rbtree_t                ngx_event_timer_rbtree;
VFS ngx_event_actions_t         ngx_event_actions;
VFS ngx_uint_t                  ngx_event_flags;
VFS ngx_uint_t                  ngx_use_accept_mutex;
VFS ngx_os_io_t                 ngx_io;

static inline void
vf_init(void)
{
    ngx_cycle = &vf_cycle;
    vf_cycle.log = &vf_log;
    vf_cycle.pool = &vf_pool;
    ngx_cached_time = &vf_time;
    vf_pool.log = &vf_log;
    ngx_posted_events.prev = ngx_posted_events.next = &ngx_posted_events;
    ngx_posted_next_events.prev = ngx_posted_next_events.next = &ngx_posted_next_events;
}

/* ---- logging ---- */
VFS void
ngx_log_error_core(ngx_uint_t level, ngx_log_t *log, ngx_err_t err,
    const char *fmt, ...)
{
}

VFS void ngx_cdecl
ngx_conf_log_error(ngx_uint_t level, ngx_conf_t *cf, ngx_err_t err,
    const char *fmt, ...)
{
}

/* ---- memory ---- */
#ifdef VF_NATIVE
static void *
vf_malloc(size_t n)
{
    void *p = malloc(n);
    if (p == NULL) {
        fprintf(stderr, "VF-FAIL huge allocation %zu\n", n);
        _Exit(76);
    }
    return p;
}
#else
static void *
vf_malloc(size_t n)
{
    return malloc(n);
}
#endif

VFS void *ngx_alloc(size_t size, ngx_log_t *log) { return vf_malloc(size); }

VFS void *
ngx_calloc(size_t size, ngx_log_t *log)
{
    void *p = vf_malloc(size);
    memset(p, 0, size);
    return p;
}

#ifndef VF_OWN_PALLOC
VFS void *ngx_palloc(ngx_pool_t *pool, size_t size) { return vf_malloc(size); }
#endif
VFS void *ngx_pnalloc(ngx_pool_t *pool, size_t size) { return vf_malloc(size); }

#ifndef VF_OWN_PCALLOC
VFS void *
ngx_pcalloc(ngx_pool_t *pool, size_t size)
{
    void *p = vf_malloc(size);
    memset(p, 0, size);
    return p;
}
#endif

VFS void *
ngx_pmemalign(ngx_pool_t *pool, size_t size, size_t alignment)
{
    return vf_malloc(size);
}

VFS ngx_int_t ngx_pfree(ngx_pool_t *pool, void *p) { return NGX_DECLINED; }

VFS ngx_pool_t *
ngx_create_pool(size_t size, ngx_log_t *log)
{
    ngx_pool_t *p = vf_malloc(sizeof(ngx_pool_t));
    memset(p, 0, sizeof(ngx_pool_t));
    p->log = log;
    return p;
}

VFS void ngx_destroy_pool(ngx_pool_t *pool) { }
VFS void ngx_reset_pool(ngx_pool_t *pool) { }

VFS ngx_pool_cleanup_t *
ngx_pool_cleanup_add(ngx_pool_t *p, size_t size)
{
    ngx_pool_cleanup_t *c = vf_malloc(sizeof(ngx_pool_cleanup_t));
    c->data = size ? vf_malloc(size) : NULL;
    c->handler = NULL;
    c->next = NULL;
    return c;
}

/* ---- chains, bufs ---- */
#ifndef VF_OWN_PALLOC
VFS ngx_chain_t *
ngx_alloc_chain_link(ngx_pool_t *pool)
{
    ngx_chain_t *cl;

    cl = pool->chain;
    if (cl) {
        pool->chain = cl->next;
        return cl;
    }

    return vf_malloc(sizeof(ngx_chain_t));
}
#endif

VFS ngx_buf_t *
ngx_create_temp_buf(ngx_pool_t *pool, size_t size)
{
    ngx_buf_t *b = vf_malloc(sizeof(ngx_buf_t));
    memset(b, 0, sizeof(ngx_buf_t));
    b->start = vf_malloc(size);
    b->pos = b->start;
    b->last = b->start;
    b->end = b->start + size;
    b->temporary = 1;
    return b;
}

/* ---- arrays, lists ---- */
VFS ngx_array_t *
ngx_array_create(ngx_pool_t *p, ngx_uint_t n, size_t size)
{
    ngx_array_t *a = vf_malloc(sizeof(ngx_array_t));
    a->nelts = 0;
    a->size = size;
    a->nalloc = n;
    a->pool = p;
    a->elts = vf_malloc(n * size);
    return a;
}

VFS void *
ngx_array_push_n(ngx_array_t *a, ngx_uint_t n)
{
    void        *elt, *neu;
    ngx_uint_t   nalloc;

    if (a->nelts + n > a->nalloc) {
#ifdef VF_ARRAY_CAP
        /* one size for all: cheaper to reason about */
        nalloc = VF_ARRAY_CAP;
        ASSUME(a->nelts + n <= nalloc);
#else
        nalloc = 2 * ((n >= a->nalloc) ? n : a->nalloc);
#endif
        neu = vf_malloc(nalloc * a->size);
        memcpy(neu, a->elts, a->nelts * a->size);
        a->elts = neu;
        a->nalloc = nalloc;
    }

    elt = (u_char *) a->elts + a->size * a->nelts;
    a->nelts += n;
    return elt;
}

VFS void *ngx_array_push(ngx_array_t *a) { return ngx_array_push_n(a, 1); }
VFS void ngx_array_destroy(ngx_array_t *a) { }

/* ---- strings ---- */
VFS void
ngx_strlow(u_char *dst, u_char *src, size_t n)
{
    while (n) {
        *dst = ngx_tolower(*src);
        dst++;
        src++;
        n--;
    }
}

VFS size_t
ngx_strnlen(u_char *p, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) {
        if (p[i] == '\0') {
            return i;
        }
    }
    return n;
}

VFS u_char *
ngx_cpystrn(u_char *dst, u_char *src, size_t n)
{
    if (n == 0) {
        return dst;
    }
    while (--n) {
        *dst = *src;
        if (*dst == '\0') {
            return dst;
        }
        dst++;
        src++;
    }
    *dst = '\0';
    return dst;
}

VFS ngx_int_t
ngx_strcasecmp(u_char *s1, u_char *s2)
{
    ngx_uint_t  c1, c2;
    for ( ;; ) {
        c1 = (ngx_uint_t) *s1++;
        c2 = (ngx_uint_t) *s2++;
        c1 = (c1 >= 'A' && c1 <= 'Z') ? (c1 | 0x20) : c1;
        c2 = (c2 >= 'A' && c2 <= 'Z') ? (c2 | 0x20) : c2;
        if (c1 == c2) {
            if (c1) {
                continue;
            }
            return 0;
        }
        return c1 - c2;
    }
}

VFS ngx_int_t
ngx_strncasecmp(u_char *s1, u_char *s2, size_t n)
{
    ngx_uint_t  c1, c2;
    while (n) {
        c1 = (ngx_uint_t) *s1++;
        c2 = (ngx_uint_t) *s2++;
        c1 = (c1 >= 'A' && c1 <= 'Z') ? (c1 | 0x20) : c1;
        c2 = (c2 >= 'A' && c2 <= 'Z') ? (c2 | 0x20) : c2;
        if (c1 == c2) {
            if (c1) {
                n--;
                continue;
            }
            return 0;
        }
        return c1 - c2;
    }
    return 0;
}

VFS ngx_int_t
ngx_memn2cmp(u_char *s1, u_char *s2, size_t n1, size_t n2)
{
    size_t     n, i;
    ngx_int_t  z;

    if (n1 <= n2) {
        n = n1;
        z = -1;
    } else {
        n = n2;
        z = 1;
    }
    for (i = 0; i < n; i++) {
        if (s1[i] != s2[i]) {
            return (ngx_int_t) s1[i] - (ngx_int_t) s2[i];
        }
    }
    if (n1 == n2) {
        return 0;
    }
    return z;
}

VFS u_char *
ngx_strnstr(u_char *s1, char *s2, size_t len)
{
    u_char  c1, c2;
    size_t  n;

    c2 = *(u_char *) s2++;
    n = ngx_strlen(s2);
    do {
        do {
            if (len-- == 0) {
                return NULL;
            }
            c1 = *s1++;
            if (c1 == 0) {
                return NULL;
            }
        } while (c1 != c2);
        if (n > len) {
            return NULL;
        }
    } while (ngx_strncmp(s1, (u_char *) s2, n) != 0);

    return --s1;
}

VFS u_char *
ngx_strlcasestrn(u_char *s1, u_char *last, u_char *s2, size_t n)
{
    ngx_uint_t  c1, c2;

    c2 = (ngx_uint_t) *s2++;
    c2 = (c2 >= 'A' && c2 <= 'Z') ? (c2 | 0x20) : c2;
    last -= n;
    do {
        do {
            if (s1 >= last) {
                return NULL;
            }
            c1 = (ngx_uint_t) *s1++;
            c1 = (c1 >= 'A' && c1 <= 'Z') ? (c1 | 0x20) : c1;
        } while (c1 != c2);
    } while (ngx_strncasecmp(s1, s2, n) != 0);

    return --s1;
}

VFS ngx_int_t
ngx_atoi(u_char *line, size_t n)
{
    ngx_int_t  value, cutoff, cutlim;

    if (n == 0) {
        return NGX_ERROR;
    }
    cutoff = NGX_MAX_INT_T_VALUE / 10;
    cutlim = NGX_MAX_INT_T_VALUE % 10;
    for (value = 0; n--; line++) {
        if (*line < '0' || *line > '9') {
            return NGX_ERROR;
        }
        if (value >= cutoff && (value > cutoff || *line - '0' > cutlim)) {
            return NGX_ERROR;
        }
        value = value * 10 + (*line - '0');
    }
    return value;
}

VFS off_t ngx_atoof(u_char *line, size_t n) { return ngx_atoi(line, n); }
VFS ssize_t ngx_atosz(u_char *line, size_t n) { return ngx_atoi(line, n); }

VFS ngx_uint_t
ngx_hash_key(u_char *data, size_t len)
{
    ngx_uint_t  i, key;
    key = 0;
    for (i = 0; i < len; i++) {
        key = ngx_hash(key, data[i]);
    }
    return key;
}

VFS ngx_uint_t
ngx_hash_key_lc(u_char *data, size_t len)
{
    ngx_uint_t  i, key;
    key = 0;
    for (i = 0; i < len; i++) {
        key = ngx_hash(key, ngx_tolower(data[i]));
    }
    return key;
}

VFS ngx_uint_t
ngx_hash_strlow(u_char *dst, u_char *src, size_t n)
{
    ngx_uint_t  key;
    key = 0;
    while (n--) {
        *dst = ngx_tolower(*src);
        key = ngx_hash(key, *dst);
        dst++;
        src++;
    }
    return key;
}

/* formatted output: the subset of nginx's conversions used here */
#define VF_ROOM(p)  (last == NULL || (p) < last)

static u_char *
vf_num(u_char *p, u_char *last, uint64_t v, int neg, int hex, int width, int zero)
{
    u_char  t[24];
    int     n, i;

    n = 0;
    if (hex) {
        do {
            t[n++] = "0123456789abcdef"[v & 15];
            v >>= 4;
        } while (v);
    } else {
        do {
            t[n++] = (u_char) ('0' + v % 10);
            v /= 10;
        } while (v);
    }
    if (neg) {
        if (VF_ROOM(p)) {
            *p++ = '-';
        }
    }
    for (i = n; i < width; i++) {
        if (VF_ROOM(p)) {
            *p++ = zero ? '0' : ' ';
        }
    }
    while (n) {
        n--;
        if (VF_ROOM(p)) {
            *p++ = t[n];
        }
    }
    return p;
}

VFS u_char *
ngx_vslprintf(u_char *buf, u_char *last, const char *fmt, va_list args)
{
    int         uns, hex, zero, width;
    int64_t     i64;
    uint64_t    u64;
    u_char     *s;
    ngx_str_t  *v;
    size_t      slen, k;

    while (*fmt && VF_ROOM(buf)) {
        if (*fmt != '%') {
            *buf++ = *fmt++;
            continue;
        }
        fmt++;
        zero = (*fmt == '0');
        if (zero) {
            fmt++;
        }
        width = 0;
        while (*fmt >= '0' && *fmt <= '9') {
            width = width * 10 + (*fmt++ - '0');
        }
        uns = 0;
        hex = 0;
        slen = (size_t) -1;
        for ( ;; ) {
            if (*fmt == 'u') { uns = 1; fmt++; continue; }
            if (*fmt == 'x') { hex = 1; uns = 1; fmt++; continue; }
            if (*fmt == '*') { slen = va_arg(args, size_t); fmt++; continue; }
            break;
        }
        switch (*fmt) {
        case 'V':
            v = va_arg(args, ngx_str_t *);
            for (k = 0; k < v->len && VF_ROOM(buf); k++) {
                *buf++ = v->data[k];
            }
            fmt++;
            continue;
        case 's':
            s = va_arg(args, u_char *);
            for (k = 0; k < slen && VF_ROOM(buf); k++) {
                if (slen == (size_t) -1 && s[k] == 0) {
                    break;
                }
                *buf++ = s[k];
            }
            fmt++;
            continue;
        case 'c':
            *buf++ = (u_char) (va_arg(args, int) & 0xff);
            fmt++;
            continue;
        case '%':
            *buf++ = '%';
            fmt++;
            continue;
        case 'Z':
            *buf++ = '\0';
            fmt++;
            continue;
        case 'i': case 'z': case 'O': case 'L': case 'T': case 'M': case 'P': case 'r': case 'A':
            if (*fmt == 'M') { uns = 1; }
            i64 = (*fmt == 'P') ? (int64_t) va_arg(args, int) : va_arg(args, int64_t);
            break;
        case 'd':
            if (uns) { i64 = va_arg(args, u_int); } else { i64 = va_arg(args, int); }
            break;
        case 'D':
            if (uns) { i64 = va_arg(args, uint32_t); } else { i64 = va_arg(args, int32_t); }
            break;
        default:
            *buf++ = *fmt++;
            continue;
        }
        fmt++;
        if (!uns && i64 < 0) {
            u64 = (uint64_t) 0 - (uint64_t) i64;
            buf = vf_num(buf, last, u64, 1, hex, width, zero);
        } else {
            u64 = (uint64_t) i64;
            buf = vf_num(buf, last, u64, 0, hex, width, zero);
        }
    }
    return buf;
}

VFS u_char * ngx_cdecl
ngx_sprintf(u_char *buf, const char *fmt, ...)
{
    u_char   *p;
    va_list   args;

    va_start(args, fmt);
    p = ngx_vslprintf(buf, NULL, fmt, args);
    va_end(args);
    return p;
}

VFS u_char * ngx_cdecl
ngx_snprintf(u_char *buf, size_t max, const char *fmt, ...)
{
    u_char   *p;
    va_list   args;

    va_start(args, fmt);
    p = ngx_vslprintf(buf, buf + max, fmt, args);
    va_end(args);
    return p;
}

VFS u_char * ngx_cdecl
ngx_slprintf(u_char *buf, u_char *last, const char *fmt, ...)
{
    u_char   *p;
    va_list   args;

    va_start(args, fmt);
    p = ngx_vslprintf(buf, last, fmt, args);
    va_end(args);
    return p;
}

/* ---- timers: the event timer tree is not part of any claim ---- */
#ifndef VF_REAL_RBTREE
VFS void ngx_rbtree_insert(ngx_rbtree_t *tree, ngx_rbtree_node_t *node) { }
VFS void ngx_rbtree_delete(ngx_rbtree_t *tree, ngx_rbtree_node_t *node) { }
VFS void ngx_rbtree_insert_value(ngx_rbtree_node_t *root, ngx_rbtree_node_t *node, ngx_rbtree_node_t *sentinel) { }
VFS void ngx_rbtree_insert_timer_value(ngx_rbtree_node_t *root, ngx_rbtree_node_t *node, ngx_rbtree_node_t *sentinel) { }
VFS ngx_rbtree_node_t *ngx_rbtree_next(ngx_rbtree_t *tree, ngx_rbtree_node_t *node) { return NULL; }
#else
/* a plain binary search tree: same in-order contract as nginx's red-black one */
VFS void
ngx_rbtree_insert(ngx_rbtree_t *tree, ngx_rbtree_node_t *node)
{
    if (tree->root == tree->sentinel) {
        node->parent = NULL;
        node->left = tree->sentinel;
        node->right = tree->sentinel;
        tree->root = node;
        return;
    }
    tree->insert(tree->root, node, tree->sentinel);
}

VFS void
ngx_rbtree_insert_value(ngx_rbtree_node_t *temp, ngx_rbtree_node_t *node,
    ngx_rbtree_node_t *sentinel)
{
    ngx_rbtree_node_t  **p;

    for ( ;; ) {
        p = (node->key < temp->key) ? &temp->left : &temp->right;
        if (*p == sentinel) {
            break;
        }
        temp = *p;
    }
    *p = node;
    node->parent = temp;
    node->left = sentinel;
    node->right = sentinel;
}

static void
vf_tree_link(ngx_rbtree_t *tree, ngx_rbtree_node_t *old, ngx_rbtree_node_t *neu)
{
    if (old->parent == NULL) {
        tree->root = neu;
    } else if (old->parent->left == old) {
        old->parent->left = neu;
    } else {
        old->parent->right = neu;
    }
    if (neu != tree->sentinel) {
        neu->parent = old->parent;
    }
}

VFS void
ngx_rbtree_delete(ngx_rbtree_t *tree, ngx_rbtree_node_t *node)
{
    ngx_rbtree_node_t *m;

    if (node->left == tree->sentinel) {
        vf_tree_link(tree, node, node->right);
    } else if (node->right == tree->sentinel) {
        vf_tree_link(tree, node, node->left);
    } else {
        m = node->right;
        while (m->left != tree->sentinel) {
            m = m->left;
        }
        if (m != node->right) {
            vf_tree_link(tree, m, m->right);
            m->right = node->right;
            m->right->parent = m;
        }
        vf_tree_link(tree, node, m);
        m->left = node->left;
        m->left->parent = m;
    }
    node->left = NULL;
    node->right = NULL;
    node->parent = NULL;
    node->key = 0;
}

VFS ngx_rbtree_node_t *
ngx_rbtree_next(ngx_rbtree_t *tree, ngx_rbtree_node_t *node)
{
    ngx_rbtree_node_t  *parent;

    if (node->right != tree->sentinel) {
        node = node->right;
        while (node->left != tree->sentinel) {
            node = node->left;
        }
        return node;
    }
    for ( ;; ) {
        parent = node->parent;
        if (parent == NULL) {
            return NULL;
        }
        if (node == parent->left) {
            return parent;
        }
        node = parent;
    }
}
#endif

/* ---- shared memory locks: the harness is the only thread in the section ---- */
#ifndef VF_OWN_SHMTX
VFS void ngx_shmtx_lock(ngx_shmtx_t *m) { }
VFS void ngx_shmtx_unlock(ngx_shmtx_t *m) { }
#endif
VFS ngx_uint_t ngx_shmtx_trylock(ngx_shmtx_t *m) { return 1; }
VFS ngx_int_t ngx_shmtx_create(ngx_shmtx_t *m, ngx_shmtx_sh_t *a, u_char *n) { return NGX_OK; }

VFS size_t ngx_inet6_ntop(u_char *p, u_char *text, size_t len) { return 0; }

/* ---- events ---- */
VFS ngx_int_t ngx_handle_read_event(ngx_event_t *rev, ngx_uint_t flags) { return NGX_OK; }
VFS ngx_int_t ngx_handle_write_event(ngx_event_t *wev, size_t lowat) { return NGX_OK; }

#endif
