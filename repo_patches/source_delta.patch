From 61d49f92e2b57a824fdcf6ccd07c530555a208cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 01/28] fix: request url fragment without args was left in path

scheme://host/path#fragment is a documented form; the fragment was only
looked for behind '?'.
---
 .../nginx-toolkit-module/ngx_toolkit_misc.c   | 50 +++++++++----------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_toolkit_misc.c b/modules/nginx-toolkit-module/ngx_toolkit_misc.c
index 8045460..c5dbfcd 100644
--- a/modules/nginx-toolkit-module/ngx_toolkit_misc.c
+++ b/modules/nginx-toolkit-module/ngx_toolkit_misc.c
@@ -173,7 +173,7 @@ ngx_sock_pton_inet(struct sockaddr *sa, u_char *text, size_t len)
 ngx_int_t
 ngx_parse_request_url(ngx_request_url_t *request_url, ngx_str_t *url)
 {
-    u_char                     *last, *host_last;
+    u_char                     *last, *host_last, *path_last;
     u_char                     *scheme;
     u_char                     *user, *host, *port;
     u_char                     *path, *args, *fragment;
@@ -248,30 +248,13 @@ ngx_parse_request_url(ngx_request_url_t *request_url, ngx_str_t *url)
         goto done;
     }
 
-    args = ngx_strlchr(path, last, '?');
-    if (args == NULL) { /* no args */
-        request_url->path.data = path;
-        request_url->path.len = last - path;
-
-        request_url->uri_with_args = request_url->path;
-
-        goto done;
-    } else {
-        request_url->path.data = path;
-        request_url->path.len = args - path;
-        ++args;
-        if (args == last) { /* args error */
-            return NGX_ERROR;
-        }
-    }
+    request_url->uri_with_args.data = path;
+    request_url->uri_with_args.len = last - path;
 
-    fragment = ngx_strlchr(args, last, '#');
-    if (fragment == NULL) { /* no fragment */
-        request_url->args.data = args;
-        request_url->args.len = last - args;
-    } else {
-        request_url->args.data = args;
-        request_url->args.len = fragment - args;
+    path_last = last;
+    fragment = ngx_strlchr(path, last, '#');
+    if (fragment != NULL) {
+        path_last = fragment;
         ++fragment;
         if (fragment == last) { /* fragment error */
             return NGX_ERROR;
@@ -281,8 +264,23 @@ ngx_parse_request_url(ngx_request_url_t *request_url, ngx_str_t *url)
         request_url->fragment.len = last - fragment;
     }
 
-    request_url->uri_with_args.data = path;
-    request_url->uri_with_args.len = last - path;
+    request_url->path.data = path;
+
+    args = ngx_strlchr(path, path_last, '?');
+    if (args == NULL) { /* no args */
+        request_url->path.len = path_last - path;
+
+        goto done;
+    }
+
+    request_url->path.len = args - path;
+    ++args;
+    if (args == last) { /* args error */
+        return NGX_ERROR;
+    }
+
+    request_url->args.data = args;
+    request_url->args.len = path_last - args;
 
 done:
     return NGX_OK;
-- 
2.43.0


From f36a2750af5497c17adac50aa33556e07052ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 02/28] fix: huge port number overflowed the multiport range
 check

---
 modules/nginx-multiport-module/ngx_multiport_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-multiport-module/ngx_multiport_misc.c b/modules/nginx-multiport-module/ngx_multiport_misc.c
index 98ec0eb..a3152c5 100644
--- a/modules/nginx-multiport-module/ngx_multiport_misc.c
+++ b/modules/nginx-multiport-module/ngx_multiport_misc.c
@@ -60,7 +60,7 @@ ngx_multiport_get_port_inet6(ngx_pool_t *pool, ngx_str_t *port,
     n = ngx_atoi(p, len);
 
     /* 65408 + 127 = 65535, pslot in [0, 127] */
-    if (n < 1 || n + pslot > 65408) {
+    if (n < 1 || n > 65408 - pslot) {
         ngx_log_error(NGX_LOG_ERR, ngx_cycle->log, 0, "invalid INET6 port");
         return NGX_ERROR;
     }
@@ -114,7 +114,7 @@ ngx_multiport_get_port_inet(ngx_pool_t *pool, ngx_str_t *port,
     n = ngx_atoi(p, len);
 
     /* 65408 + 127 = 65535, pslot in [0, 127] */
-    if (n < 1 || n + pslot > 65408) {
+    if (n < 1 || n > 65408 - pslot) {
         ngx_log_error(NGX_LOG_ERR, ngx_cycle->log, 0, "invalid port");
         return NGX_ERROR;
     }
-- 
2.43.0


From 156362b1949775d31c0ce2fa1d23577ae8744994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 03/28] fix: worker slot table was indexed past its end with
 more than 128 workers

---
 .../nginx-multiport-module/ngx_process_slot_module.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-multiport-module/ngx_process_slot_module.c b/modules/nginx-multiport-module/ngx_process_slot_module.c
index 201281b..dadce54 100644
--- a/modules/nginx-multiport-module/ngx_process_slot_module.c
+++ b/modules/nginx-multiport-module/ngx_process_slot_module.c
@@ -112,6 +112,10 @@ ngx_process_slot_process_init(ngx_cycle_t *cycle)
         return NGX_OK;
     }
 
+    if (ngx_worker >= MAX_PROCESSES) {
+        return NGX_OK;
+    }
+
     pscf = (ngx_process_slot_conf_t *) ngx_get_conf(cycle->conf_ctx,
                                                     ngx_process_slot_module);
     ctx = pscf->ctx;
@@ -137,6 +141,10 @@ ngx_process_slot_process_exit(ngx_cycle_t *cycle)
         return;
     }
 
+    if (ngx_worker >= MAX_PROCESSES) {
+        return;
+    }
+
     pscf = (ngx_process_slot_conf_t *) ngx_get_conf(cycle->conf_ctx,
                                                     ngx_process_slot_module);
     ctx = pscf->ctx;
@@ -155,7 +163,9 @@ ngx_multiport_get_slot(ngx_uint_t wpid)
     ccf = (ngx_core_conf_t *) ngx_get_conf(ngx_cycle->conf_ctx,
                                            ngx_core_module);
 
-    if (wpid >= (ngx_uint_t)ccf->worker_processes) {
+    if (wpid >= (ngx_uint_t)ccf->worker_processes
+        || wpid >= MAX_PROCESSES)
+    {
         return -1;
     }
 
-- 
2.43.0


From b733d5b3bdcd7d599b9926577fa35b27932063b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 04/28] fix: chain buffer put twice was linked into the free
 lists twice

---
 modules/nginx-toolkit-module/ngx_rbuf.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_rbuf.c b/modules/nginx-toolkit-module/ngx_rbuf.c
index 6b80bd5..0a30eb3 100644
--- a/modules/nginx-toolkit-module/ngx_rbuf.c
+++ b/modules/nginx-toolkit-module/ngx_rbuf.c
@@ -214,6 +214,14 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
         return;
     }
 
+    // delete chainbuf from using map
+    if (ngx_map_find(&ngx_rbuf_using, (intptr_t) cl) == NULL) {
+        ngx_log_error(NGX_LOG_EMERG, ngx_cycle->log, 0,
+                "destroy chainbuf twice: %s:%d", file, line);
+        return;
+    }
+    ngx_map_delete(&ngx_rbuf_using, (intptr_t) cl);
+
     cb = (ngx_chainbuf_t *) cl;
 
     if (cb->alloc) {
@@ -222,14 +230,6 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
     cl->next = ngx_rbuf_free_chain;
     ngx_rbuf_free_chain = cl;
     ++ngx_rbuf_nfree_chain;
-
-    // delete chainbuf from using map
-    if (ngx_map_find(&ngx_rbuf_using, (intptr_t) cl) == NULL) {
-        ngx_log_error(NGX_LOG_EMERG, ngx_cycle->log, 0,
-                "destroy chainbuf twice: %s:%d", file, line);
-        return;
-    }
-    ngx_map_delete(&ngx_rbuf_using, (intptr_t) cl);
 }
 
 ngx_chain_t *
-- 
2.43.0


From 5c93638fc165f8479c3541af8c82312bcb50e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 05/28] fix: reused chain buffer kept last_buf and other flags
 of its previous user

---
 modules/nginx-toolkit-module/ngx_rbuf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/nginx-toolkit-module/ngx_rbuf.c b/modules/nginx-toolkit-module/ngx_rbuf.c
index 0a30eb3..c85861f 100644
--- a/modules/nginx-toolkit-module/ngx_rbuf.c
+++ b/modules/nginx-toolkit-module/ngx_rbuf.c
@@ -170,6 +170,9 @@ ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc_rbuf, char *file, int line)
         cb = (ngx_chainbuf_t *) cl;
 
         --ngx_rbuf_nfree_chain;
+
+        /* flags of the previous user, last_buf for example */
+        ngx_memzero(cl->buf, sizeof(ngx_buf_t));
     } else {
         cb = ngx_pcalloc(ngx_rbuf_pool, sizeof(ngx_chainbuf_t));
         if (cb == NULL) {
-- 
2.43.0


From ac792be50054c7eb7d98911f33d457c2895b306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 06/28] fix: access rules were matched against a truncated IPv6
 client address

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 5 +++--
 modules/nginx-rtmp-module/ngx_rtmp_init.c              | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 53732ae..d5d670e 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -773,8 +773,9 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
 
             return NGX_HTTP_INTERNAL_SERVER_ERROR;
         }
-        s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-        ngx_memcpy(s->sockaddr, r->connection->sockaddr, sizeof(struct sockaddr));
+        s->sockaddr = ngx_pcalloc(s->pool, r->connection->socklen);
+        ngx_memcpy(s->sockaddr, r->connection->sockaddr,
+                   r->connection->socklen);
     }
 
     s->request = r;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 2455f9e..40527b0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -196,8 +196,8 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
     s->remote_addr_text.data = ngx_pcalloc(s->pool, c->addr_text.len);
     s->remote_addr_text.len = c->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data, c->addr_text.data, c->addr_text.len);
-    s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-    ngx_memcpy(s->sockaddr, c->sockaddr, sizeof(struct sockaddr));
+    s->sockaddr = ngx_pcalloc(s->pool, c->socklen);
+    ngx_memcpy(s->sockaddr, c->sockaddr, c->socklen);
 
     ngx_rtmp_init_session(s, c);
 
-- 
2.43.0


From 4e742a78bd4b77835561d0c57b093e8d557b2207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 07/28] fix: PROXY protocol header was not checked for its
 signature

---
 modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
index 1b24055..bda7f4f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
@@ -103,7 +103,7 @@ ngx_rtmp_proxy_protocol_recv(ngx_event_t *rev)
 
     p = buf;
 
-    if (n <= 8 && ngx_strncmp(p, "PROXY ", 6) != 0) {
+    if (n <= 8 || ngx_strncmp(p, "PROXY ", 6) != 0) {
         goto bad_header;
     }
 
-- 
2.43.0


From afffeae138331d8f5c71b7335fc999fdad19595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 08/28] fix: access rules ignored the client address from the
 PROXY protocol

---
 modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
index bda7f4f..61f7810 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
@@ -176,6 +176,7 @@ skip:
 
         c->sockaddr = addr.sockaddr;
         c->socklen = addr.socklen;
+        s->sockaddr = addr.sockaddr;
         c->addr_text.data = text;
         c->addr_text.len = len;
 
-- 
2.43.0


From cdfb596d198ade4dbeb200cb676d4838fc1fa0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 09/28] fix: max_connections was never enforced, connect event
 was not fired

---
 modules/nginx-rtmp-module/ngx_rtmp_init.c         | 5 +++++
 modules/nginx-rtmp-module/ngx_rtmp_limit_module.c | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 40527b0..9db2de8 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -206,6 +206,11 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
 
     s->interprocess = unix_socket;
 
+    if (ngx_rtmp_fire_event(s, NGX_RTMP_CONNECT, NULL, NULL) != NGX_OK) {
+        ngx_rtmp_finalize_session(s);
+        return;
+    }
+
     if (addr_conf->proxy_protocol) {
         ngx_rtmp_proxy_protocol(s);
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c b/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
index dae8143..fbdf892 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
@@ -102,6 +102,9 @@ ngx_rtmp_limit_connect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     n = ++*nconn;
     ngx_shmtx_unlock(&shpool->mutex);
 
+    /* counted: only such sessions are taken off on disconnect */
+    ngx_rtmp_set_ctx(s, nconn, ngx_rtmp_limit_module);
+
     rc = n > (ngx_uint_t) lmcf->max_conn ? NGX_ERROR : NGX_OK;
 
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
@@ -127,7 +130,9 @@ ngx_rtmp_limit_disconnect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     uint32_t                   *nconn, n;
 
     lmcf = ngx_rtmp_get_module_main_conf(s, ngx_rtmp_limit_module);
-    if (lmcf->max_conn == NGX_CONF_UNSET) {
+    if (lmcf->max_conn == NGX_CONF_UNSET
+        || ngx_rtmp_get_module_ctx(s, ngx_rtmp_limit_module) == NULL)
+    {
         return NGX_OK;
     }
 
-- 
2.43.0


From 2d0e237f9b0699ce5fede28f079d2d1d174accd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 10/28] fix: recycled frame kept msid and timestamp of its
 previous message

---
 modules/nginx-rtmp-module/ngx_rtmp_shared_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
index cdbf5d0..3646d94 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
@@ -219,7 +219,7 @@ ngx_rtmp_shared_alloc_frame(size_t size, ngx_chain_t *cl, ngx_flag_t mandatory)
     frame = rscf->free_frame;
     if (frame) {
         rscf->free_frame = frame->next;
-        frame->chain = NULL;
+        ngx_memzero(frame, sizeof(ngx_rtmp_frame_t));
         --rscf->nfree_frame;
     } else {
         frame = ngx_pcalloc(rscf->pool, sizeof(ngx_rtmp_frame_t));
-- 
2.43.0


From 9216c01ff27be3df43d236eb687df642ca852318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 11/28] fix: message length lowered in mid-message bypassed
 max_message

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 0b1c02e..2bae0a3 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -456,6 +456,14 @@ ngx_rtmp_recv(ngx_event_t *rev)
                 ngx_rtmp_finalize_session(s);
                 return;
             }
+
+            if (h->mlen < st->len) {
+                ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                        "message length %uD less than received %uD",
+                        h->mlen, st->len);
+                ngx_rtmp_finalize_session(s);
+                return;
+            }
         }
 
         size = b->last - b->pos;
-- 
2.43.0


From 19b414bd5dfebe135d4e7bf2a49ba053d1d27fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 12/28] fix: buffer overflow when chunk size is reduced with
 data pipelined behind it

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 2bae0a3..32b27a1 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -246,6 +246,16 @@ ngx_rtmp_recv(ngx_event_t *rev)
             ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                     "reusing formerly read data: %d", old_size);
 
+            if (old_size > (size_t) (b->end - b->start)) {
+                /* read with a larger chunk size */
+                b->start = ngx_palloc(s->in_pool, old_size);
+                if (b->start == NULL) {
+                    ngx_rtmp_finalize_session(s);
+                    return;
+                }
+                b->end = b->start + old_size;
+            }
+
             b->pos = b->start;
             b->last = ngx_movemem(b->pos, old_pos, old_size);
 
-- 
2.43.0


From 55ef4453a91bcf0631baea456dd8f3bc7f2d4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 13/28] fix: part of an unfinished message was lost when chunk
 size changed

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 32b27a1..c6c2305 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -959,6 +959,7 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
 
                 bi->pos += (ngx_cpymem(bo->last, bi->pos,
                             bo->end - bo->last) - bo->last);
+                bo->last = bo->end;
                 lo->next = ngx_rtmp_alloc_in_buf(s);
                 lo = lo->next;
                 if (lo == NULL) {
-- 
2.43.0


From 66d30439e6de2657a1d06a7acabf2122d28c86b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 14/28] fix: invalid chunk size from peer was accepted

---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index dbf662a..e4701d7 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -39,8 +39,12 @@ ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
     switch(h->type) {
         case NGX_RTMP_MSG_CHUNK_SIZE:
             /* set chunk size =val */
-            ngx_rtmp_set_chunk_size(s, val);
-            break;
+            if (val == 0 || val > 0x7fffffff) {
+                ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                        "invalid chunk size: %uD", val);
+                return NGX_ERROR;
+            }
+            return ngx_rtmp_set_chunk_size(s, val);
 
         case NGX_RTMP_MSG_ABORT:
             /* abort chunk stream =val */
-- 
2.43.0


From 575e9f7de1f8b53387c5bfe0c8e4aea3a2a106bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 15/28] fix: nested aggregate messages recursed without limit

---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index e4701d7..8ee66a1 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -312,6 +312,12 @@ ngx_rtmp_aggregate_message_handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                        (ngx_int_t) ch.type, ch.mlen, ch.timestamp,
                        timestamp - base_time, ch.msid);
 
+        if (ch.type == NGX_RTMP_MSG_AGGREGATE) {
+            ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                          "RTMP aggregate inside aggregate");
+            return NGX_ERROR;
+        }
+
         /* limit chain */
 
         len = 0;
-- 
2.43.0


From 9942ca5b2df0a91f8708b322a7c6689bbc0d3201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 16/28] fix: abort message was sent with the type of set chunk
 size

---
 modules/nginx-rtmp-module/ngx_rtmp_send.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_send.c b/modules/nginx-rtmp-module/ngx_rtmp_send.c
index cc54afc..8a24196 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_send.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_send.c
@@ -98,7 +98,7 @@ ngx_rtmp_create_abort(ngx_rtmp_session_t *s, uint32_t csid)
                    "create: abort csid=%uD", csid);
 
     {
-        NGX_RTMP_USER_START(s, NGX_RTMP_MSG_CHUNK_SIZE);
+        NGX_RTMP_USER_START(s, NGX_RTMP_MSG_ABORT);
 
         NGX_RTMP_USER_OUT4(csid);
 
-- 
2.43.0


From 97b163669afcd24ff369f649b43c7ada74158002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 17/28] fix: null dereference on AMF object that ends before an
 unknown value

---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index 77521ec..fed9007 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -328,7 +328,7 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         } else {
             switch (ngx_rtmp_amf_get(ctx, &type8, 1)) {
                 case NGX_DONE:
-                    if (elts->type & NGX_RTMP_AMF_OPTIONAL) {
+                    if (elts && elts->type & NGX_RTMP_AMF_OPTIONAL) {
                         return NGX_OK;
                     } else {
                         return NGX_ERROR;
-- 
2.43.0


From 64f2355811213087e371502e384879e7c497fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 18/28] fix: deeply nested AMF value overflowed the stack

---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 13 +++++++++++++
 modules/nginx-rtmp-module/ngx_rtmp_amf.h |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index fed9007..09da58e 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -179,6 +179,10 @@ ngx_rtmp_amf_read_object(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
     ngx_int_t               rc;
     u_char                  buf[2];
 
+    if (++ctx->depth > NGX_RTMP_AMF_MAX_DEPTH) {
+        return NGX_ERROR;
+    }
+
     maxlen = 0;
     for(n = 0; n < nelts; ++n) {
         namelen = elts[n].name.len;
@@ -200,6 +204,7 @@ ngx_rtmp_amf_read_object(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         switch (ngx_rtmp_amf_get(ctx, buf, 2)) {
         case NGX_DONE:
             /* Envivio sends unfinalized arrays */
+            --ctx->depth;
             return NGX_OK;
         case NGX_OK:
             break;
@@ -242,6 +247,8 @@ ngx_rtmp_amf_read_object(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         return NGX_ERROR;
     }
 
+    --ctx->depth;
+
     return NGX_OK;
 }
 
@@ -254,6 +261,10 @@ ngx_rtmp_amf_read_array(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
     size_t                  n;
     u_char                  buf[4];
 
+    if (++ctx->depth > NGX_RTMP_AMF_MAX_DEPTH) {
+        return NGX_ERROR;
+    }
+
     /* read length */
     if (ngx_rtmp_amf_get(ctx, buf, 4) != NGX_OK)
         return NGX_ERROR;
@@ -265,6 +276,8 @@ ngx_rtmp_amf_read_array(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
             return NGX_ERROR;
     }
 
+    --ctx->depth;
+
     return NGX_OK;
 }
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.h b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
index 8f70a12..67c1d62 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
@@ -29,6 +29,9 @@
 #define NGX_RTMP_AMF_INT32              0x0102
 #define NGX_RTMP_AMF_VARIANT_           0x0103
 
+/* nesting of objects and arrays accepted from peer */
+#define NGX_RTMP_AMF_MAX_DEPTH          64
+
 /* r/w flags */
 #define NGX_RTMP_AMF_OPTIONAL           0x1000
 #define NGX_RTMP_AMF_TYPELESS           0x2000
@@ -55,6 +58,7 @@ typedef struct {
     ngx_rtmp_amf_alloc_pt               alloc;
     void                               *arg;
     ngx_log_t                          *log;
+    ngx_uint_t                          depth;
 } ngx_rtmp_amf_ctx_t;
 
 
-- 
2.43.0


From d56785d72fd5686f044c991c2c03a2c5ec056953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 19/28] fix: AMF message larger than chunk_size lost its
 beginning

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 4 +++-
 modules/nginx-rtmp-module/ngx_rtmp_send.c         | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 37a3ecb..2c6e359 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -994,6 +994,7 @@ ngx_rtmp_codec_dump_header(ngx_rtmp_session_t *s, const char *type,
 static ngx_int_t
 ngx_rtmp_codec_reconstruct_meta(ngx_rtmp_session_t *s)
 {
+    ngx_chain_t                    *last;
     ngx_rtmp_codec_ctx_t           *ctx;
     ngx_rtmp_core_srv_conf_t       *cscf;
     ngx_int_t                       rc;
@@ -1105,7 +1106,8 @@ ngx_rtmp_codec_reconstruct_meta(ngx_rtmp_session_t *s)
     ngx_memcpy(v.profile, ctx->profile, sizeof(ctx->profile));
     ngx_memcpy(v.level, ctx->level, sizeof(ctx->level));
 
-    rc = ngx_rtmp_append_amf(s, &ctx->meta->chain, &ctx->meta->chain, out_elts,
+    last = ctx->meta->chain;
+    rc = ngx_rtmp_append_amf(s, &ctx->meta->chain, &last, out_elts,
                              sizeof(out_elts) / sizeof(out_elts[0]));
     if (rc != NGX_OK || ctx->meta == NULL) {
         return NGX_ERROR;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_send.c b/modules/nginx-rtmp-module/ngx_rtmp_send.c
index 8a24196..c263dc5 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_send.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_send.c
@@ -420,6 +420,7 @@ ngx_rtmp_create_amf(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_int_t                   rc;
     ngx_rtmp_core_srv_conf_t   *cscf;
     ngx_rtmp_frame_t           *frame;
+    ngx_chain_t                *last;
 
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "create: amf nelts=%ui", nelts);
@@ -429,7 +430,9 @@ ngx_rtmp_create_amf(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     frame = ngx_rtmp_shared_alloc_frame(cscf->chunk_size, NULL, 1);
     frame->hdr = *h;
 
-    rc = ngx_rtmp_append_amf(s, &frame->chain, &frame->chain, elts, nelts);
+    last = frame->chain;
+
+    rc = ngx_rtmp_append_amf(s, &frame->chain, &last, elts, nelts);
 
     if (rc != NGX_OK) {
         ngx_rtmp_shared_free_frame(frame);
-- 
2.43.0


From 5d745c8bb09165082610a33023eec7337b037269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 20/28] fix: gop cache kept pointers to frames it had given
 back

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 8cbee81..6e2f69a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -291,6 +291,7 @@ ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
     {
         if (ctx->cache[pos]->av_header) {
             ngx_rtmp_gop_reset_avheader(ctx, ctx->cache[pos]);
+            ctx->cache[pos] = NULL;
             ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
             continue;
         }
@@ -706,18 +707,25 @@ ngx_rtmp_gop_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
 
     if (ctx->avc_header) {
         ngx_rtmp_shared_free_frame(ctx->avc_header);
+        ctx->avc_header = NULL;
     }
 
     if (ctx->aac_header) {
         ngx_rtmp_shared_free_frame(ctx->aac_header);
+        ctx->aac_header = NULL;
     }
 
     /* free cache in publisher */
     while (ctx->gop_pos != ctx->gop_last) {
         ngx_rtmp_shared_free_frame(ctx->cache[ctx->gop_pos]);
+        ctx->cache[ctx->gop_pos] = NULL;
         ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
     }
 
+    ctx->keyframe = NULL;
+    ctx->latest_aac_header = NULL;
+    ctx->latest_avc_header = NULL;
+
 next:
     return next_close_stream(s, v);
 }
-- 
2.43.0


From 6e0e998d4f407f7ec92a0e6f988d83e6b9af615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:16 +0000
Subject: [PATCH 21/28] fix: live server used again kept its old link, stream
 that could not be made was counted

---
 modules/nginx-rtmp-module/ngx_live.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live.c b/modules/nginx-rtmp-module/ngx_live.c
index 1e89270..1dde7af 100644
--- a/modules/nginx-rtmp-module/ngx_live.c
+++ b/modules/nginx-rtmp-module/ngx_live.c
@@ -146,6 +146,7 @@ ngx_live_get_server(ngx_str_t *serverid)
     } else {
         lcf->free_server = srv->next;
         --lcf->free_server_count;
+        srv->next = NULL;
     }
 
     *ngx_cpymem(srv->serverid, serverid->data, serverid->len) = 0;
@@ -208,6 +209,10 @@ ngx_live_get_stream(ngx_str_t *stream)
     st = lcf->free_stream;
     if (st == NULL) {
         st = ngx_pcalloc(lcf->pool, sizeof(ngx_live_stream_t));
+        if (st == NULL) {
+            return NULL;
+        }
+
         ++lcf->alloc_stream_count;
     } else {
         lcf->free_stream = st->next;
@@ -303,6 +308,10 @@ ngx_live_create_stream(ngx_str_t *serverid, ngx_str_t *stream)
     }
 
     *pst = ngx_live_get_stream(stream);
+    if (*pst == NULL) {
+        return NULL;
+    }
+
     ++(*psrv)->n_stream;
 
     return *pst;
-- 
2.43.0


From 12754ea7347154c3919fbe76f5ebbe936292b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:30 +0000
Subject: [PATCH 22/28] fix: session that plays and publishes was left in a
 list after its end, crash on a stream name too long

---
 modules/nginx-rtmp-module/ngx_live.c            |  3 +++
 modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c | 15 ++++++++++++---
 modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h |  2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live.c b/modules/nginx-rtmp-module/ngx_live.c
index 1dde7af..213eca2 100644
--- a/modules/nginx-rtmp-module/ngx_live.c
+++ b/modules/nginx-rtmp-module/ngx_live.c
@@ -378,6 +378,9 @@ ngx_live_create_ctx(ngx_rtmp_session_t *s, unsigned publishing)
         }
 
         ngx_rtmp_set_ctx(s, ctx, ngx_rtmp_core_module);
+    } else {
+        /* session may be linked in the other list already */
+        ngx_live_delete_ctx(s);
     }
 
     ctx->publishing = publishing;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index b29d002..24a548a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -182,7 +182,7 @@ ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s)
     }
 }
 
-void
+ngx_int_t
 ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
         unsigned publishing)
 {
@@ -214,11 +214,16 @@ ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
     }
 
     s->live_stream = ngx_live_create_stream(&s->serverid, &s->stream);
+    if (s->live_stream == NULL) {
+        return NGX_ERROR;
+    }
 
     ngx_live_create_ctx(s, publishing);
     s->publishing = publishing;
 
     ngx_rtmp_notify_stream_start(s);
+
+    return NGX_OK;
 }
 
 ngx_int_t
@@ -234,7 +239,9 @@ ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
     s->published = 1;
 
     if (!s->relay) { /* relay pull */
-        ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1);
+        if (ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1) != NGX_OK) {
+            return NGX_ERROR;
+        }
     }
 
     return ngx_rtmp_publish(s, v);
@@ -253,7 +260,9 @@ ngx_rtmp_play_filter(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
     s->played = 1;
 
     if (!s->relay) { /* relay push */
-        ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0);
+        if (ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0) != NGX_OK) {
+            return NGX_ERROR;
+        }
     }
 
     return ngx_rtmp_play(s, v);
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
index 5bc3c03..1c1114f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
@@ -103,7 +103,7 @@ typedef struct {
 void ngx_rtmp_cmd_fill_args(u_char name[NGX_RTMP_MAX_NAME],
         u_char args[NGX_RTMP_MAX_ARGS]);
 void ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s);
-void ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
+ngx_int_t ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
         unsigned publishing);
 
 ngx_int_t ngx_rtmp_publish_filter(ngx_rtmp_session_t *s,
-- 
2.43.0


From 3a5162abec4bf67f18c280201aca487e9de3dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 23/28] fix: header of a codec wrote beyond the stack and could
 loop without end

---
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c  | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 2c6e359..affbcb9 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -441,7 +441,7 @@ ngx_rtmp_codec_parse_hevc_nal_to_rbsp(ngx_rtmp_session_t *s, u_char *p,
 
     count = 0;
     rbsp_bytes = 0;
-    for (i = 0; i < nal_unit_len; ++i) {
+    for (i = 0; i + 2 < nal_unit_len; ++i) { /* header has been read */
         if (count == 2) { /* already 0x0000 */
             if (br->pos[i] < 0x03) {
                 ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -449,7 +449,9 @@ ngx_rtmp_codec_parse_hevc_nal_to_rbsp(ngx_rtmp_session_t *s, u_char *p,
                 return NGX_ERROR;
             }
 
-            if (br->pos[i] == 0x03 && br->pos[i + 1] > 0x03) {
+            if (br->pos[i] == 0x03 && i + 3 < nal_unit_len
+                && br->pos[i + 1] > 0x03)
+            {
                 ngx_log_error(NGX_LOG_ERR, s->log, 0,
                         "four bytes sequence error");
                 return NGX_ERROR;
@@ -579,6 +581,14 @@ ngx_rtmp_codec_parse_hevc_sps(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *ctx,
     u_char                  buf[4096];
     ngx_int_t               rbsp_bytes;
 
+    if (nal_unit_len < 2 || nal_unit_len > sizeof(buf)
+        || nal_unit_len > (ngx_uint_t) (pbr->last - pbr->pos))
+    {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                "hevc sps length error: %ui", nal_unit_len);
+        return;
+    }
+
     ngx_rtmp_bit_init_reader(&br, pbr->pos, pbr->pos + nal_unit_len);
     rbsp_bytes = ngx_rtmp_codec_parse_hevc_nal_to_rbsp(s, buf, &br, NAL_SPS,
                                                        nal_unit_len);
@@ -906,7 +916,7 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
         /* num ref frames in pic order */
         num_ref_frames = (ngx_uint_t) ngx_rtmp_bit_read_golomb(&br);
 
-        for (n = 0; n < num_ref_frames; n++) {
+        for (n = 0; n < num_ref_frames && !br.err; n++) {
 
             /* offset for ref frame */
             ngx_rtmp_bit_read_golomb(&br);
@@ -976,7 +986,7 @@ ngx_rtmp_codec_dump_header(ngx_rtmp_session_t *s, const char *type,
     u_char hex[] = "0123456789abcdef";
 
     for (pp = buf, p = in->buf->pos;
-         p < in->buf->last && pp < buf + sizeof(buf) - 1;
+         p < in->buf->last && pp < buf + sizeof(buf) - 2;
          ++p)
     {
         *pp++ = hex[*p >> 4];
-- 
2.43.0


From 739c00c0d82830f399868a7b345b514212ae2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:24 +0000
Subject: [PATCH 24/28] fix: size of a picture that is cropped, type of an
 empty video message, golomb code longer than 64 bits

---
 modules/nginx-rtmp-module/ngx_rtmp_bitop.c        | 5 +++++
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_bitop.c b/modules/nginx-rtmp-module/ngx_rtmp_bitop.c
index 855d425..756c441 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_bitop.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_bitop.c
@@ -59,5 +59,10 @@ ngx_rtmp_bit_read_golomb(ngx_rtmp_bit_reader_t *br)
 
     for (n = 0; ngx_rtmp_bit_read(br, 1) == 0 && !br->err; n++);
 
+    if (n > 63) {
+        br->err = 1;
+        return 0;
+    }
+
     return ((uint64_t) 1 << n) + ngx_rtmp_bit_read(br, n) - 1;
 }
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index affbcb9..7ed5c4f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -219,7 +219,7 @@ ngx_rtmp_codec_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
-    if (h->type == NGX_RTMP_MSG_VIDEO) {
+    if (h->type == NGX_RTMP_MSG_VIDEO && in->buf->last > in->buf->pos) {
         frametype = in->buf->pos[0] & 0xf0;
         if (frametype != 0x10 && frametype != 0x20) {
             ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -692,8 +692,8 @@ ngx_rtmp_codec_parse_hevc_sps(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *ctx,
          *  pic_height_in_luma_samples -
          *  (SubHeightC * conf_win_bottom_offset + 1)
          */
-        ctx->width = width - (subwidthC * cwro + 1) - (subwidthC * cwlo);
-        ctx->height = height - (subheightC * cwbo + 1) - (subheightC * cwto);
+        ctx->width = width - subwidthC * cwro - subwidthC * cwlo;
+        ctx->height = height - subheightC * cwbo - subheightC * cwto;
     } else {
         ctx->width = width;
         ctx->height = height;
@@ -965,7 +965,7 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 
    ctx->width = (width + 1) * 16 - (crop_left + crop_right) * 2;
    ctx->height = (2 - frame_mbs_only) * (height + 1) * 16 -
-                 (crop_top + crop_bottom) * 2;
+                 (2 - frame_mbs_only) * (crop_top + crop_bottom) * 2;
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0,
                    "sps codec: avc header "
-- 
2.43.0


From cc67239d147aae83c0accd7a00900137d0d61ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:53 +0000
Subject: [PATCH 25/28] fix: table of codec variables had no end

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 7ed5c4f..2e6a9e7 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -102,7 +102,8 @@ static ngx_rtmp_variable_t  ngx_rtmp_codec_variabes[] = {
     { ngx_string("metadata"), NULL, ngx_rtmp_codec_variable_metadata,
       0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 },
     { ngx_string("metadata_"), NULL, ngx_rtmp_codec_variable_metadata_arg,
-      0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 }
+      0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 },
+    { ngx_null_string, NULL, NULL, 0, 0, 0 }
 };
 
 static const char *
-- 
2.43.0


From d3a39767559ca919f8d5f011eba995dae882694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 26/28] fix: record: a failed write closes the record and
 nothing more is written

The descriptor was closed but kept, so that later frames were written to
whatever got it next; a failure within the frame left a broken tag behind.
---
 modules/nginx-rtmp-module/ngx_rtmp_record_module.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 4cff47e..7b48367 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -925,7 +925,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
     {
         ngx_rtmp_record_notify_error(s, rctx);
 
-        ngx_close_file(rctx->file.fd);
+        ngx_rtmp_record_node_close(s, rctx);
 
         return NGX_ERROR;
     }
@@ -945,6 +945,10 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                            - in->buf->pos, rctx->file.offset)
             == NGX_ERROR)
         {
+            ngx_rtmp_record_notify_error(s, rctx);
+
+            ngx_rtmp_record_node_close(s, rctx);
+
             return NGX_ERROR;
         }
     }
@@ -962,6 +966,10 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                        rctx->file.offset)
         == NGX_ERROR)
     {
+        ngx_rtmp_record_notify_error(s, rctx);
+
+        ngx_rtmp_record_node_close(s, rctx);
+
         return NGX_ERROR;
     }
 
-- 
2.43.0


From f1cccc5e669ec573e783cdca3b6cb7c3118f21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:22 +0000
Subject: [PATCH 27/28] fix: http flv live: send the first messages when the
 response header is still buffered; keep within the URI and the name

---
 .../http/ngx_http_flv_live_module.c               | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
index 91862f6..bc66a80 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
@@ -318,8 +318,10 @@ ngx_http_flv_live_write_handler(ngx_http_request_t *r)
     size_t                              present, sent;
     ngx_int_t                           rc;
     ngx_chain_t                        *cl;
+    ngx_flag_t                          queued;
 
     wev = r->connection->write;
+    queued = 1;
 
     if (r->connection->destroyed) {
         return;
@@ -359,6 +361,9 @@ ngx_http_flv_live_write_handler(ngx_http_request_t *r)
     }
 
     if (s->out_chain) {
+        /* out_chain is not passed yet even if the header is buffered */
+        queued = r->header_sent;
+
         rc = ngx_http_flv_live_send_header(r);
         if (rc == NGX_ERROR || rc > NGX_OK) {
             s->finalize_reason = NGX_LIVE_FLV_SEND_ERR;
@@ -370,12 +375,14 @@ ngx_http_flv_live_write_handler(ngx_http_request_t *r)
     while (s->out_chain) {
         present = r->connection->sent;
 
-        if (r->connection->buffered) {
+        if (r->connection->buffered && queued) {
             rc = ngx_http_output_filter(r, NULL);
         } else {
             rc = ngx_http_output_filter(r, s->out_chain);
         }
 
+        queued = 1;
+
         sent = r->connection->sent - present;
 
         s->out_bytes += sent;
@@ -439,7 +446,7 @@ ngx_http_flv_live_parse_url(ngx_http_request_t *r, ngx_str_t *app,
     p = (u_char *) ngx_strnstr(p, "/", end - p);
     while (p) {
         name->data = p;
-        p = (u_char *) ngx_strnstr(p + 1, "/", end - p);
+        p = (u_char *) ngx_strnstr(p + 1, "/", end - p - 1);
     }
 
     if (name->data == NULL) {
@@ -468,7 +475,7 @@ ngx_http_flv_live_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     ngx_http_flv_live_parse_url(r, &app, &stream);
 
-    if (app.len == 0 || stream.len == 0 || stream.len > NGX_RTMP_MAX_NAME) {
+    if (app.len == 0 || stream.len == 0 || stream.len >= NGX_RTMP_MAX_NAME) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "http flv live, url error: %V", &r->uri);
         return NGX_HTTP_BAD_REQUEST;
@@ -532,7 +539,7 @@ ngx_http_flv_live_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     if (r->args.len) {
         ngx_memcpy(v->args, r->args.data,
-                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS));
+                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS - 1));
     }
 
     ngx_rtmp_cmd_middleware_init(s);
-- 
2.43.0


From a6cd6db68b5acd3b539bb54915b18fd75a891678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:22 +0000
Subject: [PATCH 28/28] fix: mpegts http: send the first messages when the
 response header is still buffered; keep within the URI and the name

---
 .../mpegts/ngx_mpegts_http_module.c               | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 64061d2..9b60ce8 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -145,8 +145,10 @@ ngx_mpegts_http_write_handler(ngx_http_request_t *r)
     size_t                   present, sent;
     ngx_int_t                rc;
     ngx_chain_t             *cl;
+    ngx_flag_t               queued;
 
     wev = r->connection->write;
+    queued = 1;
 
     if (r->connection->destroyed) {
         return;
@@ -186,6 +188,9 @@ ngx_mpegts_http_write_handler(ngx_http_request_t *r)
     }
 
     if (s->out_chain) {
+        /* out_chain is not passed yet even if the header is buffered */
+        queued = r->header_sent;
+
         rc = ngx_mpegts_http_send_header(r);
         if (rc == NGX_ERROR || rc > NGX_OK) {
             s->finalize_reason = NGX_LIVE_FLV_SEND_ERR;
@@ -197,12 +202,14 @@ ngx_mpegts_http_write_handler(ngx_http_request_t *r)
     while (s->out_chain) {
         present = r->connection->sent;
 
-        if (r->connection->buffered) {
+        if (r->connection->buffered && queued) {
             rc = ngx_http_output_filter(r, NULL);
         } else {
             rc = ngx_http_output_filter(r, s->out_chain);
         }
 
+        queued = 1;
+
         sent = r->connection->sent - present;
 
         s->out_bytes += sent;
@@ -266,7 +273,7 @@ ngx_mpegts_http_parse_url(ngx_http_request_t *r, ngx_str_t *app,
     p = (u_char *) ngx_strnstr(p, "/", end - p);
     while (p) {
         name->data = p;
-        p = (u_char *) ngx_strnstr(p + 1, "/", end - p);
+        p = (u_char *) ngx_strnstr(p + 1, "/", end - p - 1);
     }
 
     if (name->data == NULL) {
@@ -295,7 +302,7 @@ ngx_mpegts_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     ngx_mpegts_http_parse_url(r, &app, &stream);
 
-    if (app.len == 0 || stream.len == 0 || stream.len > NGX_RTMP_MAX_NAME) {
+    if (app.len == 0 || stream.len == 0 || stream.len >= NGX_RTMP_MAX_NAME) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "mpegts-http: http_parse| url error: %V", &r->uri);
         return NGX_HTTP_BAD_REQUEST;
@@ -359,7 +366,7 @@ ngx_mpegts_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     if (r->args.len) {
         ngx_memcpy(v->args, r->args.data,
-                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS));
+                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS - 1));
     }
 
     ngx_rtmp_cmd_middleware_init(s);
-- 
2.43.0

