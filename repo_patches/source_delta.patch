From ad162db26780e42741b2316e9b2379fd7cd72f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:45 +0000
Subject: [PATCH 01/58] fix: read one byte extended option delta and length as
 unsigned

---
 lib/src/coap_msg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index af1c50d..417b331 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -566,7 +566,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_delta += p[0];
+        op_delta += (unsigned char)p[0];
         p++;
         len--;
     }
@@ -586,7 +586,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_len += p[0];
+        op_len += (unsigned char)p[0];
         p++;
         len--;
     }
-- 
2.43.0


From fcc184b8dff34f18ff03c8b2d1c91c8b71dd5477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:45 +0000
Subject: [PATCH 02/58] fix: do not read past the end of a message that ends
 after its options

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 417b331..69ca26f 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -640,7 +640,7 @@ static ssize_t coap_msg_parse_ops(coap_msg_t *msg, char *buf, size_t len)
 
     while (1)
     {
-        if (((p[0] & 0xff) == 0xff) || (len == 0))
+        if ((len == 0) || ((p[0] & 0xff) == 0xff))
         {
             break;
         }
-- 
2.43.0


From 32b9b5679512163a74cdec7d9531ec43efeea787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:45 +0000
Subject: [PATCH 03/58] fix: use the option length to calculate the space for
 the option length

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 69ca26f..040c75e 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -931,7 +931,7 @@ static ssize_t coap_msg_format_op(coap_msg_op_t *op, unsigned prev_num, char *bu
     {
         num += 2;
     }
-    else if (op->num >= 13)
+    else if (op->len >= 13)
     {
         num += 1;
     }
-- 
2.43.0


From cd783f98ac5fb3e0eb8e5f41eaa3cdb6eedeb37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:45 +0000
Subject: [PATCH 04/58] fix: return an option to the allocator it came from

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 040c75e..3b06442 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -206,7 +206,7 @@ static coap_msg_op_t *coap_msg_op_new(unsigned num, unsigned len, const char *va
     op->val = (char *)coap_mem_medium_alloc(len);
     if (op->val == NULL)
     {
-        coap_mem_medium_free(op);
+        coap_mem_small_free(op);
         return NULL;
     }
     memcpy(op->val, val, len);
-- 
2.43.0


From 4411aa90dec88d3cbfef009dc5447e7663bf12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:46 +0000
Subject: [PATCH 05/58] fix: parse empty block option values and reject
 oversized ones

---
 lib/src/coap_msg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 3b06442..7e0ef16 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -109,6 +109,11 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
 {
     switch (len)
     {
+    case 0:
+        *size = 1 << 4;
+        *more = 0;
+        *num = 0;
+        break;
     case 1:
         *size = 1 << ((val[0] & 0x07) + 4);
         *more = !!(val[0] & 0x08);
@@ -120,12 +125,15 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
         *num = ((unsigned)(unsigned char)val[0] << 4)
              | (((unsigned)(unsigned char)val[1] & 0x000000f0) >> 4);
         break;
-    default:
+    case 3:
         *size = 1 << ((val[2] & 0x07) + 4);
         *more = !!(val[2] & 0x08);
         *num = ((unsigned)(unsigned char)val[0] << 12)
              | ((unsigned)(unsigned char)val[1] << 4)
              | (((unsigned)(unsigned char)val[2] & 0x000000f0) >> 4);
+        break;
+    default:
+        return -EINVAL;
     }
     if (*size > COAP_MSG_OP_MAX_BLOCK_SIZE)
     {
-- 
2.43.0


From 4801474ad9c3202a69d1d42e96924a76f369a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:46 +0000
Subject: [PATCH 06/58] fix: reject block numbers that do not fit in the block
 option value

---
 lib/src/coap_msg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 7e0ef16..a44315d 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -157,7 +157,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
     switch (len)
     {
     case 1:
-        if (num > (1 << 4))
+        if (num >= (1 << 4))
         {
             return -EINVAL;
         }
@@ -166,7 +166,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[0] |= szx;
         return 1;
     case 2:
-        if (num > (1 << 12))
+        if (num >= (1 << 12))
         {
             return -EINVAL;
         }
@@ -176,7 +176,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[1] |= szx;
         return 2;
     case 3:
-        if (num > (1 << 20))
+        if (num >= (1 << 20))
         {
             return -EINVAL;
         }
-- 
2.43.0


From 175e03228e8aac36472113f6aea11d12785c763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:46 +0000
Subject: [PATCH 07/58] fix: reject options that cannot be represented in a
 message

---
 lib/src/coap_msg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index a44315d..c0fd563 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -40,6 +40,8 @@
 #include "coap_msg.h"
 #include "coap_mem.h"
 
+#define COAP_MSG_OP_MAX_EXT                    (269 + 0xffff)                   /**< Maximum option delta and length that can be represented in a message */
+
 #define coap_msg_op_list_get_first(list)       ((list)->first)                  /**< Get the first option from an option linked-list */
 #define coap_msg_op_list_get_last(list)        ((list)->last)                   /**< Get the last option in an option linked-list */
 #define coap_msg_op_list_is_empty(list)        ((list)->first == NULL)          /**< Indicate whether or not an option linked-list is empty */
@@ -922,6 +924,10 @@ static ssize_t coap_msg_format_op(coap_msg_op_t *op, unsigned prev_num, char *bu
     char *p = buf;
 
     op_delta = op->num - prev_num;
+    if ((op_delta > COAP_MSG_OP_MAX_EXT) || (op->len > COAP_MSG_OP_MAX_EXT))
+    {
+        return -EINVAL;
+    }
     num++;
 
     /* option delta */
-- 
2.43.0


From 7a3d113ccc707955394c768f2544c11f49f46d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:03 +0000
Subject: [PATCH 08/58] fix: do not treat the first request from a client as a
 duplicate when its message ID is zero

---
 lib/src/coap_server.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 30f0bc0..dbcc9fb 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1364,8 +1364,6 @@ static int coap_server_trans_create(coap_server_trans_t *trans, coap_server_t *s
         memset(trans, 0, sizeof(coap_server_trans_t));
         return -errno;
     }
-    coap_msg_create(&trans->req);
-    coap_msg_create(&trans->resp);
     trans->server = server;
 #ifdef COAP_DTLS_EN
     ret = coap_server_trans_dtls_create(trans);
-- 
2.43.0


From f1f79106ec5584f7d566f6e1a1212c34e3ba8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:03 +0000
Subject: [PATCH 09/58] fix: stop waiting for an acknowledgement of a response
 that has been replaced

---
 lib/src/coap_server.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index dbcc9fb..1c5c265 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2392,6 +2392,13 @@ static int coap_server_exchange(coap_server_t *server)
     /* clear details of the previous request/response */
     coap_server_trans_clear_req(trans);
     coap_server_trans_clear_resp(trans);
+    ret = coap_server_trans_stop_ack_timer(trans);
+    if (ret < 0)
+    {
+        coap_server_trans_destroy(trans);
+        coap_msg_destroy(&recv_msg);
+        return ret;
+    }
 
     /* determine response type */
     if (coap_msg_get_type(&recv_msg) == COAP_MSG_CON)
-- 
2.43.0


From 31cd896fed56bb98c21f6ba8642cc1c902ccf86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:03 +0000
Subject: [PATCH 10/58] fix: reject empty confirmable messages instead of
 passing them to the application

---
 lib/src/coap_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 1c5c265..da68b70 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2372,7 +2372,8 @@ static int coap_server_exchange(coap_server_t *server)
     /* check for a valid request */
     if ((coap_msg_get_type(&recv_msg) == COAP_MSG_ACK)
      || (coap_msg_get_type(&recv_msg) == COAP_MSG_RST)
-     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ))
+     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ)
+     || (coap_msg_is_empty(&recv_msg)))
     {
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-- 
2.43.0


From ec127e628efed8130ce7af0956b9774979cfd84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:03 +0000
Subject: [PATCH 11/58] fix: do not forget the last request from a client when
 rejecting an unexpected message

---
 lib/src/coap_server.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index da68b70..bfefaaa 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2377,7 +2377,6 @@ static int coap_server_exchange(coap_server_t *server)
     {
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-        coap_server_trans_destroy(trans);
         return -EBADMSG;
     }
 
-- 
2.43.0


From 0faf03c762b81eb968ccae2cb0b865dc8c9c2566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:03 +0000
Subject: [PATCH 12/58] fix: reject datagrams that are too long for the server
 receive buffer

---
 lib/src/coap_server.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index bfefaaa..a629c3b 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1080,11 +1080,16 @@ static ssize_t coap_server_trans_recv(coap_server_trans_t *trans, coap_msg_t *ms
     {
         return -EINVAL;
     }
-    num = recvfrom(server->sd, buf, num, 0, (struct sockaddr *)&client_sin, &client_sin_len);
+    num = recvfrom(server->sd, buf, sizeof(buf), MSG_TRUNC, (struct sockaddr *)&client_sin, &client_sin_len);
     if (num < 0)
     {
         return -errno;
     }
+    if ((size_t)num > sizeof(buf))
+    {
+        coap_server_trans_handle_format_error(trans, buf, sizeof(buf));
+        return -EBADMSG;
+    }
 #endif
     ret = coap_msg_parse(msg, buf, num);
     if (ret < 0)
-- 
2.43.0


From a7f0c2f5a3f14c66857b3bbd6101da425112e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:03 +0000
Subject: [PATCH 13/58] fix: reject datagrams that are too long for the client
 receive buffer

---
 lib/src/coap_client.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 812d1cd..6b6135c 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -938,11 +938,16 @@ static ssize_t coap_client_recv(coap_client_t *client, coap_msg_t *msg)
         return -1;
     }
 #else
-    num = recv(client->sd, buf, sizeof(buf), 0);
+    num = recv(client->sd, buf, sizeof(buf), MSG_TRUNC);
     if (num < 0)
     {
         return -errno;
     }
+    if ((size_t)num > sizeof(buf))
+    {
+        coap_client_handle_format_error(client, buf, sizeof(buf));
+        return -EBADMSG;
+    }
 #endif
     ret = coap_msg_parse(msg, buf, num);
     if (ret < 0)
-- 
2.43.0


From 4c9a6dcae571c037bdf50a2bfc6d0aa55a100500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:03 +0000
Subject: [PATCH 14/58] fix: do not stop the server when a retransmission
 cannot be sent

---
 lib/src/coap_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index a629c3b..eb29235 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1319,7 +1319,8 @@ static int coap_server_trans_handle_ack_timeout(coap_server_trans_t *trans)
         num = coap_server_trans_send(trans, &trans->resp);
         if (num < 0)
         {
-            return num;
+            coap_log_info("Failed to retransmit to address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
+            coap_server_trans_destroy(trans);
         }
     }
     else if (ret == -ETIMEDOUT)
-- 
2.43.0


From 8333cd238d82a4a8704c82c5c7be0466a0c3e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:03 +0000
Subject: [PATCH 15/58] fix: release a partial request when a blockwise
 transfer runs out of memory

---
 lib/src/coap_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 6b6135c..ae1de58 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1695,6 +1695,7 @@ static ssize_t coap_client_exchange_blockwise1(coap_client_t *client,
         ret = coap_msg_copy(&msg, req);
         if (ret < 0)
         {
+            coap_msg_destroy(&msg);
             return ret;
         }
         block1_more = 1;
@@ -1856,6 +1857,7 @@ static ssize_t coap_client_exchange_blockwise2(coap_client_t *client,
             ret = coap_msg_copy(&msg, req);
             if (ret < 0)
             {
+                coap_msg_destroy(&msg);
                 return ret;
             }
             block2_more = 0;  /* more must be zero for this use case */
-- 
2.43.0


From 623f2ab38f69454ac07b6f4aa50942773f304fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:03 +0000
Subject: [PATCH 16/58] fix: do not accept a request as the response to a
 request

---
 lib/src/coap_client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index ae1de58..8e0b115 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1257,7 +1257,8 @@ static int coap_client_listen_resp(coap_client_t *client)
  */
 static int coap_client_match_token(coap_msg_t *req, coap_msg_t *resp)
 {
-    return ((coap_msg_get_token_len(resp) == coap_msg_get_token_len(req))
+    return ((coap_msg_get_code_class(resp) != COAP_MSG_REQ)
+         && (coap_msg_get_token_len(resp) == coap_msg_get_token_len(req))
          && (memcmp(coap_msg_get_token(resp), coap_msg_get_token(req), coap_msg_get_token_len(req)) == 0));
 }
 
-- 
2.43.0


From 11c098013f57e1a2373ce7618b777092910829b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:18 +0000
Subject: [PATCH 17/58] fix: accept a separate response whose message ID equals
 that of the request

---
 lib/src/coap_client.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 8e0b115..b10ee2a 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1245,6 +1245,26 @@ static int coap_client_listen_resp(coap_client_t *client)
     return 0;
 }
 
+/**
+ *  @brief Compare the message ID of a received message with that of the request message
+ *
+ *  Only acknowledgement and reset messages echo the
+ *  message ID of the request. The message ID of any
+ *  other message is chosen by the server.
+ *
+ *  @param[in] req Pointer to the request message
+ *  @param[in] resp Pointer to the received message
+ *
+ *  @returns Comparison value
+ *  @retval 0 The received message does not acknowledge or reset the request message
+ *  @retval 1 The received message acknowledges or resets the request message
+ */
+static int coap_client_match_msg_id(coap_msg_t *req, coap_msg_t *resp)
+{
+    return (((coap_msg_get_type(resp) == COAP_MSG_ACK) || (coap_msg_get_type(resp) == COAP_MSG_RST))
+         && (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req)));
+}
+
 /**
  *  @brief Compare the token values in a request message and a response message
  *
@@ -1396,7 +1416,7 @@ static int coap_client_exchange_sep(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (coap_client_match_msg_id(req, resp))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_ACK)
             {
@@ -1468,7 +1488,7 @@ static int coap_client_exchange_con(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (coap_client_match_msg_id(req, resp))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_ACK)
             {
@@ -1550,7 +1570,7 @@ static int coap_client_exchange_non(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (coap_client_match_msg_id(req, resp))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_RST)
             {
-- 
2.43.0


From b72b34b483d4c4d9497481a9ca5c04642e7284da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:41 +0000
Subject: [PATCH 18/58] fix: do not create a memory allocator whose size
 overflows

---
 lib/src/coap_mem.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/coap_mem.c b/lib/src/coap_mem.c
index 41509ec..3f70773 100755
--- a/lib/src/coap_mem.c
+++ b/lib/src/coap_mem.c
@@ -32,6 +32,7 @@
  */
 
 #include <stdlib.h>
+#include <stdint.h>
 #include <string.h>
 #include <errno.h>
 #include "coap_mem.h"
@@ -43,6 +44,10 @@ int coap_mem_create(coap_mem_t *mem, size_t num, size_t len)
     {
         return -EINVAL;
     }
+    if (num > SIZE_MAX / len)
+    {
+        return -ENOMEM;
+    }
     mem->buf = (char *)malloc(num * len);
     if (mem->buf == NULL)
     {
-- 
2.43.0


From 875ec1137bcfa64e246144568ee2dc9e711c120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:41 +0000
Subject: [PATCH 19/58] fix: allow the shared memory allocators to be used by
 several threads

---
 lib/src/coap_mem.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/lib/src/coap_mem.c b/lib/src/coap_mem.c
index 3f70773..169ea7c 100755
--- a/lib/src/coap_mem.c
+++ b/lib/src/coap_mem.c
@@ -35,6 +35,7 @@
 #include <stdint.h>
 #include <string.h>
 #include <errno.h>
+#include <pthread.h>
 #include "coap_mem.h"
 
 int coap_mem_create(coap_mem_t *mem, size_t num, size_t len)
@@ -120,6 +121,30 @@ void coap_mem_free(coap_mem_t *mem, void *buf)
     }
 }
 
+/**
+ *  Mutex protecting the small, medium and large memory allocators
+ *
+ *  These memory allocators are shared by all of the threads in a process.
+ */
+static pthread_mutex_t coap_mem_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+static void *coap_mem_shared_alloc(coap_mem_t *mem, size_t len)
+{
+    void *buf = NULL;
+
+    pthread_mutex_lock(&coap_mem_mutex);
+    buf = coap_mem_alloc(mem, len);
+    pthread_mutex_unlock(&coap_mem_mutex);
+    return buf;
+}
+
+static void coap_mem_shared_free(coap_mem_t *mem, void *buf)
+{
+    pthread_mutex_lock(&coap_mem_mutex);
+    coap_mem_free(mem, buf);
+    pthread_mutex_unlock(&coap_mem_mutex);
+}
+
 /**
  *  Small memory allocator
  *
@@ -164,12 +189,12 @@ char *coap_mem_small_get_active(void)
 
 void *coap_mem_small_alloc(size_t len)
 {
-    return coap_mem_alloc(&coap_mem_small, len);
+    return coap_mem_shared_alloc(&coap_mem_small, len);
 }
 
 void coap_mem_small_free(void *buf)
 {
-    coap_mem_free(&coap_mem_small, buf);
+    coap_mem_shared_free(&coap_mem_small, buf);
 }
 
 /**
@@ -216,12 +241,12 @@ char *coap_mem_medium_get_active(void)
 
 void *coap_mem_medium_alloc(size_t len)
 {
-    return coap_mem_alloc(&coap_mem_medium, len);
+    return coap_mem_shared_alloc(&coap_mem_medium, len);
 }
 
 void coap_mem_medium_free(void *buf)
 {
-    coap_mem_free(&coap_mem_medium, buf);
+    coap_mem_shared_free(&coap_mem_medium, buf);
 }
 
 /**
@@ -268,12 +293,12 @@ char *coap_mem_large_get_active(void)
 
 void *coap_mem_large_alloc(size_t len)
 {
-    return coap_mem_alloc(&coap_mem_large, len);
+    return coap_mem_shared_alloc(&coap_mem_large, len);
 }
 
 void coap_mem_large_free(void *buf)
 {
-    coap_mem_free(&coap_mem_large, buf);
+    coap_mem_shared_free(&coap_mem_large, buf);
 }
 
 int coap_mem_all_create(size_t small_num, size_t small_len,
-- 
2.43.0


From 8d947502ba42bc85b162460c0afc0f6372aa2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:52 +0000
Subject: [PATCH 20/58] fix: parse HTTP message bodies that contain null
 characters

---
 proxy/common/src/http_msg.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index f8afeee..a980490 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -361,17 +361,17 @@ static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str)
  *
  *  @param[in,out] msg Pointer to a message structure
  *  @param[in] str String representation of the message body
+ *  @param[in] str_len Length of the string representation of the message body
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >=0 Number of bytes parsed
  *  @retval <0 Error code
  */
-static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
+static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
 {
     http_msg_header_t *header = NULL;
     ssize_t num = 0;
     size_t content_len = 0;
-    size_t str_len = 0;
     char *chunk_size = NULL;
     char *chunk_data = NULL;
     char *param = NULL;
@@ -383,7 +383,6 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     int ret = 0;
     int i = 0;
 
-    str_len = strlen(str);
 
     header = http_msg_get_first_header(msg);
     while (header != NULL)
@@ -521,11 +520,13 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
  *
  *  @param[out] msg Pointer to a message structure
  *  @param[in,out] str String containing the message
+ *  @param[in] len Length of the string containing the message
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >0 Number of bytes
  *  @retval <0 Error code
- */static ssize_t __http_msg_parse(http_msg_t *msg, char *str)
+ */
+static ssize_t __http_msg_parse(http_msg_t *msg, char *str, size_t len)
 {
     ssize_t num = 0;
     char *next = str;
@@ -544,7 +545,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     }
     next += num;
 
-    num = http_msg_parse_body(msg, next);
+    num = http_msg_parse_body(msg, next, len - (next - str));
     if (num < 0)
     {
         return num;
@@ -567,7 +568,7 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
     }
     memcpy(str, buf, len);
     str[len] = '\0';
-    num = __http_msg_parse(msg, str);
+    num = __http_msg_parse(msg, str, len);
     free(str);
     return num;
 }
-- 
2.43.0


From fff4dd51ddc2073ea53c6e4e981dc31c7a0a8e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:52 +0000
Subject: [PATCH 21/58] fix: reject invalid chunk sizes and content lengths in
 HTTP messages

---
 proxy/common/src/http_msg.c | 87 ++++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 20 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index a980490..e4f5e11 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -32,6 +32,7 @@
  */
 
 #include <stdlib.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
@@ -356,6 +357,41 @@ static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str)
     return 0;  /* should never arrive here */
 }
 
+/**
+ *  @brief Parse an unsigned number
+ *
+ *  @param[in] str String that starts with the number
+ *  @param[in] base Base of the number, 10 or 16
+ *  @param[out] val Value of the number
+ *
+ *  @returns Number of digits parsed or error code
+ *  @retval >0 Number of digits parsed
+ *  @retval <0 Error code
+ */
+static ssize_t http_msg_parse_num(const char *str, unsigned base, size_t *val)
+{
+    const char *next = str;
+    unsigned digit = 0;
+    size_t num = 0;
+
+    while (isxdigit((unsigned char)*next))
+    {
+        digit = isdigit((unsigned char)*next) ? *next - '0' : toupper((unsigned char)*next) - 'A' + 10;
+        if ((digit >= base) || (num > ((SIZE_MAX >> 1) - digit) / base))
+        {
+            return -EBADMSG;
+        }
+        num = num * base + digit;
+        next++;
+    }
+    if (next == str)
+    {
+        return -EBADMSG;
+    }
+    *val = num;
+    return next - str;
+}
+
 /**
  *  @brief Parse the body in a message
  *
@@ -377,10 +413,10 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
     char *param = NULL;
     char *next = NULL;
     char *dest = NULL;
-    int total_len = 0;
-    int chunk_len = 0;
+    size_t total_len = 0;
+    size_t chunk_len = 0;
+    size_t rem = 0;
     int chunked = 0;
-    int ret = 0;
     int i = 0;
 
 
@@ -394,7 +430,15 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
         }
         if (strcasecmp(header->name, "Content-Length") == 0)
         {
-            content_len = atoi(header->value);
+            num = http_msg_parse_num(header->value, 10, &content_len);
+            if (num < 0)
+            {
+                return num;
+            }
+            if (header->value[num] != '\0')
+            {
+                return -EBADMSG;
+            }
         }
         header = header->next;
     }
@@ -422,16 +466,20 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
                 }
                 next += 2;
 
-                /* ignore unrecognised parameters in the chunk-size field */
-                param = strchr(chunk_size, ';');
-                if ((param != NULL) && (param < next))
+                /* parse chunk length */
+                num = http_msg_parse_num(chunk_size, 16, &chunk_len);
+                if (num < 0)
                 {
-                    *param = ' ';
+                    return num;
                 }
 
-                /* parse chunk length */
-                ret = sscanf(chunk_size, "%x", &chunk_len);
-                if (ret != 1)
+                /* ignore unrecognised parameters in the chunk-size field */
+                param = chunk_size + num;
+                while ((*param == ' ') || (*param == '\t'))
+                {
+                    param++;
+                }
+                if ((*param != ';') && (param != next - 2))
                 {
                     return -EBADMSG;
                 }
@@ -439,25 +487,24 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
                 {
                     break;
                 }
-                if (i == 0)
-                {
-                    total_len += chunk_len;
-                }
-
-                chunk_data = next;
-                next += chunk_len;
-
                 /* parse the end of chunk-data */
-                if (next + 2 > str + str_len)
+                chunk_data = next;
+                rem = str_len - (next - str);
+                if ((rem < 2) || (chunk_len > rem - 2))
                 {
                     return -EAGAIN;
                 }
+                next += chunk_len;
                 if ((*next != '\r')
                  || (*(next + 1) != '\n'))
                 {
                     return -EBADMSG;
                 }
                 next += 2;
+                if (i == 0)
+                {
+                    total_len += chunk_len;
+                }
 
                 /* copy data on the second pass */
                 if (i == 1)
-- 
2.43.0


From 02e828c6e1446717592be5ea8ed9d965f12aa5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:52 +0000
Subject: [PATCH 22/58] fix: do not write past the end of a small buffer when
 generating HTTP messages

---
 proxy/common/src/http_msg.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index e4f5e11..bda88c9 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -689,7 +689,7 @@ size_t http_msg_generate(http_msg_t *msg, char *buf, size_t len)
         {
             memcpy(buf + str_len, msg->body, msg->body_len);  /* full copy */
         }
-        else if (str_len < (len - 1))  /* if there is space for one byte not including the '\0' */
+        else if ((len > 0) && (str_len < (len - 1)))  /* if there is space for one byte not including the '\0' */
         {
             memcpy(buf + str_len, msg->body, (len - 1) - str_len);  /* partial copy */
         }
@@ -713,7 +713,11 @@ size_t http_msg_generate_chunk(char *out, size_t out_len, const char *in, size_t
     num += target;
 
     target = in_len;
-    actual = (target <= (out_len - 1)) ? target : (out_len - 1);
+    actual = 0;
+    if (out_len > 0)
+    {
+        actual = (target <= (out_len - 1)) ? target : (out_len - 1);
+    }
     memcpy(out, in, actual);
     out += actual;
     out_len -= actual;
-- 
2.43.0


From 417d174215373ca5efafae0911d4cbbace5ceb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:31 +0000
Subject: [PATCH 23/58] fix: release the previous value when the start line or
 body of an HTTP message is set again

---
 proxy/common/src/http_msg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index bda88c9..f8b4260 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -622,16 +622,19 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
 
 int http_msg_set_start(http_msg_t *msg, const char *start1, const char *start2, const char *start3)
 {
+    free(msg->start[0]);
     msg->start[0] = strdup(start1);
     if (msg->start[0] == NULL)
     {
         return -ENOMEM;
     }
+    free(msg->start[1]);
     msg->start[1] = strdup(start2);
     if (msg->start[1] == NULL)
     {
         return -ENOMEM;
     }
+    free(msg->start[2]);
     msg->start[2] = strdup(start3);
     if (msg->start[2] == NULL)
     {
@@ -647,6 +650,8 @@ int http_msg_set_header(http_msg_t *msg, const char *name, const char *value)
 
 int http_msg_set_body(http_msg_t *msg, const char *buf, size_t len)
 {
+    free(msg->body);
+    msg->body_len = 0;
     msg->body = calloc(len + 1, 1);  /* allocate space for a terminating null character */
     if (msg->body == NULL)           /* even if the body carries binary data */
     {
-- 
2.43.0


From 5309f89da79c91ee1f1a45329f104331ee250c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:18 +0000
Subject: [PATCH 24/58] fix: do not search for the URI scheme beyond the first
 '/', '?' or '#'

---
 proxy/common/src/uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 48dcba4..6342024 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -369,8 +369,8 @@ static int uri_parse_scheme(uri_t *uri, char **q)
         return -EBADMSG;
     }
     p = *q;
-    r = strchr(p, ':');
-    if (r != NULL)
+    r = p + strcspn(p, ":/?#");
+    if (*r == ':')
     {
         *r = '\0';
         len = strlen(p) + 1;
-- 
2.43.0


From d99474b7b1353ea517000bdb3a0d3c5de3615ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:18 +0000
Subject: [PATCH 25/58] fix: do not search for the URI userinfo and port in the
 path

---
 proxy/common/src/uri.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 6342024..67d0524 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -432,6 +432,11 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
         /* parse authority and path */
 
         p += 2;
+        path = strchr(p, '/');
+        if (path != NULL)
+        {
+            *path++ = '\0';
+        }
         r = strchr(p, '@');
         if (r != NULL)
         {
@@ -454,20 +459,11 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
             p = r + 1;
         }
 
-        /* check for port and path */
+        /* check for port */
         port = uri_find_port(p);
         if (port != NULL)
         {
             *port++ = '\0';
-            path = strchr(port, '/');
-        }
-        else
-        {
-            path = strchr(p, '/');
-        }
-        if (path != NULL)
-        {
-            *path++ = '\0';
         }
 
         /* parse host */
-- 
2.43.0


From 1555767998e1c42c80aa1b1bf7135f8436cf0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:18 +0000
Subject: [PATCH 26/58] fix: copy a URI that has no scheme

---
 proxy/common/src/uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 67d0524..aede83a 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -744,7 +744,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->host != NULL)
     {
         dest->host = strdup(src->host);
-        if (dest->scheme == NULL)
+        if (dest->host == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
@@ -753,7 +753,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->port != NULL)
     {
         dest->port = strdup(src->port);
-        if (dest->scheme == NULL)
+        if (dest->port == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
-- 
2.43.0


From 9e7f9607ddc899a2eb547d1d10f06d444601d858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:18 +0000
Subject: [PATCH 27/58] fix: reject encoded null characters in URIs

---
 proxy/common/src/uri.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index aede83a..0de2b5f 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -177,6 +177,10 @@ static int uri_decode_octet(const char **str)
         }
         *p = '\0';
         c = uri_2_hex_to_int(num);
+        if (c == '\0')
+        {
+            c = -1;
+        }
     }
     else
     {
-- 
2.43.0


From b80cb52710e3171a5f857137ed966695dcd69cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 28/58] fix: do not read past the end of a configuration that
 does not end with a newline

---
 proxy/common/src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index d5fe226..5b28e47 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -270,7 +270,7 @@ static int config_parser_next(config_parser_t *p)
 
     p->prev_line = p->line;
     p->prev_col = p->col;
-    if (p->in_idx == p->in_len)
+    if (p->in_idx >= p->in_len)
     {
         c = '\0';
     }
-- 
2.43.0


From 8575ff90472b77f83a1a27ed3110d1e55c9a3bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 29/58] fix: describe lexical and syntax errors in
 configurations correctly

---
 proxy/common/src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index 5b28e47..03b9bf4 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -37,7 +37,7 @@
 #include <ctype.h>
 #include "config.h"
 
-#define CONFIG_NUM_STR  6
+#define CONFIG_NUM_STR  5
 
 #define CONFIG_PARSER_DEF_TAB_WIDTH   4
 #define CONFIG_PARSER_INIT_STR_LEN   64
@@ -106,7 +106,6 @@ static const char *config_str[CONFIG_NUM_STR + 1] =
     "ok",
     "invalid argument",
     "out of memory",
-    "input/output error",
     "lexical error",
     "syntax error",
     "unknown"
-- 
2.43.0


From ab8ce00dcb258b7dfea1ad61a38f83377b964285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:37 +0000
Subject: [PATCH 30/58] fix: split the path and query of a URI into CoAP
 options before decoding them

---
 proxy/common/src/cross.c | 148 +++++++++++++++++++++------------------
 1 file changed, 78 insertions(+), 70 deletions(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index ab86497..a3557f4 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -31,6 +31,7 @@
  *  @brief Source file for the FreeCoAP HTTP/COAP message/URI cross library
  */
 
+#include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
 #include <errno.h>
@@ -192,6 +193,60 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
     return -EBADMSG;
 }
 
+/**
+ *  @brief Add an option to a CoAP message for each part of the path or query of a URI
+ *
+ *  @param[out] coap_msg Pointer to a CoAP message structure
+ *  @param[in] num Option number
+ *  @param[in] str Pointer to the encoded path or query
+ *  @param[in] end Pointer to the end of the encoded path or query
+ *  @param[in] delim Delimiter between parts
+ *
+ *  Empty parts are skipped.
+ *
+ *  @returns Operation status
+ *  @retval 0 Success
+ *  @retval <0 Error
+ */
+static int cross_add_uri_ops(coap_msg_t *coap_msg, unsigned num, const char *str, const char *end, char delim)
+{
+    const char *next = NULL;
+    uri_t uri = {0};
+    char *part = NULL;
+    int ret = 0;
+
+    while (str < end)
+    {
+        next = memchr(str, delim, end - str);
+        if (next == NULL)
+        {
+            next = end;
+        }
+        if (next > str)
+        {
+            part = strndup(str, next - str);
+            if (part == NULL)
+            {
+                return -ENOMEM;
+            }
+            uri_create(&uri);
+            ret = uri_set_query(&uri, part);  /* decode */
+            free(part);
+            if (ret == 0)
+            {
+                ret = coap_msg_add_op(coap_msg, num, strlen(uri_get_query(&uri)), uri_get_query(&uri));
+            }
+            uri_destroy(&uri);
+            if (ret < 0)
+            {
+                return ret;
+            }
+        }
+        str = next + 1;
+    }
+    return 0;
+}
+
 int cross_uri_http_to_coap(coap_msg_t *coap_msg, const char *http_uri)
 {
     const char *str = NULL;
@@ -258,9 +313,21 @@ int cross_uri_http_to_coap(coap_msg_t *coap_msg, const char *http_uri)
         }
     }
 
+    uri_destroy(&uri);
+
+    /*  split the path and the query of the URI before decoding
+     *  so that an encoded delimiter is part of a segment or argument
+     */
+    str = strchr(http_uri, ':') + 1;  /* the URI has a scheme */
+    if (strncmp(str, "//", 2) == 0)
+    {
+        str += 2;
+        str += strcspn(str, "/?");
+    }
+    end = str + strcspn(str, "?");
+
     /* path */
-    str = uri_get_path(&uri);
-    if (str != NULL)
+    if (end > str)
     {
         /*  /          */
         /*  /abc       */
@@ -270,90 +337,31 @@ int cross_uri_http_to_coap(coap_msg_t *coap_msg, const char *http_uri)
         /*  /abc//def  */
         if (*str != '/')
         {
-            uri_destroy(&uri);
             return -EBADMSG;
         }
-        str++;
-        while (1)
+        ret = cross_add_uri_ops(coap_msg, COAP_MSG_URI_PATH, str, end, '/');
+        if (ret < 0)
         {
-            end = strchr(str, '/');
-            if (end == NULL)
-            {
-                len = strlen(str);
-                if (len > 0)
-                {
-                    ret = coap_msg_add_op(coap_msg, COAP_MSG_URI_PATH, len, str);
-                    if (ret < 0)
-                    {
-                        uri_destroy(&uri);
-                        return ret;
-                    }
-                }
-                break;
-            }
-            else
-            {
-                len = end - str;
-                if (len > 0)
-                {
-                    ret = coap_msg_add_op(coap_msg, COAP_MSG_URI_PATH, len, str);
-                    if (ret < 0)
-                    {
-                        uri_destroy(&uri);
-                        return ret;
-                    }
-                }
-                end++;
-                str = end;
-            }
+            return ret;
         }
     }
 
     /* query */
-    str = uri_get_query(&uri);
-    if (str != NULL)
+    if (*end == '?')
     {
         /*  abc       */
         /*  abc&      */
         /*  abc&def   */
         /*  abc&def&  */
         /*  abc&&def  */
-        while (1)
+        str = end + 1;
+        end = str + strlen(str);
+        ret = cross_add_uri_ops(coap_msg, COAP_MSG_URI_QUERY, str, end, '&');
+        if (ret < 0)
         {
-            end = strchr(str, '&');
-            if (end == NULL)
-            {
-                len = strlen(str);
-                if (len > 0)
-                {
-                    ret = coap_msg_add_op(coap_msg, COAP_MSG_URI_QUERY, len, str);
-                    if (ret < 0)
-                    {
-                        uri_destroy(&uri);
-                        return ret;
-                    }
-                }
-                break;
-            }
-            else
-            {
-                len = end - str;
-                if (len > 0)
-                {
-                    ret = coap_msg_add_op(coap_msg, COAP_MSG_URI_QUERY, len, str);
-                    if (ret < 0)
-                    {
-                        uri_destroy(&uri);
-                        return ret;
-                    }
-                }
-                end++;
-                str = end;
-            }
+            return ret;
         }
     }
-
-    uri_destroy(&uri);
     return 0;
 }
 
-- 
2.43.0


From ba363c05123dc8a1d4ee72c20f3067cd1b7c2bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:37 +0000
Subject: [PATCH 31/58] fix: do not convert unknown CoAP success codes to HTTP
 error codes

---
 proxy/common/src/cross.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index a3557f4..d2bce7d 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -146,6 +146,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_CONTENT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "200", "OK");
         }
+        break;
     case COAP_MSG_CLIENT_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
@@ -171,6 +172,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_UNSUP_CONT_FMT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "415", "Unsupported Media Type");
         }
+        break;
     case COAP_MSG_SERVER_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
@@ -189,6 +191,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
             /* could use 502 Bad Gateway */
             return http_msg_set_start(http_msg, "HTTP/1.1", "501", "Not Implemented");
         }
+        break;
     }
     return -EBADMSG;
 }
-- 
2.43.0


From 1223c2698a5a76c42ddd251b5b5c097823e7b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:07 +0000
Subject: [PATCH 32/58] fix: do not decode the URI options of a CoAP message
 when they are converted to a URI

---
 proxy/common/src/cross.c | 79 +++++++++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 14 deletions(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index d2bce7d..313a3cf 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -368,6 +368,51 @@ int cross_uri_http_to_coap(coap_msg_t *coap_msg, const char *http_uri)
     return 0;
 }
 
+/**
+ *  @brief Append the value of a CoAP option to a URI component
+ *
+ *  @param[out] buf Buffer that holds the URI component
+ *  @param[in] len Length of the buffer
+ *  @param[in,out] num Number of characters in the buffer
+ *  @param[in] op Pointer to an option structure
+ *  @param[in] delim Delimiter that can not be part of the value
+ *
+ *  The percent character is encoded because
+ *  the URI component will be decoded when it is set.
+ *
+ *  @returns Operation status
+ *  @retval 0 Success
+ *  @retval <0 Error
+ */
+static int cross_encode_op(char *buf, size_t len, size_t *num, coap_msg_op_t *op, char delim)
+{
+    const char *val = coap_msg_op_get_val(op);
+    unsigned i = 0;
+
+    for (i = 0; i < coap_msg_op_get_len(op); i++)
+    {
+        if ((val[i] == '\0') || (val[i] == delim))
+        {
+            return -EBADMSG;
+        }
+        if (*num + 3 >= len)  /* space for an encoded character and the terminating '\0' */
+        {
+            return -ENOSPC;
+        }
+        if (val[i] == '%')
+        {
+            memcpy(buf + *num, "%25", 3);
+            *num += 3;
+        }
+        else
+        {
+            buf[(*num)++] = val[i];
+        }
+    }
+    buf[*num] = '\0';
+    return 0;
+}
+
 int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
 {
     coap_msg_op_t *op = NULL;
@@ -392,13 +437,13 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     {
         if (coap_msg_op_get_num(op) == COAP_MSG_URI_HOST)
         {
-            if (coap_msg_op_get_len(op) >= sizeof(tmp))
+            num = 0;
+            ret = cross_encode_op(tmp, sizeof(tmp), &num, op, '\0');
+            if (ret < 0)
             {
                 uri_destroy(&uri);
-                return -ENOSPC;
+                return ret;
             }
-            memcpy(tmp, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            tmp[coap_msg_op_get_len(op)] = '\0';
             ret = uri_set_host(&uri, tmp);
             if (ret < 0)
             {
@@ -416,13 +461,13 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     {
         if (coap_msg_op_get_num(op) == COAP_MSG_URI_PORT)
         {
-            if (coap_msg_op_get_len(op) > sizeof(tmp) - 1)  /* -1 for the terminating '\0' */
+            num = 0;
+            ret = cross_encode_op(tmp, sizeof(tmp), &num, op, '\0');
+            if (ret < 0)
             {
                 uri_destroy(&uri);
-                return -ENOSPC;
+                return ret;
             }
-            memcpy(tmp, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            tmp[coap_msg_op_get_len(op)] = '\0';
             ret = uri_set_port(&uri, tmp);
             if (ret < 0)
             {
@@ -447,9 +492,12 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
                 return -ENOSPC;
             }
             tmp[num++] = '/';
-            memcpy(tmp + num, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            num += coap_msg_op_get_len(op);
-            tmp[num] = '\0';
+            ret = cross_encode_op(tmp, sizeof(tmp), &num, op, '/');
+            if (ret < 0)
+            {
+                uri_destroy(&uri);
+                return ret;
+            }
         }
         op = coap_msg_op_get_next(op);
     }
@@ -481,9 +529,12 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
             {
                 tmp[num++] = '&';
             }
-            memcpy(tmp + num, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
-            num += coap_msg_op_get_len(op);
-            tmp[num] = '\0';
+            ret = cross_encode_op(tmp, sizeof(tmp), &num, op, '&');
+            if (ret < 0)
+            {
+                uri_destroy(&uri);
+                return ret;
+            }
         }
         op = coap_msg_op_get_next(op);
     }
-- 
2.43.0


From 3501895ef1494368bb8c9d56b923f2da10838ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:07 +0000
Subject: [PATCH 33/58] fix: report lack of space when a URI is converted into
 an empty buffer

---
 proxy/common/src/cross.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index 313a3cf..5aea306 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -551,7 +551,7 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     /* generate URI */
     num = uri_generate(&uri, buf, len);
     uri_destroy(&uri);
-    if (num > len - 1)
+    if (num >= len)
     {
         return -ENOSPC;
     }
-- 
2.43.0


From 07c58d754667f28a7d585d7dd26125f0f17f6b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:52 +0000
Subject: [PATCH 34/58] fix: do not copy control characters from a CoAP option
 to a HTTP header

---
 proxy/common/src/cross.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index 5aea306..6cde7b4 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -34,6 +34,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <ctype.h>
 #include <errno.h>
 #include "cross.h"
 #include "uri.h"
@@ -657,6 +658,30 @@ static int cross_headers_http_to_coap(coap_msg_t *coap_msg, http_msg_t *http_msg
     return 0;
 }
 
+/**
+ *  @brief Determine if an option value can be used as the value of a HTTP header
+ *
+ *  @param[in] val Option value
+ *  @param[in] len Length of the option value
+ *
+ *  @returns Comparison value
+ *  @retval 0 the option value contains control characters
+ *  @retval 1 the option value can be used
+ */
+static int cross_is_header_value(const char *val, size_t len)
+{
+    size_t i = 0;
+
+    for (i = 0; i < len; i++)
+    {
+        if (iscntrl((unsigned char)val[i]))
+        {
+            return 0;
+        }
+    }
+    return 1;
+}
+
 /**
  *  @brief Convert CoAP options to HTTP headers
  *
@@ -707,10 +732,13 @@ static int cross_headers_coap_to_http(coap_msg_t *coap_msg, http_msg_t *http_msg
             switch (coap_msg_op_get_num(op))
             {
             case COAP_MSG_ETAG:
-                ret = http_msg_set_header(http_msg, "Etag", tmp);
-                if (ret < 0)
+                if (cross_is_header_value(tmp, coap_msg_op_get_len(op)))
                 {
-                    return ret;
+                    ret = http_msg_set_header(http_msg, "Etag", tmp);
+                    if (ret < 0)
+                    {
+                        return ret;
+                    }
                 }
                 break;
             case COAP_MSG_MAX_AGE:
-- 
2.43.0


From ec72e13561d6c89d425d53919f94364ea600569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 35/58] fix: do not limit the length of CoAP options that are
 not converted to HTTP headers

---
 proxy/common/src/cross.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index 6cde7b4..437dc78 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -720,7 +720,10 @@ static int cross_headers_coap_to_http(coap_msg_t *coap_msg, http_msg_t *http_msg
     op = coap_msg_get_first_op(coap_msg);
     while (op != NULL)
     {
-        if (coap_msg_op_get_val(op) != NULL)
+        if ((coap_msg_op_get_val(op) != NULL)
+         && ((coap_msg_op_get_num(op) == COAP_MSG_ETAG)
+          || (coap_msg_op_get_num(op) == COAP_MSG_MAX_AGE)
+          || (coap_msg_op_get_num(op) == COAP_MSG_ACCEPT)))
         {
             if (coap_msg_op_get_len(op) >= sizeof(tmp))
             {
-- 
2.43.0


From 7eebb2bc57b81f3bfbc06cddb543832d7d16c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:00 +0000
Subject: [PATCH 36/58] fix: do not treat the octet 0xff in a URI as an error

---
 proxy/common/src/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 0de2b5f..2b459ae 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -184,7 +184,7 @@ static int uri_decode_octet(const char **str)
     }
     else
     {
-        c = *(*str)++;
+        c = (unsigned char)*(*str)++;
     }
     return c;
 }
-- 
2.43.0


From e6e46492084981ccbfa8ab72dec7015f07059fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:20 +0000
Subject: [PATCH 37/58] fix: do not send an error response with the headers of
 a partly converted response

---
 proxy/http_coap/src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index b730fd8..8d25935 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -340,6 +340,7 @@ static int connection_gen_error_resp(connection_t *con, http_msg_t *msg, unsigne
     char int_buf[CONNECTION_INT_BUF_LEN] = {0};
     int ret = 0;
 
+    http_msg_reset(msg);
     snprintf(int_buf, sizeof(int_buf), "%u", code);
     str = cross_http_resp_code_to_str(code);
     ret = http_msg_set_start(msg, "HTTP/1.1", int_buf, str);
-- 
2.43.0


From 3dec3fc33916a417a57731d7df8cc275a4c511c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:20 +0000
Subject: [PATCH 38/58] fix: send a Content-Length header in a HTTP response
 without a body

---
 proxy/http_coap/src/connection.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 8d25935..847610f 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -643,6 +643,19 @@ static int __connection_exchange(connection_t *con, http_msg_t *req_msg, http_ms
         return ret;
     }
 
+    /* mark the end of a response without a body */
+    if ((http_msg_get_body_len(resp_msg) == 0)
+     && (strcmp(http_msg_get_start(resp_msg, 1), "304") != 0))
+    {
+        ret = http_msg_set_header(resp_msg, "Content-Length", "0");
+        if (ret < 0)
+        {
+            coap_log_error("[%u] <%u> %s Failed to set header in response message to HTTP client: %s",
+                           con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
+            return ret;
+        }
+    }
+
     /* send response */
     ret = connection_send(con, resp_msg);
     if (ret != 0)  /* this must be if (ret != 0) and not if (ret < 0) */
-- 
2.43.0


From c5f7a36cd9103d71994be042b76d6d836f9560a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:15 +0000
Subject: [PATCH 39/58] fix: refuse a request for a URI without a host

---
 proxy/http_coap/src/connection.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 847610f..4687945 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -545,6 +545,15 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         coap_msg_destroy(&coap_req_msg);
         return ret;
     }
+    if ((uri_get_host(&uri) == NULL) || (uri_get_host(&uri)[0] == '\0'))
+    {
+        coap_log_error("[%u] <%u> %s No host in request URI in request message from HTTP client",
+                       con->listener_index, con->con_index, con->addr);
+        uri_destroy(&uri);
+        coap_msg_destroy(&coap_req_msg);
+        return connection_gen_error_resp(con, resp_msg, 400);
+    }
+
     if (!con->coap_client_active)
     {
         /* first exchange with a CoAP server */
-- 
2.43.0


From 5d0e02000726cfa2eccb797023ca1ce9e269fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:39 +0000
Subject: [PATCH 40/58] fix: use the default port for a request for a URI
 without a port

---
 proxy/http_coap/src/connection.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 4687945..588fc53 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -53,6 +53,8 @@
 #define CONNECTION_BODY_LEN            8192
 #define CONNECTION_COAP_BLOCK1_SIZE    32
 #define CONNECTION_COAP_BLOCK2_SIZE    32
+#define CONNECTION_COAP_PORT           "5683"
+#define CONNECTION_COAPS_PORT          "5684"
 
 typedef enum
 {
@@ -123,6 +125,21 @@ int connection_init(void)
     return stats_init();
 }
 
+/*  return: the port in the URI or the default port for the scheme
+ */
+static const char *connection_get_port(uri_t *uri)
+{
+    if ((uri_get_port(uri) != NULL) && (uri_get_port(uri)[0] != '\0'))
+    {
+        return uri_get_port(uri);
+    }
+    if ((uri_get_scheme(uri) != NULL) && (strcasecmp(uri_get_scheme(uri), "coap") == 0))
+    {
+        return CONNECTION_COAP_PORT;
+    }
+    return CONNECTION_COAPS_PORT;
+}
+
 /*  return: { 0, success
  *          {<0, error
  */
@@ -132,11 +149,11 @@ static int connection_coap_client_create(connection_t *con, uri_t *uri)
 
     coap_log_info("[%u] <%u> %s Connecting to CoAP server host %s and port %s",
                   con->listener_index, con->con_index, con->addr,
-                  uri_get_host(uri), uri_get_port(uri));
+                  uri_get_host(uri), connection_get_port(uri));
 
     ret = coap_client_create(&con->coap_client,
                             uri_get_host(uri),
-                            uri_get_port(uri),
+                            connection_get_port(uri),
                             param_get_coap_client_key_file_name(con->param),
                             param_get_coap_client_cert_file_name(con->param),
                             param_get_coap_client_trust_file_name(con->param),
@@ -146,7 +163,7 @@ static int connection_coap_client_create(connection_t *con, uri_t *uri)
     {
         coap_log_error("[%u] <%u> %s Failed to connect to CoAP server host %s and port %s: %s",
                        con->listener_index, con->con_index, con->addr,
-                       uri_get_host(uri), uri_get_port(uri),
+                       uri_get_host(uri), connection_get_port(uri),
                        strerror(-ret));
         return ret;
     }
@@ -158,7 +175,7 @@ static int connection_coap_client_create(connection_t *con, uri_t *uri)
                        con->listener_index, con->con_index, con->addr);
         return -ENOMEM;
     }
-    con->coap_client_port = strdup(uri->port);
+    con->coap_client_port = strdup(connection_get_port(uri));
     if (con->coap_client_port == NULL)
     {
         free(con->coap_client_host);
@@ -566,7 +583,7 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         }
     }
     else if ((strcasecmp(uri_get_host(&uri), con->coap_client_host) != 0)
-          || (strcmp(uri_get_port(&uri), con->coap_client_port) != 0))
+          || (strcmp(connection_get_port(&uri), con->coap_client_port) != 0))
     {
         /* subsequent exchange with a different CoAP server */
         connection_coap_client_destroy(con);
-- 
2.43.0


From 5415ce49332fd6e0410fa2ddf13b197ab449c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:39 +0000
Subject: [PATCH 41/58] fix: answer a request when the proxy fails to connect
 to the CoAP server

---
 proxy/http_coap/src/connection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 588fc53..f7a241c 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -579,7 +579,7 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         {
             uri_destroy(&uri);
             coap_msg_destroy(&coap_req_msg);
-            return ret;
+            return connection_gen_error_resp(con, resp_msg, 502);
         }
     }
     else if ((strcasecmp(uri_get_host(&uri), con->coap_client_host) != 0)
@@ -592,7 +592,7 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         {
             uri_destroy(&uri);
             coap_msg_destroy(&coap_req_msg);
-            return ret;
+            return connection_gen_error_resp(con, resp_msg, 502);
         }
     }
     else
-- 
2.43.0


From 6c285774b0bd0f5d25519605dd983d58974de706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:39 +0000
Subject: [PATCH 42/58] fix: do not send the body of a GET or DELETE request
 back to the HTTP client

---
 proxy/http_coap/src/connection.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index f7a241c..9855bd3 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -383,6 +383,13 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
     ssize_t num = 0;
     int ret = 0;
 
+    if ((coap_msg_get_code_detail(req_msg) == COAP_MSG_GET)
+     || (coap_msg_get_code_detail(req_msg) == COAP_MSG_DELETE))
+    {
+        /* do not return the body of the request */
+        con->body_end = 0;
+    }
+
     if (coap_msg_get_code_detail(req_msg) == COAP_MSG_GET)
     {
         /* execute regular exchange */
-- 
2.43.0


From 66ef29ed4eb843154e4a3a8b857202208640cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:18 +0000
Subject: [PATCH 43/58] fix: send a DELETE request to the CoAP server

---
 proxy/http_coap/src/connection.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 9855bd3..841210d 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -536,6 +536,18 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
             con->body_end = num;
         }
     }
+    else if (coap_msg_get_code_detail(req_msg) == COAP_MSG_DELETE)
+    {
+        /* execute regular exchange */
+        coap_log_info("[%u] <%u> %s Sending DELETE request to CoAP server host %s and port %s",
+                      con->listener_index, con->con_index, con->addr,
+                      con->coap_client_host, con->coap_client_port);
+        ret = coap_client_exchange(&con->coap_client, req_msg, resp_msg);
+        if (ret < 0)
+        {
+            return ret;
+        }
+    }
     return 0;
 }
 
-- 
2.43.0


From 34517ee3b2b99f364771c00f235e1c63b0f213ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:18 +0000
Subject: [PATCH 44/58] fix: do not send a HTTP response that was cut by one
 byte

---
 proxy/http_coap/src/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 841210d..e0e65d7 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -307,7 +307,7 @@ static int connection_send(connection_t *con, http_msg_t *msg)
     while (1)
     {
         len = http_msg_generate(msg, data_buf_get_data(&con->send_buf), data_buf_get_space(&con->send_buf));
-        if (len <= data_buf_get_space(&con->send_buf))
+        if (len < data_buf_get_space(&con->send_buf))
         {
             break;
         }
-- 
2.43.0


From 0d5cb861b1175dbf9dc0251d937852a2c65c356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:58 +0000
Subject: [PATCH 45/58] fix: process pipelined HTTP requests that have already
 been received

---
 proxy/http_coap/src/connection.c | 62 ++++++++++++++++----------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index e0e65d7..675b8e7 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -220,36 +220,7 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
     sd = tls_sock_get_sd(con->sock);
     while (1)
     {
-        FD_ZERO(&readfds);
-        FD_SET(sd, &readfds);
-        errno = 0;
-        ret = select(sd + 1, &readfds, NULL, NULL, &tv);
-        if (ret == 0)
-        {
-            coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
-                          con->listener_index, con->con_index, con->addr);
-            return CON_RET_TIMEDOUT;
-        }
-        else if (ret == -1)
-        {
-            coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
-                           con->listener_index, con->con_index, con->addr, errno, strerror(errno));
-            return -errno;
-        }
-        num = tls_sock_read(con->sock, data_buf_get_next(&con->recv_buf), data_buf_get_space(&con->recv_buf));
-        if (num < 0)
-        {
-            coap_log_error("[%u] <%u> %s Failed to read from socket connected to HTTP client: %s",
-                           con->listener_index, con->con_index, con->addr, sock_strerror(num));
-            return -1;
-        }
-        if (num == 0)
-        {
-            coap_log_info("[%u] <%u> %s Socket connection to HTTP client closed remotely",
-                          con->listener_index, con->con_index, con->addr);
-            return CON_RET_CLOSED;
-        }
-        data_buf_add(&con->recv_buf, num);
+        /* parse the data that has already been received before waiting for more */
         num = http_msg_parse(msg, data_buf_get_data(&con->recv_buf), data_buf_get_count(&con->recv_buf));
         if (num > 0)
         {
@@ -290,6 +261,37 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
                            con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
             return num;
         }
+
+        FD_ZERO(&readfds);
+        FD_SET(sd, &readfds);
+        errno = 0;
+        ret = select(sd + 1, &readfds, NULL, NULL, &tv);
+        if (ret == 0)
+        {
+            coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
+                          con->listener_index, con->con_index, con->addr);
+            return CON_RET_TIMEDOUT;
+        }
+        else if (ret == -1)
+        {
+            coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
+                           con->listener_index, con->con_index, con->addr, errno, strerror(errno));
+            return -errno;
+        }
+        num = tls_sock_read(con->sock, data_buf_get_next(&con->recv_buf), data_buf_get_space(&con->recv_buf));
+        if (num < 0)
+        {
+            coap_log_error("[%u] <%u> %s Failed to read from socket connected to HTTP client: %s",
+                           con->listener_index, con->con_index, con->addr, sock_strerror(num));
+            return -1;
+        }
+        if (num == 0)
+        {
+            coap_log_info("[%u] <%u> %s Socket connection to HTTP client closed remotely",
+                          con->listener_index, con->con_index, con->addr);
+            return CON_RET_CLOSED;
+        }
+        data_buf_add(&con->recv_buf, num);
     }
     return 0;
 }
-- 
2.43.0


From 73ad404e2bbacd5bdca8818a68e2e17435caa42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:58 +0000
Subject: [PATCH 46/58] fix: do not wait for HTTP request data that is buffered
 by the TLS library

---
 proxy/http_coap/src/connection.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 675b8e7..173fe69 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -262,21 +262,25 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
             return num;
         }
 
-        FD_ZERO(&readfds);
-        FD_SET(sd, &readfds);
-        errno = 0;
-        ret = select(sd + 1, &readfds, NULL, NULL, &tv);
-        if (ret == 0)
+        /* do not wait for data that has already been received by the TLS library */
+        if (gnutls_record_check_pending(tls_sock_get_session(con->sock)) == 0)
         {
-            coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
-                          con->listener_index, con->con_index, con->addr);
-            return CON_RET_TIMEDOUT;
-        }
-        else if (ret == -1)
-        {
-            coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
-                           con->listener_index, con->con_index, con->addr, errno, strerror(errno));
-            return -errno;
+            FD_ZERO(&readfds);
+            FD_SET(sd, &readfds);
+            errno = 0;
+            ret = select(sd + 1, &readfds, NULL, NULL, &tv);
+            if (ret == 0)
+            {
+                coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
+                              con->listener_index, con->con_index, con->addr);
+                return CON_RET_TIMEDOUT;
+            }
+            else if (ret == -1)
+            {
+                coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
+                               con->listener_index, con->con_index, con->addr, errno, strerror(errno));
+                return -errno;
+            }
         }
         num = tls_sock_read(con->sock, data_buf_get_next(&con->recv_buf), data_buf_get_space(&con->recv_buf));
         if (num < 0)
-- 
2.43.0


From a3d38d7a26260859ba01ebf85c6c6775b9e3e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:06 +0000
Subject: [PATCH 47/58] fix: wait for a partially lost flight in the DTLS
 client handshake

When a part of a flight of the server had arrived, and the retransmission
timeout had passed, gnutls_dtls_get_timeout returned zero, and all of the
remaining handshake attempts were used up at once.
---
 lib/src/coap_client.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index b10ee2a..6f549b0 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -274,6 +274,11 @@ static int coap_client_dtls_handshake(coap_client_t *client)
         if (i < COAP_CLIENT_DTLS_HANDSHAKE_ATTEMPTS - 1)
         {
             timeout = gnutls_dtls_get_timeout(client->session);
+            if (timeout == 0)
+            {
+                /* gnutls_handshake has nothing to retransmit, wait for the server to do so */
+                timeout = COAP_CLIENT_DTLS_RETRANS_TIMEOUT;
+            }
             coap_log_debug("Handshake timeout: %u msec", timeout);
             ret = coap_client_dtls_listen_timeout(client, timeout);
             if (ret < 0)
-- 
2.43.0


From e49e861ff5b03d6c6797200a00492bbabd01fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:09 +0000
Subject: [PATCH 48/58] fix: wait for a partially lost flight in the DTLS
 server handshake

When a part of a flight of the client had arrived, and the retransmission
timeout had passed, gnutls_dtls_get_timeout returned zero, and all of the
remaining handshake attempts were used up at once.
---
 lib/src/coap_server.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index eb29235..faa5f1e 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -447,6 +447,11 @@ static int coap_server_trans_dtls_handshake(coap_server_trans_t *trans)
         if (i < COAP_SERVER_DTLS_HANDSHAKE_ATTEMPTS - 1)
         {
             timeout = gnutls_dtls_get_timeout(trans->session);
+            if (timeout == 0)
+            {
+                /* gnutls_handshake has nothing to retransmit, wait for the client to do so */
+                timeout = COAP_SERVER_DTLS_RETRANS_TIMEOUT;
+            }
             coap_log_debug("Handshake timeout: %u msec", timeout);
             ret = coap_server_trans_dtls_listen_timeout(trans, timeout);
             if (ret < 0)
-- 
2.43.0


From d6033c2af55dbcd022ab9edf7266fb4fdf002739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:40 +0000
Subject: [PATCH 49/58] fix: do not take a request for another path as one for
 a separate response path

---
 lib/src/coap_server.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index faa5f1e..1678666 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2229,9 +2229,15 @@ int coap_server_add_sep_resp_uri_path(coap_server_t *server, const char *str)
 static int coap_server_get_resp_type(coap_server_t *server, coap_msg_t *msg)
 {
     char buf[COAP_MSG_OP_URI_PATH_MAX_LEN] = {0};
+    size_t len = 0;
     int match = 0;
 
-    coap_msg_uri_path_to_str(msg, buf, sizeof(buf));
+    len = coap_msg_uri_path_to_str(msg, buf, sizeof(buf));
+    if (len != strlen(buf))
+    {
+        /* the path was truncated or contains a null character so cannot be in the list */
+        return COAP_SERVER_PIGGYBACKED;
+    }
     match = coap_server_path_list_match(&server->sep_list, buf);
     return match ? COAP_SERVER_SEPARATE : COAP_SERVER_PIGGYBACKED;
 }
-- 
2.43.0


From c029b7a3f36537d38af4acbafc853c96eb83b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:46 +0000
Subject: [PATCH 50/58] fix: compare the whole URI path of the requests of a
 blockwise transfer

---
 lib/include/coap_server.h | 2 +-
 lib/src/coap_server.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/coap_server.h b/lib/include/coap_server.h
index f39d5e9..cbb0b69 100755
--- a/lib/include/coap_server.h
+++ b/lib/include/coap_server.h
@@ -142,7 +142,7 @@ typedef struct coap_server_trans
     unsigned block2_size;                                                       /**< Block2 size for blockwise transfers */
     size_t block1_next;                                                         /**< Byte offset of the next block in the request */
     size_t block2_next;                                                         /**< Byte offset of the next block in the response */
-    char block_uri[COAP_MSG_OP_URI_PATH_MAX_LEN + 1];                           /**< The URI for the current blockwise transfer */
+    char block_uri[COAP_MSG_MAX_BUF_LEN + 1];                                   /**< The URI for the current blockwise transfer */
     coap_msg_success_t block_detail;                                            /**< Code detail for a PUT or POST blockwise operation */
     coap_server_trans_handler_t block_rx;                                       /**< User-supplied callback function to be called when the body of a blockwise transfer has been fully received */
     struct coap_server *server;                                                 /**< Pointer to the containing server structure */
diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 1678666..9392402 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1420,7 +1420,7 @@ static int coap_server_trans_handle_next_block(coap_server_trans_t *trans, coap_
     unsigned block_len = 0;
     size_t block1_next = 0;
     size_t block2_next = 0;
-    char block_uri[COAP_MSG_OP_URI_PATH_MAX_LEN + 1] = {0};
+    char block_uri[COAP_MSG_MAX_BUF_LEN + 1] = {0};
     char block_val[COAP_MSG_OP_MAX_BLOCK_VAL_LEN] = {0};
     int block1_szx = -1;
     int block2_szx = -1;
-- 
2.43.0


From f2f085616a901d2700d07814b4926de28414f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:45 +0000
Subject: [PATCH 51/58] fix: release the TLS library when its initialisation
 fails half way

---
 proxy/common/src/tls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/common/src/tls.c b/proxy/common/src/tls.c
index 19ec24c..e85cc98 100755
--- a/proxy/common/src/tls.c
+++ b/proxy/common/src/tls.c
@@ -53,6 +53,7 @@ int tls_init(void)
         ret = gnutls_priority_init(&_tls_priority_cache, "NORMAL", NULL);
         if (ret != GNUTLS_E_SUCCESS)
         {
+            gnutls_global_deinit();
             return SOCK_TLS_INIT_ERROR;
         }
         _tls_init = 1;
-- 
2.43.0


From e0e94a58ab88a58c40fbcda15c9b2f9fe9866e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:53 +0000
Subject: [PATCH 52/58] fix: replace the session stored under the same
 identifier in the TLS server cache

---
 proxy/common/src/tls.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/proxy/common/src/tls.c b/proxy/common/src/tls.c
index e85cc98..1334dd0 100755
--- a/proxy/common/src/tls.c
+++ b/proxy/common/src/tls.c
@@ -313,19 +313,34 @@ static void tls_server_cache_destroy(tls_server_cache_t *cache)
 
 static int tls_server_cache_set(tls_server_cache_t *cache, gnutls_datum_t key, gnutls_datum_t data)
 {
+    unsigned i = 0;
+    int found = 0;
+
     if ((key.size > TLS_SERVER_MAX_SESSION_ID_SIZE) || (data.size > TLS_SERVER_MAX_SESSION_DATA_SIZE))
     {
         return SOCK_TLS_CACHE_ERROR;
     }
 
-    memcpy(cache->element[cache->index].session_id, key.data, key.size);
-    cache->element[cache->index].session_id_size = key.size;
+    for (i = 0; i < cache->size; i++)
+    {
+        if ((key.size == cache->element[i].session_id_size)
+         && (memcmp(key.data, cache->element[i].session_id, key.size) == 0))
+        {
+            found = 1;
+            break;
+        }
+    }
+    if (!found)
+    {
+        i = cache->index++;
+        cache->index %= cache->size;
+    }
 
-    memcpy(cache->element[cache->index].session_data, data.data, data.size);
-    cache->element[cache->index].session_data_size = data.size;
+    memcpy(cache->element[i].session_id, key.data, key.size);
+    cache->element[i].session_id_size = key.size;
 
-    cache->index++;
-    cache->index %= cache->size;
+    memcpy(cache->element[i].session_data, data.data, data.size);
+    cache->element[i].session_data_size = data.size;
 
     return SOCK_OK;
 }
-- 
2.43.0


From f2c5d4d65731583b479073470cf283d24f14de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:56 +0000
Subject: [PATCH 53/58] fix: report a TLS trust file that contains no
 certificate

---
 proxy/common/src/tls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/tls.c b/proxy/common/src/tls.c
index 1334dd0..cbcbd62 100755
--- a/proxy/common/src/tls.c
+++ b/proxy/common/src/tls.c
@@ -165,7 +165,7 @@ int tls_client_create(tls_client_t *client, const char *trust_file_name, const c
     }
 
     ret = gnutls_certificate_set_x509_trust_file(client->cred, trust_file_name, GNUTLS_X509_FMT_PEM);
-    if (ret < 0)
+    if (ret <= 0)
     {
         gnutls_certificate_free_credentials(client->cred);
         memset(client, 0, sizeof(tls_client_t));
@@ -403,7 +403,7 @@ int tls_server_create(tls_server_t *server, const char *trust_file_name, const c
     if (trust_file_name != NULL)
     {
         ret = gnutls_certificate_set_x509_trust_file(server->cred, trust_file_name, GNUTLS_X509_FMT_PEM);
-        if (ret < 0)
+        if (ret <= 0)
         {
             gnutls_certificate_free_credentials(server->cred);
             memset(server, 0, sizeof(tls_server_t));
-- 
2.43.0


From 2360ba2fd730cc4ee20b10b004ddd5e95093e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:39 +0000
Subject: [PATCH 54/58] fix: wait for the direction the TLS library is blocked
 in

When the peer stops reading, closing (or the handshake) is blocked in a
write, but the code waited for incoming data. If there was any it looped
without pause, for a multiple of the timeout.
---
 proxy/common/src/tls_sock.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/proxy/common/src/tls_sock.c b/proxy/common/src/tls_sock.c
index 7b8cfd8..a4ec40f 100755
--- a/proxy/common/src/tls_sock.c
+++ b/proxy/common/src/tls_sock.c
@@ -268,6 +268,7 @@ int tls_sock_handshake(tls_sock_t *s)
 {
     struct timeval tv = {0};
     fd_set readfds = {{0}};
+    fd_set writefds = {{0}};
     fd_set errfds = {{0}};
     int ret = 0;
 
@@ -294,10 +295,18 @@ int tls_sock_handshake(tls_sock_t *s)
             return SOCK_TLS_HANDSHAKE_ERROR;
         }
         FD_ZERO(&readfds);
-        FD_SET(s->sd, &readfds);
+        FD_ZERO(&writefds);
+        if (gnutls_record_get_direction(s->session) == 0)
+        {
+            FD_SET(s->sd, &readfds);
+        }
+        else
+        {
+            FD_SET(s->sd, &writefds);
+        }
         FD_ZERO(&errfds);
         FD_SET(s->sd, &errfds);
-        ret = select(s->sd + 1, &readfds, NULL, &errfds, &tv);
+        ret = select(s->sd + 1, &readfds, &writefds, &errfds, &tv);
         if (ret == 0)
         {
             return SOCK_TIMEOUT;
@@ -414,6 +423,7 @@ void tls_sock_close(tls_sock_t *s)
     struct timeval tv = {0};
     gnutls_datum_t datum = {0};
     fd_set readfds = {{0}};
+    fd_set writefds = {{0}};
     fd_set errfds = {{0}};
     char addr[SOCK_INET_ADDRSTRLEN] = {0};
     int success = 0;
@@ -444,10 +454,18 @@ void tls_sock_close(tls_sock_t *s)
             break;
         }
         FD_ZERO(&readfds);
-        FD_SET(s->sd, &readfds);
+        FD_ZERO(&writefds);
+        if (gnutls_record_get_direction(s->session) == 0)
+        {
+            FD_SET(s->sd, &readfds);
+        }
+        else
+        {
+            FD_SET(s->sd, &writefds);
+        }
         FD_ZERO(&errfds);
         FD_SET(s->sd, &errfds);
-        ret = select(s->sd + 1, &readfds, NULL, &errfds, &tv);
+        ret = select(s->sd + 1, &readfds, &writefds, &errfds, &tv);
         if (ret <= 0)
         {
             break;
-- 
2.43.0


From da4b82e1cb4af54a6538d1062a74c46c36db033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:00 +0000
Subject: [PATCH 55/58] fix: keep listening when one connection cannot be
 started

If the data or the thread for an accepted connection could not be created,
the listener thread ended while the main thread kept running, so the proxy
never accepted a connection again.
---
 proxy/http_coap/src/listener.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/http_coap/src/listener.c b/proxy/http_coap/src/listener.c
index 119c623..dbc27fa 100755
--- a/proxy/http_coap/src/listener.c
+++ b/proxy/http_coap/src/listener.c
@@ -78,7 +78,7 @@ static void *listener_thread_func(void *data)
             coap_log_error("Unable to create connection data");
             tls_sock_close(sock);
             free(sock);
-            break;
+            continue;
         }
 
         ret = thread_init(&thread, &listener->ctx, connection_thread_func, con);
@@ -86,7 +86,7 @@ static void *listener_thread_func(void *data)
         {
             coap_log_error("Unable to create connection thread");
             connection_delete(con);
-            break;
+            continue;
         }
     }
     coap_log_notice("[%u] Stopped listening on port %s", listener->index, param_get_port(listener->param));
-- 
2.43.0


From 990f28134e0c79d1caabd5dfecd34278341a95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:28 +0000
Subject: [PATCH 56/58] fix: refuse to load a directory as a text file

The length reported for a directory is LONG_MAX and adding space for the
terminating null character to it overflows.
---
 proxy/common/src/util.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/common/src/util.c b/proxy/common/src/util.c
index 5917429..a71a541 100755
--- a/proxy/common/src/util.c
+++ b/proxy/common/src/util.c
@@ -32,6 +32,7 @@
  */
 
 #include <stdlib.h>
+#include <limits.h>
 #include <stdio.h>
 #include "util.h"
 
@@ -103,6 +104,7 @@ static inline long util_file_len(FILE *file)
 
     if ((fseek(file, 0, SEEK_END) == 0)
      && ((file_len = ftell(file)) >= 0)
+     && (file_len < LONG_MAX)  /* reported for a directory */
      && (fseek(file, 0, SEEK_SET) == 0))
     {
         return file_len;
-- 
2.43.0


From 9508ea089ddb4255e9a8300287dfdea934d96e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:12 +0000
Subject: [PATCH 57/58] fix: unlink a deleted registrar entry from its
 neighbours

---
 sample/reg_server/registrar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sample/reg_server/registrar.c b/sample/reg_server/registrar.c
index 1c918ee..4109d9b 100755
--- a/sample/reg_server/registrar.c
+++ b/sample/reg_server/registrar.c
@@ -138,6 +138,10 @@ int registrar_del(registrar_t *registrar, const char *id)
         registrar->first = registrar_entry_get_next(registrar->first);
     if (registrar->last == entry)
         registrar->last = registrar_entry_get_prev(registrar->last);
+    if (registrar_entry_get_prev(entry) != NULL)
+        registrar_entry_set_next(registrar_entry_get_prev(entry), registrar_entry_get_next(entry));
+    if (registrar_entry_get_next(entry) != NULL)
+        registrar_entry_set_prev(registrar_entry_get_next(entry), registrar_entry_get_prev(entry));
     registrar_entry_delete(entry);
     return 0;
 }
-- 
2.43.0


From 538b8ef254843b530ecf36081c2b8d220605b5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:12 +0000
Subject: [PATCH 58/58] fix: report a failed transfer and release its messages
 in the transfer client

---
 sample/transfer_client/transfer_client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sample/transfer_client/transfer_client.c b/sample/transfer_client/transfer_client.c
index 9295eed..cee5b0c 100755
--- a/sample/transfer_client/transfer_client.c
+++ b/sample/transfer_client/transfer_client.c
@@ -229,16 +229,18 @@ int transfer_client_execute(transfer_client_t *client, const char *filename)
         if (num != -1)
         {
             /* a return value of -1 indicates a DTLS failure which has already been logged */
-            coap_log_error("%s", strerror(-ret));
+            coap_log_error("%s", strerror(-num));
         }
         coap_msg_destroy(&resp);
         coap_msg_destroy(&req);
         free(file_buf);
-        return ret;
+        return num;
     }
     free(file_buf);
     coap_log_info("Transfer response: %u.%u",
                   coap_msg_get_code_class(&resp),
                   coap_msg_get_code_detail(&resp));
+    coap_msg_destroy(&resp);
+    coap_msg_destroy(&req);
     return 0;
 }
-- 
2.43.0

