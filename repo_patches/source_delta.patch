From cdc645b229a11b14acee99eff24b70e50f388b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 01/40] fix: circ_buf_read_offset() read the wrapped part from
 the wrong place

When the first segment after the offset was shorter than the offset itself,
the bytes after the wrap were copied from buffer + (offset - segment_len)
instead of from the start of the buffer.
---
 circular_buffer.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index ad0585a..41130d8 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -236,14 +236,10 @@ int circ_buf_read_offset(circ_buf_t* circ_buf,
     // 0 to either stop_ind (last data byte) or the number of bytes left
     // wanted by the caller, whichever is smaller.
     len -= segment_len;
-    if (offset > segment_len)
-        offset -= segment_len;
-    else
-        offset = 0;
 
     segment_len = RMC_MIN(len, circ_buf->stop_ind);
 
-    memcpy(target + copied_bytes, circ_buf->buffer + offset, segment_len);
+    memcpy(target + copied_bytes, circ_buf->buffer, segment_len);
 
     copied_bytes += segment_len;
 
-- 
2.43.0


From 1e2ca44b3546f8fa028b0f3b63bb74328cb49499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 02/40] fix: circ_buf_alloc() handed out a segment at the end
 of the buffer

When an allocation ended exactly at the end of the buffer, the next one
returned an empty first segment pointing one byte beyond the buffer, and put
everything in the second. Callers store the command byte through the first
segment, so they wrote outside the buffer and sent a stale byte instead.
---
 circular_buffer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circular_buffer.c b/circular_buffer.c
index 41130d8..4e17c9a 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -71,6 +71,10 @@ int circ_buf_alloc(circ_buf_t* circ_buf,
     if (available_size < len)
         return ENOMEM;
 
+    // An earlier allocation may have ended exactly at the end of the buffer.
+    if (circ_buf->stop_ind == buf_size)
+        circ_buf->stop_ind = 0;
+
     // Can we fit the requested number of bytes into a single segmetn?
     if (buf_size - circ_buf->stop_ind >= len) {
         *segment1 = &circ_buf->buffer[circ_buf->stop_ind];
-- 
2.43.0


From 905e7ddec74d614e09618a76efdaeb9adb104836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 03/40] fix: circ_buf_trim() moved the end of the data outside
 the buffer

Whether the end has to wrap back depends on where the data starts, not on
target_len: with size 10, start 8, stop 5 and a target of 1 the end became
negative. rmc_conn_tcp_read() runs into this when a partial command is left
in a wrapped read buffer.
---
 circular_buffer.c | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index 4e17c9a..37a4c07 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -112,23 +112,7 @@ void circ_buf_trim(circ_buf_t* circ_buf, uint32_t target_len)
     if (in_use <= target_len)
         return;
 
-    // target_len: 1
-    // Before
-    // Index:     [0][1][2][3][4]
-    // Data:       A  B  C  D  -
-    // Start/stop  S           s
-    //
-    // After
-    // Index:     [0][1][2][3][4]
-    // Data:       A  B  -  -  -
-    // Start/stop  S  s
-    //
-    if (circ_buf->stop_ind > target_len) {
-        circ_buf->stop_ind -= in_use - target_len;
-        return;
-    }
-
-    // We need to wrap stop_ind back to the end of the buffer.
+    // The new end of the data, which may wrap stop_ind back to the end of the buffer.
     //
     // target_len: 1
     // Before
-- 
2.43.0


From 870885f9ccc6ee6329ac7e6c6717cbe579302795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 04/40] fix: a control message wrapping in the write buffer
 sent stack memory

The part after the wrap was copied from the address of the payload pointer
instead of from the payload.
---
 rmc_sub_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index a89713f..dfc1713 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -213,7 +213,7 @@ int rmc_sub_write_control_message(rmc_sub_context_t* ctx,
         memcpy(seg1, (uint8_t*) payload, seg1_len);
 
        if (seg2_len)
-            memcpy(seg2, ((uint8_t*) &payload) + seg1_len, seg2_len);
+            memcpy(seg2, ((uint8_t*) payload) + seg1_len, seg2_len);
 
 
         // We always want to read from the tcp  socket.
-- 
2.43.0


From a9dd7ac26f244a1662ddfd78b221aa8618eacc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 05/40] fix: a lost packet was never resent while newer packets
 were in flight

pub_get_timed_out_packets() started at the newest packet of the subscriber and
stopped at the first one not yet timed out, so older, timed out packets behind
it were left out. Start with the oldest, which is also the order the resends
are documented to go out in.
---
 pub.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pub.c b/pub.c
index b483f18..3e05743 100644
--- a/pub.c
+++ b/pub.c
@@ -322,13 +322,14 @@ void pub_get_timed_out_packets(pub_subscriber_t* sub,
                                usec_timestamp_t timeout_period, // Number of usecs until timeout
                                pub_packet_list_t* result)
 {
-    pub_packet_node_t* pack_node = pub_packet_list_head(&sub->inflight);
+    // The inflight list is sorted on descending pid: the oldest packet is at the tail.
+    pub_packet_node_t* pack_node = pub_packet_list_tail(&sub->inflight);
 
     // Traverse all inflight packets for subscriber until we find one that is not timed out.x
     while(pack_node &&
           pack_node->data->send_ts + timeout_period <= current_ts) {
         pub_packet_list_push_tail(result, pack_node->data);
-        pack_node = pub_packet_list_next(pack_node);
+        pack_node = pub_packet_list_prev(pack_node);
     }
 
     return;
-- 
2.43.0


From 537afbaacf7c313f71191ed6b0f3bbca138b9cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 06/40] fix: one subscriber with a full buffer stopped resends
 to all others

rmc_pub_timeout_process() gave up at the first subscriber it could not queue a
resend for. Serve the remaining ones, and return the first error.
---
 rmc_pub_timeout.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index da3fd1e..8c9eb99 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -164,18 +164,19 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
 
     // Traverse the list of subscribers and process their timed out packets
     // by sending them via the TCP control channel.
+    // A subscriber that cannot be served now, because its buffer is full,
+    // must not hold up the others.
     while(pub_sub_list_pop_head(&subs, &sub)) {
-        res = process_subscriber_timeout(ctx, sub, current_ts);
+        int sub_res = process_subscriber_timeout(ctx, sub, current_ts);
 
-        if (res) {
-            // Clean up the list.
-            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(res));
-            pub_sub_list_empty(&subs);
-            return res;
+        if (sub_res) {
+            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(sub_res));
+            if (!res)
+                res = sub_res;
         }
     }
 
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From aa238d5f5c5db6adaea667f4261e78039cfa36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 07/40] fix: a packet sent while there is no subscriber was
 kept forever

Packets are released by the last acknowledgement. With no subscriber there is
none: payload_free was never called, the packet stayed in the in-flight list
and counted towards the throttling threshold, where it could suspend traffic
for good.
---
 pub.c           | 25 +++++++++++++++++++++++++
 rmc_pub.h       |  7 +++++++
 rmc_pub_write.c |  9 +++++++++
 3 files changed, 41 insertions(+)

diff --git a/pub.c b/pub.c
index 3e05743..70d6399 100644
--- a/pub.c
+++ b/pub.c
@@ -233,6 +233,31 @@ void pub_packet_sent(pub_context_t* ctx,
 }
 
 
+// Discard a sent packet that no subscriber is to acknowledge.
+void pub_packet_discard(pub_context_t* ctx,
+                        pub_packet_t* pack,
+                        void (*pub_payload_free)(void* payload,
+                                                 payload_len_t payload_len,
+                                                 user_data_t user_data))
+{
+    assert(ctx);
+    assert(pack);
+    assert(!pack->ref_count);
+
+    // pub_packet_sent() leaves the node of a packet with pid 0 unlinked.
+    if (pack->parent_node->owner)
+        pub_packet_list_unlink(pack->parent_node);
+
+    (*ctx->inflight.free_node)(pack->parent_node, ctx->inflight.user_data);
+
+    if (pub_payload_free)
+        (*pub_payload_free)(pack->payload,
+                            pack->payload_len,
+                            pack->pkg_user_data);
+
+    _free_pending_packet(pack);
+}
+
 void pub_packet_ack(pub_subscriber_t* sub,
                     packet_id_t pid,
                     void (*pub_payload_free)(void* payload,
diff --git a/rmc_pub.h b/rmc_pub.h
index 4fbc496..ea1f067 100644
--- a/rmc_pub.h
+++ b/rmc_pub.h
@@ -136,6 +136,13 @@ extern void pub_packet_sent(pub_context_t* ctx,
                             pub_packet_t* ppack,
                             usec_timestamp_t send_ts);
 
+// Discard a sent packet that no subscriber is to acknowledge.
+extern void pub_packet_discard(pub_context_t* ctx,
+                               pub_packet_t* pack,
+                               void (*pub_payload_free)(void* payload,
+                                                        payload_len_t payload_len,
+                                                        user_data_t user_data));
+
 extern void pub_packet_ack(pub_subscriber_t* sub,
                            packet_id_t pid,
                            // Called if this was the last subscriber acking the packet
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index c16e524..fb793ee 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -31,6 +31,11 @@ static void setup_packet_header(rmc_pub_context_t* ctx,
     pack_hdr->listen_port = ctx->control_listen_port;
 }
 
+static void _payload_free_generic(void* payload, payload_len_t payload_len, user_data_t user_data)
+{
+    free(payload);
+}
+
 // FIXME: If we see timed out (== lost) packets from subscribers, we should
 //        switch them to TCP for a period of time in order
 //        to use TCP's flow control until congestion has eased.
@@ -106,6 +111,10 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
+    // Nobody to wait for?
+    if (pack->pid && !pack->ref_count)
+        pub_packet_discard(pctx, pack, ctx->payload_free?ctx->payload_free:_payload_free_generic);
+
     res = 0;
 rearm:
     if (ctx->conn_vec.poll_modify) {
-- 
2.43.0


From 9e9f461ff5365b06bb2235e0f7705c9d621729fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 08/40] fix: traffic stayed suspended after the subscriber it
 waited for disconnected

Resuming was only considered on an acknowledgement. When the packets in flight
went away with their subscriber, rmc_pub_queue_packet() returned EBUSY forever.
---
 rmc_internal.h   |  2 ++
 rmc_pub_packet.c | 17 +++++++++++------
 rmc_pub_read.c   |  3 +++
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index 8068eaa..a7bc11b 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -382,6 +382,8 @@ typedef struct rmc_conn_command_dispatch {
 
 extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection* conn, packet_id_t pid);
 
+extern void rmc_pub_check_traffic_resume(struct rmc_pub_context* ctx);
+
 
 
 
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 98ae2a1..6148360 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -92,13 +92,8 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
     free(payload);
 }
 
-int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id_t pid)
+void rmc_pub_check_traffic_resume(rmc_pub_context_t* ctx)
 {
-    pub_packet_ack(&ctx->subscribers[conn->connection_index],
-                   pid,
-                   // packet free function invoked when the last subscriber acks the packet.
-                   ctx->payload_free?ctx->payload_free:_payload_free_generic);
-
     // If we currently have suspended traffic,
     // check if we are to resume it.
     if (ctx->traffic_suspended) {
@@ -110,6 +105,16 @@ int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id
                           pub_get_unacknowledged_packet_count(&ctx->pub_ctx),
                           ctx->traffic_resume_threshold);
     }
+}
+
+int rmc_pub_packet_ack(rmc_pub_context_t* ctx, rmc_connection_t* conn, packet_id_t pid)
+{
+    pub_packet_ack(&ctx->subscribers[conn->connection_index],
+                   pid,
+                   // packet free function invoked when the last subscriber acks the packet.
+                   ctx->payload_free?ctx->payload_free:_payload_free_generic);
+
+    rmc_pub_check_traffic_resume(ctx);
 
     return 0;
 }
diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 68c22b9..2d0de77 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -113,6 +113,9 @@ int rmc_pub_close_connection(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
     pub_reset_subscriber(&ctx->subscribers[s_ind],
                          ctx->payload_free?ctx->payload_free:_generic_payload_free);
+
+    // The packets this subscriber had in flight may have been what suspended traffic.
+    rmc_pub_check_traffic_resume(ctx);
     return 0;
 }
 
-- 
2.43.0


From e6057200f0af87fb1df2ec64cfe71343357d9f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 09/40] fix: announcements were sent from a stack buffer gone
 out of scope

rmc_pub_timeout_process() queued a pointer to its local buffer; the packet is
sent later, by rmc_pub_write(), and carried whatever was there by then. Queue a
copy instead. Packets that are not to be acknowledged were also never freed
once sent.
---
 rmc_internal.h    |  4 ++++
 rmc_pub_packet.c  | 45 +++++++++++++++++++++++++++++++++++++++------
 rmc_pub_timeout.c |  2 +-
 rmc_pub_write.c   |  5 ++++-
 4 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index a7bc11b..97defe0 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -384,6 +384,10 @@ extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection
 
 extern void rmc_pub_check_traffic_resume(struct rmc_pub_context* ctx);
 
+extern int rmc_pub_queue_announce(struct rmc_pub_context* ctx,
+                                  void* payload,
+                                  payload_len_t payload_len);
+
 
 
 
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 6148360..00dc9ae 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -14,10 +14,11 @@
 #include <stdio.h>
 #include <stdlib.h>
 
-int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
-                         void* payload,
-                         payload_len_t payload_len,
-                         uint8_t announce_flag)
+static int queue_packet(rmc_pub_context_t* ctx,
+                        void* payload,
+                        payload_len_t payload_len,
+                        uint8_t announce_flag,
+                        user_data_t pkg_user_data)
 {
     pub_packet_t *pack;
 
@@ -42,9 +43,9 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
     // If this is an announcement, force PID to 0.
     // If this is a regular packet, let pub.c figure out the next PID to use.
     if (announce_flag)
-        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_no_acknowledge_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
     else
-        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, user_data_nil());
+        pub_queue_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
 
     if (ctx->conn_vec.poll_modify)  {
         // Did we already have a packet pending for send prior
@@ -69,6 +70,38 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
 }
 
 
+int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
+                         void* payload,
+                         payload_len_t payload_len,
+                         uint8_t announce_flag)
+{
+    return queue_packet(ctx, payload, payload_len, announce_flag, user_data_nil());
+}
+
+
+// Queue an announce packet with a copy of the given payload.
+int rmc_pub_queue_announce(rmc_pub_context_t* ctx,
+                           void* payload,
+                           payload_len_t payload_len)
+{
+    void* copy = malloc(payload_len?payload_len:1);
+    int res = 0;
+
+    if (!copy) {
+        RMC_LOG_FATAL("Could not allocate %d bytes", payload_len);
+        exit(255);
+    }
+    memcpy(copy, payload, payload_len);
+
+    // Non-nil user data tells send_single_multicast_packet() that the copy is ours to free.
+    res = queue_packet(ctx, copy, payload_len, 1, user_data_u32(1));
+    if (res)
+        free(copy);
+
+    return res;
+}
+
+
 uint32_t rmc_pub_queue_length(rmc_pub_context_t* ctx)
 {
     if (!ctx)
diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index 8c9eb99..0c48d6b 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -146,7 +146,7 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
 
         if (send_announce) {
             RMC_LOG_DEBUG("Sending announce");
-            rmc_pub_queue_packet(ctx, buffer, len, 1);
+            rmc_pub_queue_announce(ctx, buffer, len);
         }
 
         // Setup next announce.
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index fb793ee..0ff06ea 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -111,8 +111,11 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
+    // Is the packet an announcement made by rmc_pub_queue_announce()?
+    if (!pack->pid && pack->pkg_user_data.u32)
+        pub_packet_discard(pctx, pack, _payload_free_generic);
     // Nobody to wait for?
-    if (pack->pid && !pack->ref_count)
+    else if (!pack->ref_count)
         pub_packet_discard(pctx, pack, ctx->payload_free?ctx->payload_free:_payload_free_generic);
 
     res = 0;
-- 
2.43.0


From fc32453123e3ac0e55723d963a9fa05612c5340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 10/40] fix: the control message callback was left
 uninitialised

A control message from a subscriber called through an uninitialised pointer
unless rmc_pub_set_control_message_callback() had been used.
---
 rmc_pub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 4c77812..e29c640 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -128,7 +128,7 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     ctx->subscriber_connect_cb = 0;
     ctx->subscriber_disconnect_cb = 0;
 
-    ctx->subscriber_connect_cb = 0;
+    ctx->subscriber_control_message_cb = 0;
 
     ctx->announce_cb = 0;
     ctx->announce_send_interval = 0;
-- 
2.43.0


From 6fbef8be8c12887ece152c5f847796ad8ef51711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 11/40] fix: a failed accept closed another connection and
 leaked its own

rmc_conn_process_accept() handed a descriptor to rmc_conn_close_connection(),
which takes a connection index, and the slot stayed taken.
---
 rmc_connection.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 73730e2..cf15af9 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -354,8 +354,11 @@ int rmc_conn_process_accept(int listen_descriptor,
                                                       (struct sockaddr*) &src_addr,
                                                       &addr_len);
 
-    if (conn_vec->connections[c_ind].descriptor == -1)
-        return errno;
+    if (conn_vec->connections[c_ind].descriptor == -1) {
+        sock_err = errno;
+        _reset_max_connection_ind(conn_vec);
+        return sock_err;
+    }
 
     // Set nonblocking mode on the socket.
     desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
@@ -368,7 +371,10 @@ int rmc_conn_process_accept(int listen_descriptor,
     // out acks.
     if (setsockopt(conn_vec->connections[c_ind].descriptor, IPPROTO_TCP, TCP_NODELAY, (void *)&tr, sizeof(tr))) {
         sock_err = errno;
-        rmc_conn_close_connection(conn_vec, conn_vec->connections[c_ind].descriptor);
+        // The connection is not yet open to rmc_conn_close_connection().
+        close(conn_vec->connections[c_ind].descriptor);
+        conn_vec->connections[c_ind].descriptor = -1;
+        _reset_max_connection_ind(conn_vec);
         return sock_err;
     }
 
-- 
2.43.0


From c34c550ce66f56cca2b4e508c6d38b88a13986e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 12/40] fix: a subscriber's address was in network order and
 its port missing

remote_address and remote_port are documented to be in host format; an
accepted connection had the address in network format and port 0, which is
what the connect, disconnect and control message callbacks were given.
---
 rmc_connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index cf15af9..d732af1 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -379,7 +379,8 @@ int rmc_conn_process_accept(int listen_descriptor,
     }
 
     conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;
-    conn_vec->connections[c_ind].remote_address = src_addr.sin_addr.s_addr;
+    conn_vec->connections[c_ind].remote_address = ntohl(src_addr.sin_addr.s_addr);
+    conn_vec->connections[c_ind].remote_port = ntohs(src_addr.sin_port);
 
     conn_vec->connections[c_ind].action = RMC_POLLREAD;
     if (conn_vec->poll_add)
-- 
2.43.0


From b19d57f88e734bb4340534837b9e18699ba981f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 13/40] fix: a failed connection attempt was removed from the
 poll set twice

rmc_conn_close_connection() calls poll_remove itself.
---
 rmc_connection.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index d732af1..dc1bca3 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -211,9 +211,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
 
         return sock_err;
@@ -230,9 +227,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
         return sock_err;
     }
-- 
2.43.0


From a0c00e931575464c4292052439fc5774c464a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 14/40] fix: an announce received while connecting opened
 another connection

The second connection to the same publisher was never used, since lookup by
address finds the first one, and took a slot until the context was deleted.
---
 rmc_sub_read.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index a77ee4c..b4d0614 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -171,9 +171,11 @@ static int process_multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res, uin
 
     if (!conn || conn->mode == RMC_CONNECTION_MODE_CONNECTING) {
         RMC_LOG_INDEX_DEBUG(conn?conn->connection_index:RMC_NIL_INDEX, "mode[%d]", conn?conn->mode:-1);
-        res = decode_unsubscribed_multicast(ctx,
-                                            pack_hdr,
-                                            data);
+        // Don't connect again if we are already in the process of doing so.
+        if (!conn)
+            res = decode_unsubscribed_multicast(ctx,
+                                                pack_hdr,
+                                                data);
 
         if (read_res)
             *read_res = RMC_READ_MULTICAST_NOT_READY;
-- 
2.43.0


From ffb75470ff11c414a893c2f604b597b4b469e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 15/40] fix: a publisher was queued for acks before its packet
 had a time

The publisher was always sorted first in pub_ack_list, and held up the acks
that were due to publishers queued before it.
---
 rmc_sub_packet.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 6329934..1cace00 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -37,27 +37,28 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
                             user_data_t pkg_user_data)
 {
     sub_publisher_t* pub = &ctx->publishers[index];
+    uint8_t first_unacked = !sub_pid_interval_list_size(&pub->received_interval);
 
+    sub_packet_received(&ctx->publishers[index],
+                        pid,
+                        payload,
+                        payload_len,
+                        1, // We want to add this packet to receive interval so that we can ack it.
+                        rmc_usec_monotonic_timestamp(),
+                        user_data_u32(index));
 
     // If this packet is the first one that needs to be acked for the
     // given publisher, then add the index of the publisher (and
     // connection) into the ctx->pub_ack_list.
-    // The list is sorted on oldest unacknowledged packet.
+    // The list is sorted on oldest unacknowledged packet, which
+    // sub_packet_received() must have recorded first.
     //
-    if (!sub_oldest_unacknowledged_packet(pub))
+    if (first_unacked)
         rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
                                          index,
                                          _compare_oldest_unackowledged_packet,
                                          ctx);
 
-    sub_packet_received(&ctx->publishers[index],
-                        pid,
-                        payload,
-                        payload_len,
-                        1, // We want to add this packet to receive interval so that we can ack it.
-                        rmc_usec_monotonic_timestamp(),
-                        user_data_u32(index));
-
     return 0;
 }
 
-- 
2.43.0


From 7d97162e09d991f0339bd9edacffab3a40f77568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 16/40] fix: acks were delayed when a packet with a lower pid
 arrived later

The oldest unacknowledged packet was taken to be the one with the lowest pid.
---
 sub.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sub.c b/sub.c
index 34d0e95..d2a9f66 100644
--- a/sub.c
+++ b/sub.c
@@ -194,10 +194,21 @@ inline user_data_t sub_packet_user_data(sub_packet_t* pack)
 
 usec_timestamp_t sub_oldest_unacknowledged_packet(sub_publisher_t* pub)
 {
+    sub_pid_interval_node_t* inode = 0;
+    usec_timestamp_t oldest = 0;
+
     if (!pub || !sub_pid_interval_list_size(&pub->received_interval))
         return 0;
 
-    return sub_pid_interval_list_head(&pub->received_interval)->data.receive_ts;
+    // The list is sorted on pid, not on time of arrival.
+    inode = sub_pid_interval_list_head(&pub->received_interval);
+    oldest = inode->data.receive_ts;
+
+    while((inode = sub_pid_interval_list_next(inode)))
+        if (inode->data.receive_ts < oldest)
+            oldest = inode->data.receive_ts;
+
+    return oldest;
 }
 
 // Add the pid of a received packet to the number of
-- 
2.43.0


From 3df656a772436cfe14c7a320b5f886d87841beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 17/40] fix: an ack that did not fit in the write buffer was
 lost

The interval was removed from the list before it was known to be sent, and
the acks due to other publishers were not sent at all.
---
 rmc_sub_timeout.c | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index d7a4a13..4e1377f 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -22,6 +22,8 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 {
     usec_timestamp_t current_ts = rmc_usec_monotonic_timestamp();
     rmc_index_node_t *inode = 0;
+    rmc_index_node_t *next = 0;
+    int ret = 0;
 
     if (!ctx)
         return EINVAL;
@@ -46,18 +48,22 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
     //
     // Retreive the publisher with the oldest unacked packet.
     //
-    while(inode) {
+    for(; inode; inode = next) {
         sub_publisher_t* pub = &ctx->publishers[inode->data];
-        sub_pid_interval_t pid_intv;
+        sub_pid_interval_node_t* intv_node = 0;
+        int res = 0;
 
+        next = rmc_index_list_next(inode);
 
         // If it is not yet time to send acks for this publisher, then
-        // break out of loop and return.
+        // leave it for later.
+        // The list may be out of order if we could only send some
+        // of the acks to a publisher, so look at the others as well.
         if (sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout > current_ts) {
             RMC_LOG_INDEX_COMMENT(inode->data,
-                                  "%ld usec until timeout - returning",
+                                  "%ld usec until timeout - skipping",
                                   sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout - current_ts);
-            break;
+            continue;
         }
 
         RMC_LOG_INDEX_COMMENT(inode->data,
@@ -66,26 +72,30 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 
         // For each publisher that we have a timed out ack  for, we will ack
         // all pending packets in one go.
-        while(sub_pid_interval_list_pop_head(&pub->received_interval, &pid_intv)) {
-            int res = 0;
-            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
+        // An interval that cannot be sent now stays in the list to be
+        // sent later.
+        while((intv_node = sub_pid_interval_list_head(&pub->received_interval))) {
+            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &intv_node->data);
             if (res) {
                 RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(res));
-                return res;
+                if (!ret)
+                    ret = res;
+                break;
             }
+            sub_pid_interval_list_delete(intv_node);
         }
 
-        rmc_index_list_delete(inode);
-        inode = rmc_index_list_head(&ctx->pub_ack_list);
+        if (!res)
+            rmc_index_list_delete(inode);
     }
 
-    return 0;
+    return ret;
 }
 
 
 int rmc_sub_timeout_get_next(rmc_sub_context_t* ctx, usec_timestamp_t* result)
 {
-    sub_publisher_t* pub = 0;
+    rmc_index_node_t *inode = 0;
 
     if (!ctx || !result)
         return EINVAL;
@@ -97,8 +107,12 @@ int rmc_sub_timeout_get_next(rmc_sub_context_t* ctx, usec_timestamp_t* result)
         return 0;
     }
 
-    pub = &ctx->publishers[rmc_index_list_head(&ctx->pub_ack_list)->data];
+    *result = -1;
+    for(inode = rmc_index_list_head(&ctx->pub_ack_list); inode; inode = rmc_index_list_next(inode)) {
+        usec_timestamp_t ts = sub_oldest_unacknowledged_packet(&ctx->publishers[inode->data]) + ctx->ack_timeout;
 
-    *result = sub_oldest_unacknowledged_packet(pub) + ctx->ack_timeout;
+        if (*result == -1 || ts < *result)
+            *result = ts;
+    }
     return 0;
 }
-- 
2.43.0


From 9a066a5fa58cb5f425e0d4186d0e348d74d66baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 18/40] fix: closing a connection reset uninitialised or
 unrelated memory

A connection still being set up has no initialised publisher, and an index
which is not that of a connection is outside the publisher array. The closed
connection also stayed in the list of publishers to send acks to.
---
 rmc_sub_context.c |  3 +++
 rmc_sub_read.c    | 21 ++++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d18a6f8..a329b6c 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -49,6 +49,7 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     unsigned int seed = rmc_usec_monotonic_timestamp() & 0xFFFFFFFF;
     rmc_sub_context_t* ctx;
     uint8_t* conn_vec = 0;
+    uint32_t ind = 0;
 
     if (!context_res || !mcast_group_addr)
         return EINVAL;
@@ -122,6 +123,8 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
 
     // FIXME: Better memory management
     ctx->publishers = malloc(sizeof(sub_publisher_t) * max_publishers);
+    for(ind = 0; ind < max_publishers; ++ind)
+        sub_init_publisher(&ctx->publishers[ind]);
 
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index b4d0614..58aced6 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -356,9 +356,28 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
+    rmc_index_node_t* inode = 0;
+    int res = 0;
+
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
-    rmc_conn_close_connection(&ctx->conn_vec, s_ind);
+    if (!ctx)
+        return EINVAL;
+
+    // Fails if there is no such connection.
+    res = rmc_conn_close_connection(&ctx->conn_vec, s_ind);
+    if (res)
+        return res;
+
+    // Nobody to send acks to any longer.
+    inode = rmc_index_list_head(&ctx->pub_ack_list);
+    while(inode) {
+        rmc_index_node_t* next = rmc_index_list_next(inode);
+
+        if (inode->data == s_ind)
+            rmc_index_list_delete(inode);
+        inode = next;
+    }
 
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
-- 
2.43.0


From 95ed10ab61bf24b93b3530d95cbba7f536a260c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 19/40] fix: payloads not yet dispatched leaked when
 deactivating a subscriber

The packet was removed from the list before rmc_sub_packet_dispatched(),
which then did not find it and left its payload.
---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index a329b6c..5db3978 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -234,7 +234,7 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
         return EINVAL;
 
     // Empty all packets that are dispatch ready.
-    while(sub_packet_list_pop_head(&ctx->dispatch_ready, &pack))
+    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
         rmc_sub_packet_dispatched(ctx, pack);
 
     // Empty ack list
-- 
2.43.0


From e14523e708cea45e63df442f9d781ee4f9fb8822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 20/40] fix: every packet dispatched by a subscriber leaked its
 descriptor

---
 rmc_sub_packet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 1cace00..502c277 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -119,6 +119,7 @@ int rmc_sub_packet_dispatched(rmc_sub_context_t* ctx, sub_packet_t* pack)
     else
         free(pack->payload);
 
+    free(pack);
     return 0;
 }
 
-- 
2.43.0


From 2544db20fa9ef2c141f9309485673377dedd90c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 21/40] fix: reading from a publisher cancelled a pending write

The descriptor was armed for read only, so acks and control messages waiting
in the write buffer were left there until the next was queued.
---
 rmc_sub_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 58aced6..f58b66d 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -462,8 +462,8 @@ rearm:
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                      conn->descriptor,
                                      s_ind,
-                                     RMC_POLLREAD,
-                                     RMC_POLLREAD);
+                                     conn->action,
+                                     conn->action);
     }
     return res;
 }
-- 
2.43.0


From 5af88ea9e5044136e6cc2b896c2d27f84d046c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 22/40] fix: an ack of a huge interval stalled the publisher

The interval is read from the network; one ending with the highest possible
pid was never left, since the loop counter wraps.
---
 rmc_pub_read.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 2d0de77..e9b1aef 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -22,7 +22,7 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
 {
     cmd_ack_interval_t ack;
     rmc_pub_context_t* ctx = (rmc_pub_context_t*) user_data.ptr;
-    packet_id_t pid = 0;
+    pub_packet_node_t* node = 0;
     // Do we have enough data?
     if (circ_buf_in_use(&conn->read_buf) < sizeof(ack) + 1)
         return EAGAIN;
@@ -37,8 +37,19 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
     // Mark all packets in the interval as acknwoledged, and call the
     // payload free function provided to rmc_pub_init_context(). If no
     // function is provided, free() will bre called.
-    for (pid = ack.first_pid; pid <= ack.last_pid; ++pid)
-        rmc_pub_packet_ack(ctx, conn, pid) ;
+    // The interval comes from the network and may span any number of pids, so
+    // walk the packets in flight, oldest first, and not the interval.
+    node = pub_packet_list_tail(&ctx->subscribers[conn->connection_index].inflight);
+    while(node) {
+        packet_id_t pid = node->data->pid;
+
+        node = pub_packet_list_prev(node);
+        if (pid > ack.last_pid)
+            break;
+
+        if (pid >= ack.first_pid)
+            rmc_pub_packet_ack(ctx, conn, pid);
+    }
     return 0;
 }
 
-- 
2.43.0


From c7cae22e2960ff8fd58551801684d87c1c0e7c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 23/40] fix: a subscriber that failed to bind kept its
 descriptor

It could not be activated again, either. Also save errno from close() when
activation fails.
---
 rmc_pub_context.c | 4 +++-
 rmc_sub_context.c | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index e29c640..e668c22 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -158,6 +158,7 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     struct in_addr in_addr;
     socklen_t sock_len = sizeof(struct sockaddr_in);
     int on_flag = 1;
+    int res = 0;
 
     if (!ctx)
         return EINVAL;
@@ -248,6 +249,7 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     return 0;
 
 error:
+    res = errno; // Save it from close()
 
     if (ctx->mcast_send_descriptor != -1) {
         close(ctx->mcast_send_descriptor);
@@ -259,7 +261,7 @@ error:
         ctx->listen_descriptor = -1;
     }
 
-    return errno;
+    return res;
 }
 
 int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 5db3978..88320f8 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -138,6 +138,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     struct ip_mreq mreq;
     int on_flag = 1;
     int sz = 1024*1024;
+    int res = 0;
 
     if (!ctx)
         return EINVAL;
@@ -177,7 +178,7 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
              (struct sockaddr *) &sock_addr,
              sizeof(sock_addr)) < 0) {
         perror("rmc_listen(multicast_recv): bind()");
-        return errno;
+        goto error;
     }
 
     // Setup multicast group membership
@@ -213,13 +214,14 @@ int rmc_sub_activate_context(rmc_sub_context_t* ctx)
     return 0;
 
 error:
+    res = errno; // Save it from close()
     if (ctx->mcast_recv_descriptor != -1) {
         close(ctx->mcast_recv_descriptor);
         ctx->mcast_recv_descriptor = -1;
     }
 
 
-    return errno;
+    return res;
 }
 
 
-- 
2.43.0


From 85e0a93f18444018955db5e0ec3a4ec8720f1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 24/40] fix: the pending send queries did not refuse a null
 context

---
 rmc_pub_read.c  | 2 +-
 rmc_pub_write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index e9b1aef..62b51e1 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -249,7 +249,7 @@ int rmc_pub_context_has_pending_send(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     payload_len_t len = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);
     if (!conn)
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 0ff06ea..0f5ea8e 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -327,7 +327,7 @@ int rmc_pub_context_get_pending(rmc_pub_context_t* ctx,
     uint32_t queue_size = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     if (ack_count)
         *ack_count = 0;
-- 
2.43.0


From e409971d3cda936811888f7ca746fa230cd34708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 25/40] fix: deactivating a context twice reported descriptor
 -1 to poll_remove

Deleting a deactivated context, or one never activated, did the same. The
subscriber also closed its descriptor before removing it from the poll set.
---
 rmc_pub_context.c | 23 ++++++++++++++---------
 rmc_sub_context.c | 14 ++++++++------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index e668c22..ebebb17 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -275,13 +275,15 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
     // Callback to remnove listen and multicast descriptor
     // from caller's poll vector.
     if (ctx->conn_vec.poll_remove) {
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->mcast_send_descriptor,
-                                     RMC_MULTICAST_INDEX);
-
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->listen_descriptor,
-                                     RMC_LISTEN_INDEX);
+        if (ctx->mcast_send_descriptor != -1)
+            (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                         ctx->mcast_send_descriptor,
+                                         RMC_MULTICAST_INDEX);
+
+        if (ctx->listen_descriptor != -1)
+            (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                         ctx->listen_descriptor,
+                                         RMC_LISTEN_INDEX);
     }
 
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
@@ -298,8 +300,11 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
         }
     }
 
-    close(ctx->mcast_send_descriptor);
-    close(ctx->listen_descriptor);
+    if (ctx->mcast_send_descriptor != -1)
+        close(ctx->mcast_send_descriptor);
+
+    if (ctx->listen_descriptor != -1)
+        close(ctx->listen_descriptor);
 
     ctx->mcast_send_descriptor = -1;
     ctx->listen_descriptor = -1;
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 88320f8..2e77d7b 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -242,13 +242,15 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
     // Empty ack list
     rmc_index_list_empty(&ctx->pub_ack_list);
 
-    close(ctx->mcast_recv_descriptor);
-    if (ctx->conn_vec.poll_remove)
-        (*ctx->conn_vec.poll_remove)(ctx->user_data,
-                                     ctx->mcast_recv_descriptor,
-                                     RMC_MULTICAST_INDEX);
+    if (ctx->mcast_recv_descriptor != -1) {
+        if (ctx->conn_vec.poll_remove)
+            (*ctx->conn_vec.poll_remove)(ctx->user_data,
+                                         ctx->mcast_recv_descriptor,
+                                         RMC_MULTICAST_INDEX);
 
-    ctx->mcast_recv_descriptor = -1;
+        close(ctx->mcast_recv_descriptor);
+        ctx->mcast_recv_descriptor = -1;
+    }
 
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
     for(ind = 0; ind <= max; ++ind) {
-- 
2.43.0


From fe4c69fa162f97f54f2a49e8619f55247e0d50f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 26/40] fix: deleting a context leaked its queued packets and
 arrays

---
 rmc_pub_context.c | 16 ++++++++++++++++
 rmc_sub_context.c |  1 +
 2 files changed, 17 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index ebebb17..57c6efc 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -312,13 +312,29 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
     return 0;
 }
 
+static void _payload_free_generic(void* payload, payload_len_t payload_len, user_data_t user_data)
+{
+    free(payload);
+}
+
 int rmc_pub_delete_context(rmc_pub_context_t* ctx)
 {
+    pub_packet_t* pack = 0;
 
     if (!ctx)
         return EINVAL;
     rmc_pub_deactivate_context(ctx);
 
+    // Release packets that were never sent.
+    while((pack = pub_next_queued_packet(&ctx->pub_ctx))) {
+        // Announcements made by rmc_pub_queue_announce() have their own payload.
+        if (!ctx->payload_free || (!pack->pid && pack->pkg_user_data.u32))
+            pub_packet_discard(&ctx->pub_ctx, pack, _payload_free_generic);
+        else
+            pub_packet_discard(&ctx->pub_ctx, pack, ctx->payload_free);
+    }
+
+    free(ctx->subscribers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 2e77d7b..58c8cab 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -273,6 +273,7 @@ int rmc_sub_delete_context(rmc_sub_context_t* ctx)
         return EINVAL;
     rmc_sub_deactivate_context(ctx);
 
+    free(ctx->publishers);
     free(ctx->conn_vec.connections);
     free(ctx);
     return 0;
-- 
2.43.0


From 7d52e0842771bd9c836d7cc51e0770d458495d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 27/40] fix: rmc_pub_write, rmc_sub_write and
 rmc_pub_set_multicast_ttl return EINVAL without a context

---
 rmc_pub_context.c | 3 +++
 rmc_pub_write.c   | 4 +++-
 rmc_sub_write.c   | 3 ++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 57c6efc..3b5a2d7 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -363,6 +363,9 @@ int rmc_pub_set_announce_interval(rmc_pub_context_t* ctx, uint32_t send_interval
 // Can be called once the context is activated.
 int rmc_pub_set_multicast_ttl(rmc_pub_context_t* ctx, int hops)
 {
+    if (!ctx)
+        return EINVAL;
+
     if (ctx->mcast_send_descriptor == -1)
         return ENOTCONN;
 
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 0f5ea8e..244b01d 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -248,7 +248,9 @@ int rmc_pub_write(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
     uint32_t bytes_left_after = 0;
     rmc_poll_action_t old_action = 0;
     rmc_connection_t* conn = 0;
-    assert(ctx);
+
+    if (!ctx)
+        return EINVAL;
 
     if (s_ind == RMC_MULTICAST_INDEX) {
         if (op_res)
diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index dfc1713..cacde67 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -280,7 +280,8 @@ int rmc_sub_write(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
     rmc_poll_action_t old_action;
     rmc_connection_t* conn = 0;
 
-    assert(ctx);
+    if (!ctx)
+        return EINVAL;
 
     conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);
     // Is s_ind within our connection vector?
-- 
2.43.0


From 7bb1ac103154cf0643a2040c73a137a74b808575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 28/40] fix: activating an active publisher leaked its
 descriptors

---
 rmc_pub_context.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 3b5a2d7..971e336 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -163,6 +163,9 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
     if (!ctx)
         return EINVAL;
 
+    if (ctx->mcast_send_descriptor != -1)
+        return EEXIST;
+
     //
     // Setup udp send descriptor to be received by multicast members.
     //
-- 
2.43.0


From 7474f0ffc0c0cb2b83fd5d9ebdf307b0cf1f49da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:14 +0000
Subject: [PATCH 29/40] fix: packets queued before activation were reported for
 descriptor -1 and never polled for

---
 rmc_pub_context.c | 3 ++-
 rmc_pub_packet.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 971e336..e30e8dc 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -241,7 +241,8 @@ int rmc_pub_activate_context(rmc_pub_context_t* ctx)
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->mcast_send_descriptor,
                                   RMC_MULTICAST_INDEX,
-                                  RMC_POLLREAD);
+                                  RMC_POLLREAD |
+                                  (pub_next_queued_packet(&ctx->pub_ctx)?RMC_POLLWRITE:0));
 
         (*ctx->conn_vec.poll_add)(ctx->user_data,
                                   ctx->listen_descriptor,
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 00dc9ae..74ea5d2 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -47,7 +47,8 @@ static int queue_packet(rmc_pub_context_t* ctx,
     else
         pub_queue_packet(&ctx->pub_ctx, payload, payload_len, pkg_user_data);
 
-    if (ctx->conn_vec.poll_modify)  {
+    // If we are not active, rmc_pub_activate_context() will find the packet.
+    if (ctx->conn_vec.poll_modify && ctx->mcast_send_descriptor != -1)  {
         // Did we already have a packet pending for send prior
         // to queueing the lastest packet? If so, old action
         // was POLLWRITE, if not, it was 0.
-- 
2.43.0


From 1c382114bb2cfd3ae9cc145eae41cf6c712e85b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:26 +0000
Subject: [PATCH 30/40] fix: payloads of a closed connection were released with
 a connection index as user data

---
 rmc_sub_read.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index f58b66d..0314f49 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -357,6 +357,7 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     rmc_index_node_t* inode = 0;
+    sub_packet_node_t* pnode = 0;
     int res = 0;
 
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
@@ -379,6 +380,13 @@ int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
         inode = next;
     }
 
+    // The payloads about to be released get the user data of the context,
+    // like all others.
+    for (pnode = sub_packet_list_head(&ctx->publishers[s_ind].received_pid);
+         pnode;
+         pnode = sub_packet_list_next(pnode))
+        pnode->data->pkg_user_data = ctx->user_data;
+
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
     return 0;
-- 
2.43.0


From 2da5b900af9e8adb61d8f49b48c1efa781880f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 31/40] fix: payloads were released without the user data of
 the publisher context

---
 rmc_internal.h    |  3 +++
 rmc_pub_context.c |  2 +-
 rmc_pub_packet.c  | 11 ++++++++---
 rmc_pub_write.c   |  2 +-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index 97defe0..bc10091 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -384,6 +384,9 @@ extern int rmc_pub_packet_ack(struct rmc_pub_context* ctx, struct rmc_connection
 
 extern void rmc_pub_check_traffic_resume(struct rmc_pub_context* ctx);
 
+// User data of packets queued by rmc_pub_queue_announce()
+extern char rmc_pub_announce_mark;
+
 extern int rmc_pub_queue_announce(struct rmc_pub_context* ctx,
                                   void* payload,
                                   payload_len_t payload_len);
diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index e30e8dc..f629956 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -332,7 +332,7 @@ int rmc_pub_delete_context(rmc_pub_context_t* ctx)
     // Release packets that were never sent.
     while((pack = pub_next_queued_packet(&ctx->pub_ctx))) {
         // Announcements made by rmc_pub_queue_announce() have their own payload.
-        if (!ctx->payload_free || (!pack->pid && pack->pkg_user_data.u32))
+        if (!ctx->payload_free || (!pack->pid && pack->pkg_user_data.ptr == &rmc_pub_announce_mark))
             pub_packet_discard(&ctx->pub_ctx, pack, _payload_free_generic);
         else
             pub_packet_discard(&ctx->pub_ctx, pack, ctx->payload_free);
diff --git a/rmc_pub_packet.c b/rmc_pub_packet.c
index 74ea5d2..e5a8a03 100644
--- a/rmc_pub_packet.c
+++ b/rmc_pub_packet.c
@@ -76,10 +76,15 @@ int rmc_pub_queue_packet(rmc_pub_context_t* ctx,
                          payload_len_t payload_len,
                          uint8_t announce_flag)
 {
-    return queue_packet(ctx, payload, payload_len, announce_flag, user_data_nil());
+    if (!ctx)
+        return EINVAL;
+
+    return queue_packet(ctx, payload, payload_len, announce_flag, ctx->user_data);
 }
 
 
+char rmc_pub_announce_mark;
+
 // Queue an announce packet with a copy of the given payload.
 int rmc_pub_queue_announce(rmc_pub_context_t* ctx,
                            void* payload,
@@ -94,8 +99,8 @@ int rmc_pub_queue_announce(rmc_pub_context_t* ctx,
     }
     memcpy(copy, payload, payload_len);
 
-    // Non-nil user data tells send_single_multicast_packet() that the copy is ours to free.
-    res = queue_packet(ctx, copy, payload_len, 1, user_data_u32(1));
+    // The user data tells send_single_multicast_packet() that the copy is ours to free.
+    res = queue_packet(ctx, copy, payload_len, 1, user_data_ptr(&rmc_pub_announce_mark));
     if (res)
         free(copy);
 
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index 244b01d..c96428a 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -112,7 +112,7 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
     // Is the packet an announcement made by rmc_pub_queue_announce()?
-    if (!pack->pid && pack->pkg_user_data.u32)
+    if (!pack->pid && pack->pkg_user_data.ptr == &rmc_pub_announce_mark)
         pub_packet_discard(pctx, pack, _payload_free_generic);
     // Nobody to wait for?
     else if (!pack->ref_count)
-- 
2.43.0


From f945d71fd93c1817c1fde93de5896130218924c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:51 +0000
Subject: [PATCH 32/40] fix: do not go on with a socket that cannot be made
 nonblocking

rmc_conn_connect_tcp_by_address() and rmc_conn_process_accept() ignored
fcntl() failures and went on with a blocking socket, on which a later
writev() or connect() may stop the whole application. Close the socket and
report the error instead, like all other failures on the way.
---
 rmc_connection.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index dc1bca3..bc34a46 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -278,7 +278,14 @@ int rmc_conn_connect_tcp_by_address(rmc_connection_vector_t* conn_vec,
 
     // Set nonblocking mode on the socket.
     desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
-    fcntl(conn_vec->connections[c_ind].descriptor, F_SETFL, desc_flags | O_NONBLOCK);
+    if (desc_flags == -1 ||
+        fcntl(conn_vec->connections[c_ind].descriptor, F_SETFL, desc_flags | O_NONBLOCK) == -1) {
+        res = errno;
+        close(conn_vec->connections[c_ind].descriptor);
+        conn_vec->connections[c_ind].descriptor = -1;
+        _reset_max_connection_ind(conn_vec);
+        return res;
+    }
 
     RMC_LOG_INDEX_COMMENT(c_ind, "Connecting to control tcp addr[%s:%d]", inet_ntoa(sock_addr.sin_addr), ntohs(sock_addr.sin_port));
 
@@ -356,7 +363,14 @@ int rmc_conn_process_accept(int listen_descriptor,
 
     // Set nonblocking mode on the socket.
     desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
-    fcntl(conn_vec->connections[c_ind].descriptor, F_SETFL, desc_flags | O_NONBLOCK);
+    if (desc_flags == -1 ||
+        fcntl(conn_vec->connections[c_ind].descriptor, F_SETFL, desc_flags | O_NONBLOCK) == -1) {
+        sock_err = errno;
+        close(conn_vec->connections[c_ind].descriptor);
+        conn_vec->connections[c_ind].descriptor = -1;
+        _reset_max_connection_ind(conn_vec);
+        return sock_err;
+    }
 
     RMC_LOG_INDEX_COMMENT(c_ind, "%s:%d assigned to index %d",
                           inet_ntoa(src_addr.sin_addr), ntohs(src_addr.sin_port), c_ind);
-- 
2.43.0


From 273b936283d81db353f0855f7e3226c8c70c7ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:18 +0000
Subject: [PATCH 33/40] fix: let a changed user data reach the poll callbacks
 of connections

rmc_pub_set_user_data() and rmc_sub_set_user_data() changed what all other
callbacks get, while the poll callbacks made for connections went on
getting the user data given at initialization.
---
 rmc_pub_context.c | 1 +
 rmc_sub_context.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index f629956..abbce8b 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -466,6 +466,7 @@ int rmc_pub_set_user_data(rmc_pub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data; // For the poll callbacks of connections.
     return 0;
 }
 
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 58c8cab..88e81b3 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -322,6 +322,7 @@ int rmc_sub_set_user_data(rmc_sub_context_t* ctx, user_data_t user_data)
         return EINVAL;
 
     ctx->user_data = user_data;
+    ctx->conn_vec.user_data = user_data; // For the poll callbacks of connections.
     return 0;
 }
 
-- 
2.43.0


From 408a686ebcb16ae4728edf33e75fde8c9a80fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:51 +0000
Subject: [PATCH 34/40] fix: keep errno across logging

rmc_log() let isatty() and the stdio calls overwrite errno. Callers log a failure and then return errno, so with logging enabled the application was told another error, or success.
---
 rmc_log.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rmc_log.c b/rmc_log.c
index 2db7c70..b8b2d09 100644
--- a/rmc_log.c
+++ b/rmc_log.c
@@ -13,6 +13,7 @@
 #include "string.h"
 #include <unistd.h>
 #include <stdlib.h>
+#include <errno.h>
 
 static usec_timestamp_t start_time = 0;
 
@@ -193,6 +194,7 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     const char* tag = 0;
     char index_str[32];
     va_list ap;
+    int saved_errno = errno; // Callers log failures before they return errno
 
     // Default rmc_log_file, if not set.
     if (!_rmc_log_file)
@@ -278,5 +280,6 @@ void rmc_log(int log_level, const char* func, const char* file, int line, uint16
     vfprintf(_rmc_log_file, fmt, ap);
     va_end(ap);
     fputc('\n', _rmc_log_file);
+    errno = saved_errno;
 }
 // 8592
-- 
2.43.0


From 98d3910e90511c51f4592edbfc4e9cc6251a5446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:28 +0000
Subject: [PATCH 35/40] fix: do not end a connection when a read finds nothing
 to read

---
 rmc_protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rmc_protocol.c b/rmc_protocol.c
index c75fec7..ca48b11 100644
--- a/rmc_protocol.c
+++ b/rmc_protocol.c
@@ -222,6 +222,12 @@ int rmc_conn_tcp_read(rmc_connection_vector_t* conn_vec,
                         res,
                         (res == -1)?strerror(errno):"");
 
+    // Nothing to read after all. The connection is fine.
+    if (res == -1 && (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
+        circ_buf_trim(&conn->read_buf, orig_in_use);
+        return EAGAIN;
+    }
+
     if (res == -1 || res == 0) {
         *op_res = RMC_READ_DISCONNECT;
 
-- 
2.43.0


From a22300cefe1c253f69abcee7231d15aa2ab1792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:30 +0000
Subject: [PATCH 36/40] fix: let control message and disconnect callbacks close
 connections

---
 rmc_pub_read.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 62b51e1..29e4248 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -81,11 +81,15 @@ static int process_control_message(rmc_connection_t* conn, user_data_t user_data
         // Read payload.
         circ_buf_read_offset(&conn->read_buf, 1 + sizeof(msg), (uint8_t*) payload, msg.payload_len, 0);
 
+        // Free it all before the callback, which may close the connection.
+        circ_buf_free(&conn->read_buf, sizeof(msg) + 1 + msg.payload_len, 0);
+
         (*ctx->subscriber_control_message_cb)(ctx,
                                    conn->remote_address,
                                    conn->remote_port,
                                    conn->node_id,
                                    payload, msg.payload_len);
+        return 0;
     }
 
     // Free it all
@@ -101,6 +105,8 @@ static void _generic_payload_free(void* payload, payload_len_t payload_len, user
 int rmc_pub_close_connection(rmc_pub_context_t* ctx, rmc_index_t s_ind)
 {
     rmc_connection_t* conn = 0;
+    uint32_t remote_address = 0;
+    in_port_t remote_port = 0;
 
     if (!ctx)
         return EINVAL;
@@ -113,12 +119,8 @@ int rmc_pub_close_connection(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     if (conn->mode == RMC_CONNECTION_MODE_CLOSED)
         return ENOTCONN;
 
-    // Disconnect callback, if specified through
-    // rmc_pub_set_subscriber_connect_callback().
-    if (ctx->subscriber_disconnect_cb) {
-        (*ctx->subscriber_disconnect_cb)(ctx, conn->remote_address, conn->remote_port);
-    }
-
+    remote_address = conn->remote_address;
+    remote_port = conn->remote_port;
     rmc_conn_close_connection(&ctx->conn_vec, s_ind);
 
     RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
@@ -127,6 +129,13 @@ int rmc_pub_close_connection(rmc_pub_context_t* ctx, rmc_index_t s_ind)
 
     // The packets this subscriber had in flight may have been what suspended traffic.
     rmc_pub_check_traffic_resume(ctx);
+
+    // Disconnect callback, if specified through
+    // rmc_pub_set_subscriber_connect_callback().
+    // The connection is gone by now, so the callback can use the context freely.
+    if (ctx->subscriber_disconnect_cb) {
+        (*ctx->subscriber_disconnect_cb)(ctx, remote_address, remote_port);
+    }
     return 0;
 }
 
@@ -227,6 +236,10 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return 0; // This is not an error, just regular maintenance.
     }
 
+    // A control message callback may have closed the connection.
+    if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
+        return res;
+
     // Read poll is always active. Callback to re-arm.
     old_action = conn->action;
     rmc_conn_get_pending_send_length(conn, &write_buf_sz);
-- 
2.43.0


From 6b679061bba8113537041551b767531c9af1391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:32 +0000
Subject: [PATCH 37/40] fix: let disconnect callbacks use a context being
 deactivated

---
 rmc_pub_context.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index abbce8b..c85ad1f 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -290,6 +290,17 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
                                          RMC_LISTEN_INDEX);
     }
 
+    // Done before the connections are closed, since that makes callbacks
+    // which may use the context.
+    if (ctx->mcast_send_descriptor != -1)
+        close(ctx->mcast_send_descriptor);
+
+    if (ctx->listen_descriptor != -1)
+        close(ctx->listen_descriptor);
+
+    ctx->mcast_send_descriptor = -1;
+    ctx->listen_descriptor = -1;
+
     rmc_conn_get_max_index_in_use(&ctx->conn_vec, &max);
 
     if (max != RMC_NIL_INDEX) {
@@ -304,15 +315,6 @@ int rmc_pub_deactivate_context(rmc_pub_context_t* ctx)
         }
     }
 
-    if (ctx->mcast_send_descriptor != -1)
-        close(ctx->mcast_send_descriptor);
-
-    if (ctx->listen_descriptor != -1)
-        close(ctx->listen_descriptor);
-
-    ctx->mcast_send_descriptor = -1;
-    ctx->listen_descriptor = -1;
-
     return 0;
 }
 
-- 
2.43.0


From 5659e38a5d88d187ab92ab45cbb67a3f9cbe5989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:33 +0000
Subject: [PATCH 38/40] fix: let subscriber callbacks close connections and
 deactivate

---
 rmc_sub_read.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 0314f49..5b616ae 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -47,7 +47,8 @@ static int decode_unsubscribed_multicast(rmc_sub_context_t* ctx,
                                   payload, pack_hdr->payload_len);
     }
 
-    if (res)
+    // The callback may have deactivated the context.
+    if (res && ctx->mcast_recv_descriptor != -1)
         rmc_conn_connect_tcp_by_address(&ctx->conn_vec,
                                         pack_hdr->listen_ip, pack_hdr->listen_port,
                                         pack_hdr->node_id, &sock_ind);
@@ -235,6 +236,10 @@ static int multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res)
         }
 
         res = process_multicast_read(ctx, read_res, ntohl(src_addr.sin_addr.s_addr), buffer, len);
+
+        // A callback may have deactivated the context.
+        if (ctx->mcast_recv_descriptor == -1)
+            return res?res:EAGAIN;
     }
 
 rearm:
@@ -464,6 +469,9 @@ int rmc_sub_read(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
     *op_res = RMC_READ_TCP;
 
 rearm:
+    // A packet ready callback may have closed the connection.
+    if (conn->mode != RMC_CONNECTION_MODE_CONNECTED)
+        return res;
 
     // Read poll is always active. Callback to re-arm.
     if (ctx->conn_vec.poll_modify) {
-- 
2.43.0


From d064d00392f32c7d92363f810839ff309d687cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:17 +0000
Subject: [PATCH 39/40] fix: a refused context is freed and not handed out

rmc_pub_init_context() and rmc_sub_init_context() kept the memory of the
context and its connections, and left the half-initialised context with
the caller, when an address could not be parsed.
---
 rmc_pub_context.c | 12 +++++++++---
 rmc_sub_context.c | 10 ++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index c85ad1f..028ed8d 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -92,21 +92,21 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve multicast address %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto refused;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(control_listen_if_addr, &addr)) {
         RMC_LOG_WARNING("Could not resolve tcp listen address %s to IP address\n",
                 control_listen_if_addr);
-        return EINVAL;
+        goto refused;
     }
     ctx->control_listen_if_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto refused;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -149,6 +149,12 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
     RMC_LOG_DEBUG("Publisher Context init. node_id[0x%X] mcast_group[%s:%d] mcast_if[%s] user_data[0x%X]",
                   ctx->node_id, mcast_group_addr, multicast_port,  mcast_if_addr, user_data.u32);
     return 0;
+
+refused:
+    free(conn_vec);
+    free(ctx);
+    *context_res = 0;
+    return EINVAL;
 }
 
 
diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index 88e81b3..a38c77a 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -93,14 +93,14 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     if (!inet_aton(mcast_group_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_group_addr): Could not resolve %s to IP address\n",
                 mcast_group_addr);
-        return EINVAL;
+        goto refused;
     }
     ctx->mcast_group_addr = ntohl(addr.s_addr);
 
     if (!inet_aton(mcast_if_addr, &addr)) {
         fprintf(stderr, "rmc_activate_context(multicast_interface_addr): Could not resolve %s to IP address\n",
                 mcast_if_addr);
-        return EINVAL;
+        goto refused;
     }
     ctx->mcast_if_addr = ntohl(addr.s_addr);
 
@@ -129,6 +129,12 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
     return 0;
+
+refused:
+    free(conn_vec);
+    free(ctx);
+    *context_res = 0;
+    return EINVAL;
 }
 
 
-- 
2.43.0


From 0ddb7558006d4505a080daae08bec8482e02a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:09 +0000
Subject: [PATCH 40/40] fix: resends are not put off by an announcement

rmc_pub_timeout_process() returned after sending an announcement, without
looking at packets that had timed out. Called no more often than the
announce interval, it never resent anything.
---
 rmc_pub_timeout.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index 0c48d6b..da22f04 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -154,8 +154,6 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
             ctx->announce_next_send_ts = current_ts + ctx->announce_send_interval;
         else
             ctx->announce_next_send_ts = 0; // Disable announce sends.
-
-        return 0;
     }
 
     // Grab a list of subscribers that have timed out packets we need to subscribe
-- 
2.43.0

