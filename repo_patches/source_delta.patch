From 9d74721244e1d6ef799e6d432394f78ef978aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 01/20] fix: writer: accept a match with any configured content
 type, not only the first

---
 fstrm/writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index a623ba1..fb42cf6 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -190,6 +190,7 @@ fstrm__writer_open_bidirectional(struct fstrm_writer *w)
 		res = fstrm_control_match_field_content_type(w->control_accept,
 			ctype.data, ctype.len);
 		if (res == fstrm_res_success) {
+			match = true;
 			match_ctype = ctype.data;
 			len_match_ctype = ctype.len;
 			break;
-- 
2.43.0


From aa414c199f19ced6b6ac0a17f23de494d0412a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 02/20] fix: reader: report failure for a data frame above the
 maximum frame size

---
 fstrm/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 240ac0a..ae18d27 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -309,8 +309,10 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 			/* This is a data frame. */
 
 			/* Enforce maximum frame size. */
-			if (unlikely(len > r->max_frame_size))
+			if (unlikely(len > r->max_frame_size)) {
+				res = fstrm_res_failure;
 				goto fail;
+			}
 
 			/* Read the data frame. */
 			ubuf_clip(r->buf, 0);
-- 
2.43.0


From 115d738c49e885201dd27addf8304c9483e9ea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 03/20] fix: tcp_writer: resume a short send at the first
 unsent byte

---
 fstrm/tcp_writer.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/fstrm/tcp_writer.c b/fstrm/tcp_writer.c
index 4a9bc86..90fd9de 100644
--- a/fstrm/tcp_writer.c
+++ b/fstrm/tcp_writer.c
@@ -191,15 +191,20 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		if (cur == 0 && written == (ssize_t) nbytes)
 			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		/* Skip the iovecs that have been completely sent. */
+		while (cur < iovcnt && written >= (ssize_t) msg.msg_iov->iov_len) {
+			written -= msg.msg_iov->iov_len;
+			msg.msg_iov++;
+			msg.msg_iovlen--;
+			cur++;
+		}
 
 		if (cur == iovcnt)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		msg.msg_iov->iov_base = (void *)
+			((char *) msg.msg_iov->iov_base + written);
+		msg.msg_iov->iov_len -= written;
 	}
 }
 
-- 
2.43.0


From 6c2c1f3937f90418170c2e47fc883aaf4ff9a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 04/20] fix: unix_writer: resume a short send at the first
 unsent byte

---
 fstrm/unix_writer.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/fstrm/unix_writer.c b/fstrm/unix_writer.c
index 72c9167..6deaa7d 100644
--- a/fstrm/unix_writer.c
+++ b/fstrm/unix_writer.c
@@ -177,15 +177,20 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		if (cur == 0 && written == (ssize_t) nbytes)
 			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		/* Skip the iovecs that have been completely sent. */
+		while (cur < iovcnt && written >= (ssize_t) msg.msg_iov->iov_len) {
+			written -= msg.msg_iov->iov_len;
+			msg.msg_iov++;
+			msg.msg_iovlen--;
+			cur++;
+		}
 
 		if (cur == iovcnt)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		msg.msg_iov->iov_base = (void *)
+			((char *) msg.msg_iov->iov_base + written);
+		msg.msg_iov->iov_len -= written;
 	}
 }
 
-- 
2.43.0


From 2ecd35908c9f580777c280c4e93ce913af7b017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 05/20] fix: iothr: require the input queue size to be a power
 of two, as documented

---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 9cf2bf1..96a5fff 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -162,7 +162,7 @@ fstrm_iothr_options_set_input_queue_size(struct fstrm_iothr_options *opt,
 {
 	if (input_queue_size < FSTRM_IOTHR_INPUT_QUEUE_SIZE_MIN ||
 	    input_queue_size > FSTRM_IOTHR_INPUT_QUEUE_SIZE_MAX ||
-	    input_queue_size & 1)
+	    (input_queue_size & (input_queue_size - 1)) != 0)
 	{
 		return fstrm_res_failure;
 	}
-- 
2.43.0


From 4f78c55a1f5995181e91299efbf27d322646eb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 06/20] fix: iothr: do not run the full destructor on a
 half-initialised object

---
 fstrm/iothr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 96a5fff..28c66b0 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -331,7 +331,13 @@ fstrm_iothr_init(const struct fstrm_iothr_options *opt,
 
 	return iothr;
 fail:
-	fstrm_iothr_destroy(&iothr);
+	/* The I/O thread, its locks and the writer have not been set up yet. */
+	if (iothr->queues != NULL) {
+		for (size_t i = 0; i < iothr->opt.num_input_queues; i++)
+			iothr->queue_ops->destroy(&iothr->queues[i].q);
+		my_free(iothr->queues);
+	}
+	my_free(iothr);
 	return NULL;
 }
 
-- 
2.43.0


From d475fc9c09ebdb4e0a02ef15a47aaae0e6452f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 07/20] fix: rdwr: close a transport that is still open when it
 is destroyed

---
 fstrm/rdwr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fstrm/rdwr.c b/fstrm/rdwr.c
index dc181ba..7154cba 100644
--- a/fstrm/rdwr.c
+++ b/fstrm/rdwr.c
@@ -38,6 +38,9 @@ fstrm_rdwr_destroy(struct fstrm_rdwr **rdwr)
 {
 	fstrm_res res = fstrm_res_success;
 	if (*rdwr != NULL) {
+		/* Do not leak the underlying transport if it is still open. */
+		if ((*rdwr)->opened)
+			(void)fstrm_rdwr_close(*rdwr);
 		if ((*rdwr)->ops.destroy != NULL)
 			res = (*rdwr)->ops.destroy((*rdwr)->obj);
 		my_free(*rdwr);
-- 
2.43.0


From 4cffde27b7148e98c2d40cd731e15d17b6e749a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 08/20] fix: writer: close the transport when the handshake
 fails

---
 fstrm/writer.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index fb42cf6..542dd20 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -276,13 +276,17 @@ fstrm_writer_open(struct fstrm_writer *w)
 	if (w->rdwr->ops.read != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__writer_open_bidirectional(w);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(w->rdwr);
 			return res;
+		}
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__writer_open_unidirectional(w);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(w->rdwr);
 			return res;
+		}
 	}
 
 	w->state = fstrm_writer_state_opened;
-- 
2.43.0


From 917c19f05dc9cffbd184a77950ea7b97f87d6184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 09/20] fix: reader: close the transport when the handshake
 fails

---
 fstrm/reader.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index ae18d27..84cd8dc 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -265,13 +265,17 @@ fstrm_reader_open(struct fstrm_reader *r)
 	if (r->rdwr->ops.write != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__reader_open_bidirectional(r);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(r->rdwr);
 			return res;
+		}
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__reader_open_unidirectional(r);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(r->rdwr);
 			return res;
+		}
 	}
 
 	r->state = fstrm_reader_state_opened;
-- 
2.43.0


From 92bb5daaf48d31dfb82488c3838686d6f4b1d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 10/20] fix: writer: refuse payloads that cannot be represented
 as a data frame

---
 fstrm/writer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index 542dd20..b723e1c 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -401,6 +401,16 @@ fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
 	if (unlikely(iovcnt < 1))
 		return fstrm_res_success;
 
+	/*
+	 * An empty data frame would be taken for the escape sequence that
+	 * introduces a control frame, and the length of a data frame must fit
+	 * in 32 bits.
+	 */
+	for (int i = 0; i < iovcnt; i++) {
+		if (unlikely(iov[i].iov_len < 1 || iov[i].iov_len > UINT32_MAX))
+			return fstrm_res_failure;
+	}
+
 	res = fstrm__writer_maybe_open(w);
 	if (res != fstrm_res_success)
 		return res;
-- 
2.43.0


From 6d379caffa7e46996773695b2e1e6d4d26792d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 11/20] fix: writer: avoid overflowing the batch size check

---
 fstrm/writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index b723e1c..525e2e7 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -416,7 +416,7 @@ fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
 		return res;
 
 	if (likely(w->state == fstrm_writer_state_opened)) {
-		if (likely((2 * iovcnt) <= FSTRM__WRITER_IOVEC_SIZE))
+		if (likely(iovcnt <= FSTRM__WRITER_IOVEC_SIZE / 2))
 			return fstrm__writer_write_iov(w, iov, iovcnt);
 		else
 			return fstrm__writer_write_iov_stupid(w, iov, iovcnt);
-- 
2.43.0


From 75d7ee731050d692cd13441adb79eda59131b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:09 +0000
Subject: [PATCH 12/20] fix: control: refuse content types that are too long,
 as documented

---
 fstrm/control.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fstrm/control.c b/fstrm/control.c
index 297e7f3..6f754af 100644
--- a/fstrm/control.c
+++ b/fstrm/control.c
@@ -167,6 +167,11 @@ fstrm_control_add_field_content_type(struct fstrm_control *c,
 				     size_t len_content_type)
 {
 	fs_buf ctype;
+
+	/* Enforce limit on "Content Type" payload length. */
+	if (len_content_type > FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX)
+		return fstrm_res_failure;
+
 	ctype.len = len_content_type;
 	ctype.data = my_malloc(ctype.len);
 	memcpy(ctype.data, content_type, ctype.len);
-- 
2.43.0


From c6bfaecae5279d73267e78ac296e2d8657f698e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 13/20] fix: fstrm_capture: do not let the total length of a
 frame wrap around

---
 src/fstrm_capture.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 1d8c0a8..fe1fa5d 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -950,6 +950,12 @@ can_read_full_frame(struct conn *conn)
 	evbuffer_copyout(conn->ev_input, &tmp[0], sizeof(uint32_t));
 	conn->len_frame_payload = ntohl(tmp[0]);
 
+	/* The total length of the frame must be representable. */
+	if (conn->len_frame_payload > UINT32_MAX - sizeof(uint32_t)) {
+		cb_close_conn(conn->bev, 0, conn);
+		return false;
+	}
+
 	/* Account for the frame length field. */
 	conn->len_frame_total += sizeof(uint32_t);
 
-- 
2.43.0


From 1b3765bf9fadb70f3fc37fd52b44cd887455bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 14/20] fix: fstrm_capture: refuse data frames outside of a
 negotiated stream

---
 src/fstrm_capture.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index fe1fa5d..3d4ccd3 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -1063,6 +1063,11 @@ cb_read(struct bufferevent *bev, void *arg)
 		/* Process the frame. */
 		if (conn->len_frame_payload > 0) {
 			/* This is a data frame. */
+			if (conn->state != CONN_STATE_READING_DATA) {
+				/* Not between START and STOP, shut down the connection. */
+				cb_close_conn(conn->bev, 0, conn);
+				return;
+			}
 			process_data_frame(conn);
 
 			/* Check if it's time to rotate the output file. */
-- 
2.43.0


From b908d2eb1b16a8b30c296d27b2ab832511976b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 15/20] fix: fstrm_capture: report a failure to close the
 output file

---
 src/fstrm_capture.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 3d4ccd3..4a7bbf2 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -608,9 +608,11 @@ close_write_file(struct capture *ctx)
 		if (!close_write_stop(ctx))
 			return false;
 
-		/* Close the FILE object. */
-		fclose(ctx->output_file);
+		/* Close the FILE object. This may flush buffered data. */
+		int ret = fclose(ctx->output_file);
 		ctx->output_file = NULL;
+		if (ret != 0)
+			return false;
 	}
 
 	/* Success. */
-- 
2.43.0


From 0616088968fdbc6c4349e594a44436f03fe66e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 16/20] fix: fstrm_replay: exit unsuccessfully if the
 connection cannot be closed cleanly

---
 src/fstrm_replay.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstrm_replay.c b/src/fstrm_replay.c
index 0b717cd..996085c 100644
--- a/src/fstrm_replay.c
+++ b/src/fstrm_replay.c
@@ -288,5 +288,5 @@ int main(int argc, char **argv)
 		fputs("Error: fstrm_writer_close() failed", stderr);
 
 	fstrm_writer_destroy(&w);
-	return 0;
+	return (res == fstrm_res_success) ? EXIT_SUCCESS : EXIT_FAILURE;
 }
-- 
2.43.0


From 3a1dd98914a91a6cbd5f8d4d9a00ca6c1db775ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 17/20] fix: reader: free the previous STOP frame when a
 reopened stream ends again

---
 fstrm/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 84cd8dc..8856c38 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -348,6 +348,7 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 					FSTRM_CONTROL_FINISH, NULL);
 				*/
 				r->state = fstrm_reader_state_closing;
+				fstrm_control_destroy(&r->control_stop);
 				r->control_stop = r->control_tmp;
 				r->control_tmp = NULL;
 				return fstrm_res_stop;
-- 
2.43.0


From 1c23e066015dbac911e7b4f42ead8f482a358c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:08 +0000
Subject: [PATCH 18/20] fix: accept control frames of up to the maximum length
 in fstrm_capture

load_control_frame() compared the length of the whole frame, including its
8-byte header, with the limit for the payload, and closed the connection on
control frames with payloads of 504 to 512 bytes.
---
 src/fstrm_capture.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 4a7bbf2..7efcc35 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -902,8 +902,8 @@ load_control_frame(struct conn *conn)
 	fstrm_res res;
 	uint8_t *control_frame = NULL;
 
-	/* Check if the frame is too big. */
-	if (conn->len_frame_total >= FSTRM_CONTROL_FRAME_LENGTH_MAX) {
+	/* Check if the frame is too big, its header not counted. */
+	if (conn->len_frame_total > 2*sizeof(uint32_t) + FSTRM_CONTROL_FRAME_LENGTH_MAX) {
 		/* Malformed. */
 		return false;
 	}
-- 
2.43.0


From c66d08abf2a41fc45afef9d85550d87f401e9832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:39 +0000
Subject: [PATCH 19/20] fix: iothr: count the bytes of a batch without wrapping

---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 28c66b0..efe32c9 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -111,7 +111,7 @@ struct fstrm_iothr {
 	unsigned			outq_idx;
 	struct iovec			*outq_iov;
 	struct fstrm__iothr_queue_entry	*outq_entries;
-	unsigned			outq_nbytes;
+	size_t				outq_nbytes;
 };
 
 struct fstrm_iothr_options *
-- 
2.43.0


From 8667c2e2ab190ad2d31028d01d960f6244fa001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:43 +0000
Subject: [PATCH 20/20] fix: capture: end the event loop from an event, not
 from a signal handler

A SIGTERM or SIGINT that came between libevent's computation of the
time to wait and the wait itself did not end the program until something
else happened, and event_base_loopexit() allocates memory and changes
the loop's data structures, which a signal handler may not do.
---
 src/fstrm_capture.c | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 7efcc35..23e003a 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -107,6 +107,8 @@ struct capture {
 	struct evconnlistener	*ev_connlistener;
 	struct event		*ev_sighup;
 	struct event		*ev_sigusr1;
+	struct event		*ev_sigterm;
+	struct event		*ev_sigint;
 
 	FILE			*output_file;
 	char			*output_fname;
@@ -1156,6 +1158,14 @@ do_sighup(__attribute__((unused)) evutil_socket_t sig,
 	}
 }
 
+static void
+do_shutdown(__attribute__((unused)) evutil_socket_t sig,
+	    __attribute__((unused)) short events, void *user_data)
+{
+	struct capture *ctx = user_data;
+	event_base_loopexit(ctx->ev_base, NULL);
+}
+
 static bool
 setup_event_loop(struct capture *ctx)
 {
@@ -1190,31 +1200,33 @@ setup_event_loop(struct capture *ctx)
 				       &g_program_ctx);
 	evsignal_add(ctx->ev_sigusr1, NULL);
 
+	/*
+	 * Register our SIGTERM and SIGINT handlers. The event loop has to be
+	 * ended from an event callback: event_base_loopexit() may neither be
+	 * called from a signal handler nor does it wake a loop about to wait.
+	 */
+	ctx->ev_sigterm = evsignal_new(ctx->ev_base, SIGTERM, &do_shutdown,
+				       &g_program_ctx);
+	ctx->ev_sigint = evsignal_new(ctx->ev_base, SIGINT, &do_shutdown,
+				      &g_program_ctx);
+	if (ctx->ev_sigterm == NULL || evsignal_add(ctx->ev_sigterm, NULL) != 0)
+		return false;
+	if (ctx->ev_sigint == NULL || evsignal_add(ctx->ev_sigint, NULL) != 0)
+		return false;
+
 	/* Success. */
 	return true;
 }
 
-static void
-shutdown_handler(int signum __attribute__((unused)))
-{
-	event_base_loopexit(g_program_ctx.ev_base, NULL);
-}
-
 static bool
 setup_signals(void)
 {
 	struct sigaction sa = {
-		.sa_handler = shutdown_handler,
+		.sa_handler = SIG_IGN,
 	};
 
 	if (sigemptyset(&sa.sa_mask) != 0)
 		return false;
-	if (sigaction(SIGTERM, &sa, NULL) != 0)
-		return false;
-	if (sigaction(SIGINT, &sa, NULL) != 0)
-		return false;
-
-	sa.sa_handler = SIG_IGN;
 	if (sigaction(SIGPIPE, &sa, NULL) != 0)
 		return false;
 
@@ -1230,6 +1242,10 @@ cleanup(struct capture *ctx)
 		event_free(ctx->ev_sighup);
 	if (ctx->ev_sigusr1 != NULL)
 		event_free(ctx->ev_sigusr1);
+	if (ctx->ev_sigterm != NULL)
+		event_free(ctx->ev_sigterm);
+	if (ctx->ev_sigint != NULL)
+		event_free(ctx->ev_sigint);
 	if (ctx->ev_connlistener != NULL)
 		evconnlistener_free(ctx->ev_connlistener);
 	if (ctx->ev_base != NULL)
-- 
2.43.0

