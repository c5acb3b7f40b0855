From 21cb3715ddb0821bdb9e915f0ee024f07810f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 01/20] fix: check length of every chunk, also when reusing the
 last one

---
 main.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/main.c b/main.c
index 0e13df5..2f7b877 100644
--- a/main.c
+++ b/main.c
@@ -34,18 +34,19 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 	static bool have_last_id = false;
 	static bool resuming = true;
 	static uint8_t last_id[CHUNK_ID_LEN];
+	static uint32_t last_len;
 	static uint8_t buf[256*1024] __attribute__((aligned(4096)));
 
-	if (resuming) {
-		if (len > sizeof(buf)) {
-			u_log(ERR, "chunk length (%"PRIu32") at offset %"PRIu64" exceeds buffer size (%zu)",
-			      len, offset, sizeof(buf));
+	if (len > sizeof(buf)) {
+		u_log(ERR, "chunk length (%"PRIu32") at offset %"PRIu64" exceeds buffer size (%zu)",
+		      len, offset, sizeof(buf));
 
-			// this means the index file is incompatible and store_get_chunk
-			// would bail out anyway, abort.
-			return -1;
-		}
+		// this means the index file is incompatible and store_get_chunk
+		// would bail out anyway, abort.
+		return -1;
+	}
 
+	if (resuming) {
 		if (target_check_chunk(target, buf, len, offset, id) == 1) {
 			skipped++;
 			goto progress;
@@ -54,7 +55,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		resuming = false;
 	}
 
-	if (!have_last_id || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
+	if (!have_last_id || last_len != len || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
 		ssize_t ret = store_get_chunk(store, id, buf, sizeof(buf));
 		if (ret < 0 || len != (size_t)ret) {
 			u_log(ERR, "result size %zd does not match expected length %"PRIu32, ret, len);
@@ -62,6 +63,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		}
 
 		memcpy(last_id, id, CHUNK_ID_LEN);
+		last_len = len;
 		have_last_id = true;
 	}
 
-- 
2.43.0


From 24bb0d5b06da52818732fdb934197fff5fd26a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 02/20] fix: reject index entries with unrepresentable or zero
 length

---
 caibx.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/caibx.c b/caibx.c
index b2ed622..02daad8 100644
--- a/caibx.c
+++ b/caibx.c
@@ -206,6 +206,14 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 
 		char chunk_id[CHUNK_ID_STRLEN];
 
+		/* We cannot represent such chunks. Leaving them out would make
+		 * the result incomplete, so give up.
+		 */
+		if (len == 0 || len > UINT32_MAX) {
+			u_log(ERR, "entry %zu has unsupported length %"PRIu64, i, len);
+			return -1;
+		}
+
 		// chunks other than the last one should not be shorter than
 		// the minimum size
 		if (len < params->min_size && (i+1) < n_entries) {
@@ -221,13 +229,8 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 			 * of the chunks that do not fit within the declared
 			 * size bounds, as such chunks should not be produced
 			 * by a conforming encoder. But if the chunk ID still
-			 * matches in the end we should be fine. Only skip
-			 * chunks that we cannot represent at all.
+			 * matches in the end we should be fine.
 			 */
-			if (len > UINT32_MAX) {
-				u_log(WARN, "skipping chunk %s", chunk_id);
-				continue;
-			}
 		}
 
 		if (cb(last_offset, (uint32_t)len, &buf[8], arg) < 0)
-- 
2.43.0


From 43bc6e00e080aaae352fa9b8ab8f35c9efb68d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 03/20] fix: do not abort when initializing an index for zero
 expected entries

---
 index.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 1c0a089..96e0321 100644
--- a/index.c
+++ b/index.c
@@ -7,7 +7,10 @@
 int index_init(struct index *idx, size_t expected_size)
 {
 	u_assert(idx);
-	u_assert(expected_size > 0);
+
+	// this is just an estimate, which might legitimately be zero
+	if (expected_size == 0)
+		expected_size = 1;
 
 	idx->entries = calloc(expected_size, sizeof(*idx->entries));
 	u_notnull(idx->entries, return -1);
-- 
2.43.0


From 9406833241ed1bf5cfe4008c9610337306367a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 04/20] fix: release index and fd of local stores exactly once
 on all paths

---
 index.c       |  5 +++++
 store-local.c | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/index.c b/index.c
index 96e0321..2dce5b4 100644
--- a/index.c
+++ b/index.c
@@ -27,6 +27,11 @@ void index_cleanup(struct index *idx)
 	u_assert(idx);
 
 	free(idx->entries);
+
+	idx->entries = NULL;
+	idx->sorted = false;
+	idx->n_entries = 0;
+	idx->space_avail = 0;
 }
 
 struct index_entry *index_insert(struct index *idx, uint64_t offset, uint32_t len, const uint8_t *id)
diff --git a/store-local.c b/store-local.c
index b683064..9082124 100644
--- a/store-local.c
+++ b/store-local.c
@@ -121,8 +121,10 @@ static int store_scan(struct store_local *ls)
 		.flags = INDEX_FLAG_VALIDATED
 	};
 
-	if (chunker_scan_fd(ls->fd, &ls->chunker_params, store_insert_index, &ctx) < 0)
+	if (chunker_scan_fd(ls->fd, &ls->chunker_params, store_insert_index, &ctx) < 0) {
+		index_cleanup(&ls->idx);
 		return -1;
+	}
 
 	return 0;
 }
@@ -187,6 +189,7 @@ static void store_local_free(struct store *s)
 	struct store_local *ls = (struct store_local*) s;
 
 	index_cleanup(&ls->idx);
+	close(ls->fd);
 	free(ls);
 }
 
@@ -225,12 +228,15 @@ struct store *store_local_new(const char *path, const char *index,
 	u_log(INFO, "scanning store '%s'", path);
 	if (store_scan(ls) < 0) {
 		u_log(ERR, "scanning store '%s' failed", path);
-		goto err_ls;
+		goto err_fd;
 	}
 	u_log(INFO, "scanning store finished");
 
 	return (struct store*)ls;
 
+err_fd:
+	close(ls->fd);
+
 err_ls:
 	free(ls);
 	return NULL;
-- 
2.43.0


From 30972b363e88be77d9a0b5e8beda3373ecdcf606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 05/20] fix: always verify chunks from local stores, rescan if
 a sideloaded entry is unreadable

---
 store-local.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/store-local.c b/store-local.c
index 9082124..1ffb8c1 100644
--- a/store-local.c
+++ b/store-local.c
@@ -133,6 +133,8 @@ static ssize_t store_local_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 {
 	struct store_local *ls = (struct store_local*) s;
 
+	bool rescanned = false;
+
 	struct index_entry *e;
 restart:
 	e = index_query(&ls->idx, id);
@@ -143,18 +145,24 @@ restart:
 	if (e->len > out_max) {
 		u_log(ERR, "output buffer to small (%zu) to contain cunk of size %"PRIu32,
 		      out_max, e->len);
+
+		if (!(e->flags & INDEX_FLAG_VALIDATED))
+			goto rescan;
+
 		return -1;
 	}
 
 	if (preadall(ls->fd, out, e->len, e->start) < 0) {
 		u_log(ERR, "reading chunk failed");
+
+		if (!(e->flags & INDEX_FLAG_VALIDATED))
+			goto rescan;
+
 		return -1;
 	}
 
-	if (e->flags & INDEX_FLAG_VALIDATED)
-		return e->len;
-
-	// if the entry has not been validated, check its contents
+	// check the contents every time, the data within the store might have
+	// changed since it was last looked at
 	uint8_t actual_chunk_id[CHUNK_ID_LEN];
 	chunk_calculate_id(out, e->len, actual_chunk_id);
 
@@ -173,6 +181,14 @@ restart:
 	chunk_format_id(chunk_id_str, actual_chunk_id);
 	u_log(ERR, " got chunk id: %s", chunk_id_str);
 
+rescan:
+	if (rescanned) {
+		u_log(ERR, "store '%s' changed since rescanning it", s->name);
+		return -1;
+	}
+
+	rescanned = true;
+
 	u_log(ERR, "rescanning store '%s'", s->name);
 
 	index_cleanup(&ls->idx);
-- 
2.43.0


From 8194cc8db28ab8df1d4f79c71392e3e320d81ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 06/20] fix: verify chunks that are read back from the target

---
 target.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/target.c b/target.c
index f0ea9f7..108db31 100644
--- a/target.c
+++ b/target.c
@@ -4,6 +4,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <inttypes.h>
 
 #include "utils.h"
 #include "chunker.h"
@@ -67,6 +68,13 @@ static ssize_t target_get_chunk(struct store *s, uint8_t *id, uint8_t *out, size
 		return -1;
 	}
 
+	uint8_t actual_id[CHUNK_ID_LEN];
+	chunk_calculate_id(out, e->len, actual_id);
+	if (memcmp(actual_id, id, CHUNK_ID_LEN)) {
+		u_log(WARN, "chunk at offset %"PRIu64" of target has changed", e->start);
+		return 0;
+	}
+
 	return e->len;
 }
 
-- 
2.43.0


From 919220d562d7e68406ef640d38e03aa94252e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 07/20] fix: decode every HTTP attempt from scratch

---
 store-http.c | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/store-http.c b/store-http.c
index 815797d..c041683 100644
--- a/store-http.c
+++ b/store-http.c
@@ -232,13 +232,46 @@ static bool curl_is_transient_error(CURLcode code)
 	       code == CURLE_OPERATION_TIMEDOUT;
 }
 
-static CURLcode retried_curl_easy_perform(struct store_http *hs)
+static int start_attempt(struct http_request_ctx *ctx, const uint8_t *id)
 {
+	struct store_http *hs = ctx->hs;
+
+	hs->decode_buffer_fill = 0;
+
+	size_t ret = ZSTD_initDStream(hs->zstd);
+	if (ZSTD_isError(ret)) {
+		u_log(ERR, "resetting zstd decoder failed: %s", ZSTD_getErrorName(ret));
+		return -1;
+	}
+
+	if (hs->encrypted) {
+		// uses the first 24 bytes of the id as the nonce
+		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
+			u_log(ERR, "failed to re-initialize encryption");
+			return -1;
+		}
+	}
+
+	ctx->outbuf_written = 0;
+	ctx->state = HTTP_REQUEST_STARTED;
+
+	return 0;
+}
+
+static CURLcode retried_curl_easy_perform(struct http_request_ctx *ctx, const uint8_t *id)
+{
+	struct store_http *hs = ctx->hs;
+
 	CURLcode ret;
 	int remaining = CONNECT_TRIES;
 	useconds_t wait_us = 200 * 1000;
 
 	do {
+		// the previous attempt might have failed halfway through the
+		// transfer, do not continue with what it left behind
+		if (start_attempt(ctx, id) < 0)
+			return CURLE_FAILED_INIT;
+
 		ret = curl_easy_perform(hs->curl);
 
 		if (!curl_is_transient_error(ret))
@@ -274,23 +307,11 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 {
 	struct store_http *hs = (struct store_http*) s;
 
-	hs->decode_buffer_fill = 0;
-
-	ZSTD_initDStream(hs->zstd);
-
 	if (set_url(hs, id) < 0) {
 		u_log(ERR, "setting request URL failed");
 		return -1;
 	}
 
-	if (hs->encrypted) {
-		// uses the first 24 bytes of the id as the nonce
-		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
-			u_log(ERR, "failed to re-initialize encryption");
-			return -1;
-		}
-	}
-
 	struct http_request_ctx ctx = {
 		.hs = hs,
 		.outbuf = out,
@@ -303,7 +324,7 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 	u_log(DEBUG, "trying to fetch chunk from '%s'", hs->url_buf);
 
 	CURLcode curl_ret;
-	curl_ret = retried_curl_easy_perform(hs);
+	curl_ret = retried_curl_easy_perform(&ctx, id);
 
 	if (curl_is_transient_error(curl_ret)) {
 		u_log(WARN, "transient transfer failure, increasing error counter");
-- 
2.43.0


From c7ec8c3859e7d285b63c972e2af9cac071dbc65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 08/20] fix: hash the complete input in software when kcapi
 fails halfway

---
 sha.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sha.c b/sha.c
index 3e272d6..d3623d4 100644
--- a/sha.c
+++ b/sha.c
@@ -84,10 +84,13 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 	if (kcapi_fd < 0)
 		return (SHA256(data, len, out) != NULL) ? 0 : -1;
 
-	while (len) {
+	const uint8_t *remaining = data;
+	size_t remaining_len = len;
+
+	while (remaining_len) {
 		ssize_t ret;
 
-		ret = send(kcapi_fd, data, len, MSG_MORE);
+		ret = send(kcapi_fd, remaining, remaining_len, MSG_MORE);
 		if (ret < 0) {
 			if (errno == EINTR)
 				continue;
@@ -96,8 +99,8 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 			goto disable;
 		}
 
-		data += ret;
-		len -= ret;
+		remaining += ret;
+		remaining_len -= ret;
 	}
 
 	ssize_t ret;
-- 
2.43.0


From 1c82f4bf362f94174d81f2f11c75345daf0f9a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 09/20] fix: handle all EVP_Cipher errors and data of more than
 4 GiB

---
 encrypt.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/encrypt.c b/encrypt.c
index 6e3d814..ce07ede 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -136,8 +136,17 @@ void encrypt_close(struct encrypt_ctx *ctx)
 
 int encrypt_do(struct encrypt_ctx *ctx, uint8_t *out, const uint8_t *in, size_t len)
 {
-	if (!EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len))
-		return -1;
+	while (len) {
+		// EVP_Cipher can only handle lengths that fit into an int
+		unsigned int now = MIN(len, (size_t)(1 << 30));
+
+		if (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, now) <= 0)
+			return -1;
+
+		out += now;
+		in += now;
+		len -= now;
+	}
 
 	return 0;
 }
-- 
2.43.0


From 3aa69ea819c04c756c29ef3816a18927f903a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 10/20] fix: do not log encryption keys

---
 encrypt.c    | 2 +-
 main.c       | 5 +++--
 store-http.c | 4 ++--
 utils.c      | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/encrypt.c b/encrypt.c
index ce07ede..06f3a2f 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -176,7 +176,7 @@ int encrypt_parse_keyspec(uint8_t key_out[static 32], const char *keyspec)
 		key_str = slurped;
 		do_free = true;
 	} else {
-		u_log(ERR, "unknown keyspec used in '%s'", keyspec);
+		u_log(ERR, "unknown keyspec used");
 		return -1;
 	}
 
diff --git a/main.c b/main.c
index 2f7b877..4a56e44 100644
--- a/main.c
+++ b/main.c
@@ -98,7 +98,8 @@ static int append_store_from_arg(struct store_chain *sc, char *arg)
 	} else if (startswith(arg, "http")) {
 		s = store_http_new(arg);
 		if (!s) {
-			u_log(ERR, "creating HTTP store from '%s' failed", arg);
+			// do not log the URL, it might contain an encryption key
+			u_log(ERR, "creating HTTP store failed");
 			return -1;
 		}
 	} else {
@@ -116,7 +117,7 @@ static int append_store_from_arg(struct store_chain *sc, char *arg)
 	}
 
 	if (store_chain_append(sc, s) < 0) {
-		u_log(ERR, "appending store '%s' to store chain failed", arg);
+		u_log(ERR, "appending store '%s' to store chain failed", store_get_name(s));
 		return -1;
 	}
 
diff --git a/store-http.c b/store-http.c
index c041683..452eac3 100644
--- a/store-http.c
+++ b/store-http.c
@@ -439,7 +439,7 @@ static int store_handle_params(struct store_http *hs, char *args)
 
 			hs->encrypted = true;
 		} else {
-			u_log(ERR, "unhandled store parameters: %s", p);
+			u_log(ERR, "unhandled store parameters");
 			return -1;
 		}
 
@@ -491,7 +491,7 @@ struct store *store_http_new(const char *baseurl)
 	hs->url_buf = malloc(strlen(hs->baseurl) + CHUNK_SUFFIX_MAX_LEN + 1);
 	u_notnull(hs->url_buf, goto err_baseurl);
 
-	snprintf(hs->s.name, sizeof(hs->s.name), "%s", baseurl);
+	snprintf(hs->s.name, sizeof(hs->s.name), "%s", hs->baseurl);
 	hs->s.free = store_http_free;
 	hs->s.get_chunk = store_http_get_chunk;
 
diff --git a/utils.c b/utils.c
index 70cc46a..ca97c14 100644
--- a/utils.c
+++ b/utils.c
@@ -250,7 +250,7 @@ int parse_hex(uint8_t *out, const char *in)
 	for (size_t i = 0; in[i]; i++) {
 		int16_t n = nibble(in[i]);
 		if (n < 0) {
-			u_log(ERR, "invalid hex nibble '%c'", in[i]);
+			u_log(ERR, "invalid hex nibble at position %zu", i);
 			return -1;
 		}
 
-- 
2.43.0


From 5bc5a7dd715c99673145088a3ed67a5dac6dc025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 11/20] fix: do not start synchronization after printing the
 casync help

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 4a56e44..a6f0250 100644
--- a/main.c
+++ b/main.c
@@ -240,7 +240,7 @@ static int casync(int argc, char **argv)
 		switch (c) {
 			case 'h':
 				casync_help();
-				return 0;
+				exit(EXIT_SUCCESS);
 			case ARG_STORE:
 			case ARG_SEED:
 				if (append_store_from_arg(sc, optarg) < 0)
-- 
2.43.0


From c07a20a66e99bf91cbc0e01bf7858995c651b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 12/20] fix: sync target before reporting success

---
 main.c   |  5 +++++
 target.c | 12 ++++++++++++
 target.h |  1 +
 3 files changed, 18 insertions(+)

diff --git a/main.c b/main.c
index a6f0250..37a315a 100644
--- a/main.c
+++ b/main.c
@@ -310,6 +310,11 @@ int main(int argc, char **argv)
 		return EXIT_FAILURE;
 	}
 
+	if (target_sync(target) < 0) {
+		u_log(ERR, "data might not have reached the target");
+		return EXIT_FAILURE;
+	}
+
 	now = time_monotonic();
 	u_log(INFO, "synchronization finished after %u seconds", (unsigned int)(now - start));
 	if (skipped)
diff --git a/target.c b/target.c
index 108db31..41d572c 100644
--- a/target.c
+++ b/target.c
@@ -95,6 +95,18 @@ int target_write(struct target *t, const uint8_t *data, size_t len, off_t offset
 	return 0;
 }
 
+int target_sync(struct target *t)
+{
+	u_assert(t);
+
+	if (fsync(t->fd) < 0) {
+		u_log_errno("syncing target failed");
+		return -1;
+	}
+
+	return 0;
+}
+
 struct target *target_new(const char *path)
 {
 	u_assert(path);
diff --git a/target.h b/target.h
index 8848e23..79475ef 100644
--- a/target.h
+++ b/target.h
@@ -19,4 +19,5 @@ struct target *target_new(const char *path);
 int target_write(struct target *t, const uint8_t *data, size_t len, off_t offset, const uint8_t *id);
 int target_check_chunk(struct target *t, uint8_t *tmp, size_t len, off_t offset, const uint8_t *id);
 
+int target_sync(struct target *t);
 struct store *target_as_store(struct target *t, size_t chunk_estimate);
-- 
2.43.0


From fe5f7154d6c469be9cb4dc434087ae307e43c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 13/20] fix: never overwrite existing files and remove
 incomplete output in csn-tool crypt

---
 csn-tool.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/csn-tool.c b/csn-tool.c
index 6ed3582..d96a5e4 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -72,7 +72,9 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 		}
 	}
 
-	if (access(output_path, F_OK) == 0)
+	bool to_stdout = streq(output_path, "-");
+
+	if (!to_stdout && access(output_path, F_OK) == 0)
 		return 0;
 
 	// this uses the first 24 bytes of chunk_id
@@ -94,10 +96,10 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 	}
 
 	int fd;
-	if (streq(output_path, "-")) {
+	if (to_stdout) {
 		fd = STDOUT_FILENO;
 	} else {
-		fd = open(output_path, O_WRONLY | O_TRUNC | O_CREAT, 0444);
+		fd = open(output_path, O_WRONLY | O_EXCL | O_CREAT, 0444);
 
 		if (fd < 0) {
 			u_log_errno("failed to create output file");
@@ -113,8 +115,17 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 	ret = 0;
 
 out_fd:
-	if (fd != STDOUT_FILENO)
-		close(fd);
+	if (!to_stdout) {
+		if (close(fd) < 0) {
+			u_log_errno("failed to close output file");
+			ret = -1;
+		}
+
+		// do not leave broken files behind
+		if (ret < 0)
+			unlink(output_path);
+	}
+
 out_buf:
 	free(buf);
 
-- 
2.43.0


From 6787eacea2b655d44455a2575447b383a9ede308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 14/20] fix: unknown commands are an error

---
 csn-bench.c | 2 +-
 csn-tool.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/csn-bench.c b/csn-bench.c
index ce4a3f1..f5359df 100644
--- a/csn-bench.c
+++ b/csn-bench.c
@@ -169,5 +169,5 @@ int main(int argc, char **argv)
 		if (streq(benchmarks[i].name, argv[1]))
 			return benchmarks[i].fn(argc - 1, argv + 1);
 
-	usage(argv[0], false);
+	usage(argv[0], true);
 }
diff --git a/csn-tool.c b/csn-tool.c
index d96a5e4..918fa0c 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -214,5 +214,5 @@ int main(int argc, char **argv)
 		if (streq(cmds[i].name, argv[1]))
 			return cmds[i].fn(argc - 1, argv + 1);
 
-	usage(argv[0], false);
+	usage(argv[0], true);
 }
-- 
2.43.0


From 1a0cba0b6a9e05149eefb6a8f8522b10cdd6ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 15/20] fix: reject chunk size parameters the chunker cannot
 handle

---
 chunker.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/chunker.c b/chunker.c
index b499f49..7486fce 100644
--- a/chunker.c
+++ b/chunker.c
@@ -75,6 +75,12 @@ static const uint32_t buzhash_table[] = {
 	0x7bf7cabc, 0xf9c18d66, 0x593ade65, 0xd95ddf11,
 };
 
+/* Range of average chunk sizes for which CA_CHUNKER_DISCRIMINATOR_FROM_AVG
+ * (see below) yields a positive number.
+ */
+#define CHUNKER_AVG_MIN 2
+#define CHUNKER_AVG_MAX 9324556
+
 int chunker_params_set(struct chunker_params *params, uint64_t min_size, uint64_t avg_size, uint64_t max_size)
 {
 	// FIXME: support fixed-size chunks
@@ -92,6 +98,18 @@ int chunker_params_set(struct chunker_params *params, uint64_t min_size, uint64_
 		return -1;
 	}
 
+	// the first break is only considered once the window has been filled
+	if (max_size < CHUNKER_WINDOW_SIZE) {
+		u_log(ERR, "maximum chunk size %"PRIu64" is smaller than the chunker window", max_size);
+		return -1;
+	}
+
+	// the discriminator is not defined outside of these bounds
+	if (avg_size < CHUNKER_AVG_MIN || avg_size > CHUNKER_AVG_MAX) {
+		u_log(ERR, "unsupported average chunk size: %"PRIu64, avg_size);
+		return -1;
+	}
+
 	params->min_size = (uint32_t) min_size;
 	params->avg_size = (uint32_t) avg_size;
 	params->max_size = (uint32_t) max_size;
-- 
2.43.0


From 67a06ea5c9104d371a04e92e3ad5ed1780fa68bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 16/20] fix: do not truncate log messages and formats

---
 log.c | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/log.c b/log.c
index 822b03d..9f5f9a4 100644
--- a/log.c
+++ b/log.c
@@ -51,8 +51,6 @@ bool check_loglevel(enum u_loglevel level)
 
 void _u_log(enum u_loglevel level, const char *path, const char *func, int line, const char *format, ...)
 {
-	int _;
-
 	if (check_loglevel(level) == false)
 		return;
 
@@ -62,7 +60,6 @@ void _u_log(enum u_loglevel level, const char *path, const char *func, int line,
 	else
 		file = path;
 
-	char buf[128];
 	if (is_tty) {
 		static const int color_map[] = {
 			[U_LOG_ERR] = COLOR_RED,
@@ -71,10 +68,9 @@ void _u_log(enum u_loglevel level, const char *path, const char *func, int line,
 			[U_LOG_DEBUG] = COLOR_BLUE
 		};
 
-		_ = snprintf(buf, sizeof(buf), COLOR_START "%s:%s:%d\t%s" COLOR_END "\n",
-		             color_map[level],
-		             file, func, line,
-		             format);
+		fprintf(stderr, COLOR_START "%s:%s:%d\t",
+		        color_map[level],
+		        file, func, line);
 	} else {
 		static const char *level_map[] = {
 			[U_LOG_ERR] = "ERR",
@@ -83,21 +79,17 @@ void _u_log(enum u_loglevel level, const char *path, const char *func, int line,
 			[U_LOG_DEBUG] = "DBG"
 		};
 
-		_ = snprintf(buf, sizeof(buf), "%s %s:%s:%d %s\n",
-		             level_map[level],
-		             file, func, line,
-		             format);
-	}
-
-	if (_ < 0) {
-		fputs("error formatting log message", stderr);
-		return;
+		fprintf(stderr, "%s %s:%s:%d ",
+		        level_map[level],
+		        file, func, line);
 	}
 
 	va_list args;
 	va_start(args, format);
-	vfprintf(stderr, buf, args);
+	vfprintf(stderr, format, args);
 	va_end(args);
+
+	fputs(is_tty ? COLOR_END "\n" : "\n", stderr);
 }
 
 void hexdump(void *addr, size_t len)
-- 
2.43.0


From fa69da79b92693d859c195543f73e9322fe276a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 17/20] fix: wipe all temporary copies of encryption keys

---
 csn-tool.c   | 5 ++++-
 encrypt.c    | 7 ++++---
 encrypt.h    | 2 ++
 store-http.c | 5 ++++-
 utils.c      | 5 ++++-
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/csn-tool.c b/csn-tool.c
index 918fa0c..a2e3e98 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -149,7 +149,10 @@ static int do_crypt(int argc, char **argv)
 	}
 
 	struct encrypt_ctx ec;
-	if (encrypt_init(&ec, key) < 0) {
+	int init_ret = encrypt_init(&ec, key);
+	crypto_wipe(key, sizeof(key));
+
+	if (init_ret < 0) {
 		u_log(ERR, "encrypt_init failed");
 		return EXIT_FAILURE;
 	}
diff --git a/encrypt.c b/encrypt.c
index 06f3a2f..7447b12 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -27,7 +27,7 @@ static void p32le_buf(uint8_t *dst, const uint32_t *src, size_t size)
 		p32le(dst + i*4, src[i]);
 }
 
-static void crypto_wipe(void *secret, size_t size)
+void crypto_wipe(void *secret, size_t size)
 {
 	volatile uint8_t *v_secret = (uint8_t*)secret;
 
@@ -157,6 +157,7 @@ int encrypt_parse_keyspec(uint8_t key_out[static 32], const char *keyspec)
 
 	const char *key_str;
 	bool do_free = false;
+	off_t slurped_size = 0;
 
 	if (startswith(keyspec, "key:")) {
 		key_str = &keyspec[4];
@@ -167,7 +168,7 @@ int encrypt_parse_keyspec(uint8_t key_out[static 32], const char *keyspec)
 			return -1;
 		}
 	} else if(startswith(keyspec, "file:")) {
-		char *slurped = slurp_file(&keyspec[5], true, NULL);
+		char *slurped = slurp_file(&keyspec[5], true, &slurped_size);
 		if (!slurped)
 			return -1;
 
@@ -196,7 +197,7 @@ int encrypt_parse_keyspec(uint8_t key_out[static 32], const char *keyspec)
 
 out:
 	if (do_free) {
-		crypto_wipe((void*)key_str, strlen(key_str));
+		crypto_wipe((void*)key_str, slurped_size);
 		free((void*)key_str);
 	}
 
diff --git a/encrypt.h b/encrypt.h
index 29dda43..7a508e5 100644
--- a/encrypt.h
+++ b/encrypt.h
@@ -15,6 +15,8 @@ void encrypt_close(struct encrypt_ctx *ctx);
 int encrypt_restart(struct encrypt_ctx *ctx, const uint8_t nonce[static 24]);
 int encrypt_do(struct encrypt_ctx *ctx, uint8_t *out, const uint8_t *in, size_t len);
 
+void crypto_wipe(void *secret, size_t size);
+
 int encrypt_parse_keyspec(uint8_t key_out[static 32], const char *keyspec);
 
 #ifdef TESTING
diff --git a/store-http.c b/store-http.c
index 452eac3..046fdf6 100644
--- a/store-http.c
+++ b/store-http.c
@@ -432,7 +432,10 @@ static int store_handle_params(struct store_http *hs, char *args)
 				return -1;
 			}
 
-			if (encrypt_init(&hs->encrypt_ctx, key) < 0) {
+			int ret = encrypt_init(&hs->encrypt_ctx, key);
+			crypto_wipe(key, sizeof(key));
+
+			if (ret < 0) {
 				u_log(ERR, "failed to initialize encryption context");
 				return -1;
 			}
diff --git a/utils.c b/utils.c
index ca97c14..28f4350 100644
--- a/utils.c
+++ b/utils.c
@@ -214,8 +214,11 @@ void *slurp_file(const char *path, bool text, off_t *size_out)
 	ret = buf;
 
 out_buf:
-	if (ret == NULL)
+	if (ret == NULL) {
+		// this might have been (part of) a key
+		explicit_bzero(buf, size);
 		free(buf);
+	}
 
 out_fd:
 	close(fd);
-- 
2.43.0


From 1ea13e1efe3557a96c4257280dc93e09b82cb9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 18/20] fix: release encryption context when creating a HTTP
 store fails

---
 store-http.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/store-http.c b/store-http.c
index 046fdf6..97e0431 100644
--- a/store-http.c
+++ b/store-http.c
@@ -426,6 +426,12 @@ static int store_handle_params(struct store_http *hs, char *args)
 			*next = 0;
 
 		if (startswith(p, "encrypt=")) {
+			// the last one wins
+			if (hs->encrypted) {
+				encrypt_close(&hs->encrypt_ctx);
+				hs->encrypted = false;
+			}
+
 			uint8_t key[32];
 			if (encrypt_parse_keyspec(key, p+strlen("encrypt=")) < 0) {
 				u_log(ERR, "parsing encryption config failed");
@@ -531,6 +537,9 @@ err_baseurl:
 	free((void*)hs->baseurl);
 
 err_hs:
+	if (hs->encrypted)
+		encrypt_close(&hs->encrypt_ctx);
+
 	free(hs);
 
 	return NULL;
-- 
2.43.0


From c1afac15a18fcfc7da36582cf7f9f541e82b3a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 19/20] fix: do not mistake an error on stdin for its end

---
 csn-tool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/csn-tool.c b/csn-tool.c
index a2e3e98..772858b 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -165,6 +165,11 @@ static int do_crypt(int argc, char **argv)
 				goto out;
 		}
 
+		if (ferror(stdin)) {
+			u_log_errno("reading paths from stdin failed");
+			goto out;
+		}
+
 		ret = EXIT_SUCCESS;
 	} else {
 		char *input_path = argv[2];
-- 
2.43.0


From 009af09df6d7b282a58f26258dfa1b6a7dbb2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 20/20] fix: only remove trailing line ends in chomp

---
 utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils.c b/utils.c
index 28f4350..3b75b97 100644
--- a/utils.c
+++ b/utils.c
@@ -282,6 +282,8 @@ void chomp(char *s)
 			while (*p == '\r' || *p == '\n')
 				p++;
 		} else {
+			// not at the end after all
+			q = NULL;
 			p++;
 		}
 	}
-- 
2.43.0

