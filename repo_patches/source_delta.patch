From fdca27bdecd17abd36e731a66246dc4350a3418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 01/17] fix: check the buffer end for corrupted TMA packets
 (skz84)

With the skz84 workaround enabled, a corrupted TMA packet at the very end of
the trace buffer moved the decoder one byte beyond the end of the buffer.
Report end of stream if the corrupted packet does not fit.
---
 libipt/src/pt_packet_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index bdabb03..7e0a764 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -520,6 +520,10 @@ static int pt_pkt_decode_tma(struct pt_packet_decoder *decoder,
 		    && (size == -pte_bad_packet)) {
 			size = ptps_tma + 1;
 
+			/* The corrupted packet must still fit. */
+			if (decoder->config.end - decoder->pos < size)
+				return -pte_eos;
+
 			packet->type = ppt_invalid;
 			packet->size = (uint8_t) size;
 		}
-- 
2.43.0


From a9abbce96e59bebd6c04343f40238322a9983b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 02/17] fix: refuse to encode packets that decode to something
 else

A TNT-8 without payload bits encodes as the extended opcode byte, stray TNT-8
payload bits above the stop bit change the packet size, and the packet decoder
rejects CYC payloads of more than 61 bits.  Report such packets as bad.
---
 libipt/src/pt_encoder.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_encoder.c b/libipt/src/pt_encoder.c
index a84f0d6..cfec9e4 100644
--- a/libipt/src/pt_encoder.c
+++ b/libipt/src/pt_encoder.c
@@ -325,7 +325,11 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 	case ppt_tnt_8: {
 		uint8_t opc, stop;
 
-		if (packet->payload.tnt.bit_size >= 7)
+		if (!packet->payload.tnt.bit_size ||
+		    packet->payload.tnt.bit_size >= 7)
+			return -pte_bad_packet;
+
+		if (packet->payload.tnt.payload >> packet->payload.tnt.bit_size)
 			return -pte_bad_packet;
 
 		errcode = pt_reserve(encoder, ptps_tnt_8);
@@ -493,6 +497,12 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 		uint8_t byte[pt_pl_cyc_max_size], index, end;
 		uint64_t ctc;
 
+		/* Check if the decoder could represent the CYC payload: five
+		 * bits plus seven bits in each of up to eight more bytes.
+		 */
+		if (packet->payload.cyc.value >> 61)
+			return -pte_bad_packet;
+
 		ctc = (uint8_t) packet->payload.cyc.value;
 		ctc <<= pt_opm_cyc_shr;
 
-- 
2.43.0


From 89291a57cc076dde1e938fd0c3204daa0cc09bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 03/17] fix: make pt_sync_backward progress across back-to-back
 PSBs

---
 libipt/src/pt_sync.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_sync.c b/libipt/src/pt_sync.c
index 59a8892..71f03ca 100644
--- a/libipt/src/pt_sync.c
+++ b/libipt/src/pt_sync.c
@@ -210,11 +210,12 @@ int pt_sync_forward(const uint8_t **sync, const uint8_t *pos,
 int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		    const struct pt_config *config)
 {
-	const uint8_t *begin, *end;
+	const uint8_t *begin, *end, *start;
 
 	if (!sync || !pos || !config)
 		return -pte_internal;
 
+	start = pos;
 	begin = config->begin;
 	end = config->end;
 
@@ -243,6 +244,12 @@ int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		if (!next)
 			continue;
 
+		/* In back-to-back PSB, we find the last one, which may be at or
+		 * after @start.  Ignore it.
+		 */
+		if (start <= next)
+			continue;
+
 		*sync = next;
 		return 0;
 	}
-- 
2.43.0


From 2fe92bfa9185a249bb2b6d063f05383921c89fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 04/17] fix: return the query status from pt_qry_sync_backward

---
 libipt/src/pt_query_decoder.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index 11b2b66..8e7b473 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -297,7 +297,7 @@ int pt_qry_sync_forward(struct pt_query_decoder *decoder, uint64_t *ip)
 int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, status;
 
 	if (!decoder)
 		return -pte_invalid;
@@ -331,13 +331,13 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 
 		sync = pos;
 
-		errcode = pt_qry_start(decoder, ip);
-		if (errcode < 0) {
+		status = pt_qry_start(decoder, ip);
+		if (status < 0) {
 			/* Ignore incomplete trace segments at the end.  We
 			 * need a full PSB+ to start decoding.
 			 */
-			if (errcode != -pte_eos)
-				return errcode;
+			if (status != -pte_eos)
+				return status;
 
 			continue;
 		}
@@ -350,7 +350,7 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 			break;
 	}
 
-	return 0;
+	return status;
 }
 
 int pt_qry_sync_set(struct pt_query_decoder *decoder, uint64_t *ip,
-- 
2.43.0


From 4e26735935285c61a0bdbe08ac403a293161d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 05/17] fix: report end of stream from pt_pkt_sync_forward at
 the trace end

---
 libipt/src/pt_packet_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index 7e0a764..12c643e 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -116,6 +116,10 @@ int pt_pkt_sync_forward(struct pt_packet_decoder *decoder)
 
 	pos -= space;
 
+	/* There is nothing to find if we already were at the very end. */
+	if (decoder->config.end < pos)
+		return -pte_eos;
+
 	errcode = pt_sync_forward(&sync, pos, &decoder->config);
 	if (errcode < 0)
 		return errcode;
-- 
2.43.0


From b2c881950d5a9c0ed82f91f4c768467e96551887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 06/17] fix: refuse to load sideband file ranges beyond the end
 of the file

The range's size wrapped around to a huge value.
---
 sideband/src/pt_sb_file.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sideband/src/pt_sb_file.c b/sideband/src/pt_sb_file.c
index 4591bcc..7950eb5 100644
--- a/sideband/src/pt_sb_file.c
+++ b/sideband/src/pt_sb_file.c
@@ -68,6 +68,11 @@ int pt_sb_file_load(void **pbuffer, size_t *psize, const char *filename,
 		goto out_file;
 
 	fbegin = (long) begin;
+	if (fsize < fbegin) {
+		fclose(file);
+		return -pte_invalid;
+	}
+
 	if (!end)
 		fend = fsize;
 	else {
-- 
2.43.0


From 0a4c034b36789eb070d974c55815580f0782583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 07/17] fix: refuse perf time shifts that exceed the width of
 the time

Shifting by more than 63 bits is undefined.
---
 pevent/include/pevent.h | 2 ++
 pevent/src/pevent.c     | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pevent/include/pevent.h b/pevent/include/pevent.h
index c90d135..1e8a42e 100644
--- a/pevent/include/pevent.h
+++ b/pevent/include/pevent.h
@@ -234,6 +234,7 @@ static inline void pev_event_init(struct pev_event *event)
  * Returns zero on success, a negative error code otherwise.
  * Returns -pte_bad_config if @config->size is too small.
  * Returns -pte_bad_config if @config->time_mult is zero.
+ * Returns -pte_bad_config if @config->time_shift exceeds 63.
  * Returns -pte_internal if @tsc or @config is NULL.
  */
 extern int pev_time_to_tsc(uint64_t *tsc, uint64_t time,
@@ -246,6 +247,7 @@ extern int pev_time_to_tsc(uint64_t *tsc, uint64_t time,
  * Returns zero on success, a negative error code otherwise.
  * Returns -pte_bad_config if @config->size is too small.
  * Returns -pte_bad_config if @config->time_mult is zero.
+ * Returns -pte_bad_config if @config->time_shift exceeds 63.
  * Returns -pte_internal if @time or @config is NULL.
  */
 extern int pev_time_from_tsc(uint64_t *time, uint64_t tsc,
diff --git a/pevent/src/pevent.c b/pevent/src/pevent.c
index 48a003f..8d73d6b 100644
--- a/pevent/src/pevent.c
+++ b/pevent/src/pevent.c
@@ -56,7 +56,7 @@ int pev_time_to_tsc(uint64_t *tsc, uint64_t time,
 	time_mult = config->time_mult;
 	time_zero = config->time_zero;
 
-	if (!time_mult)
+	if (!time_mult || time_shift >= 64)
 		return -pte_bad_config;
 
 	time -= time_zero;
@@ -90,7 +90,7 @@ int pev_time_from_tsc(uint64_t *time, uint64_t tsc,
 	time_mult = config->time_mult;
 	time_zero = config->time_zero;
 
-	if (!time_mult)
+	if (!time_mult || time_shift >= 64)
 		return -pte_bad_config;
 
 	quot = tsc >> time_shift;
-- 
2.43.0


From b6d451191aab3b9a277e7edd0daf423623d70d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 08/17] fix: copy split image sections as they are

A section that was split by a later addition is copied with its offset and
size; the copy used to start over at the beginning of the file section.
---
 libipt/src/pt_image.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index bcc1e58..8c5aaa5 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -133,21 +133,28 @@ const char *pt_image_name(const struct pt_image *image)
 	return image->name;
 }
 
-int pt_image_add(struct pt_image *image, struct pt_section *section,
-		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+/* Add (a part of) a section to an image.
+ *
+ * Adds @size bytes starting at @offset in @section to @image at @vaddr in
+ * @asid.
+ *
+ * Returns zero on success, a negative error code otherwise.
+ */
+static int pt_image_add_part(struct pt_image *image, struct pt_section *section,
+			     const struct pt_asid *asid, uint64_t vaddr,
+			     uint64_t offset, uint64_t size, int isid)
 {
 	struct pt_section_list **list, *next, *removed, *new;
-	uint64_t size, begin, end;
+	uint64_t begin, end;
 	int errcode;
 
 	if (!image || !section)
 		return -pte_internal;
 
-	size = pt_section_size(section);
 	begin = vaddr;
 	end = begin + size;
 
-	next = pt_mk_section_list(section, asid, begin, 0ull, size, isid);
+	next = pt_mk_section_list(section, asid, begin, offset, size, isid);
 	if (!next)
 		return -pte_nomem;
 
@@ -245,6 +252,13 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 	return 0;
 }
 
+int pt_image_add(struct pt_image *image, struct pt_section *section,
+		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+{
+	return pt_image_add_part(image, section, asid, vaddr, 0ull,
+				 pt_section_size(section), isid);
+}
+
 int pt_image_remove(struct pt_image *image, struct pt_section *section,
 		    const struct pt_asid *asid, uint64_t vaddr)
 {
@@ -339,10 +353,11 @@ int pt_image_copy(struct pt_image *image, const struct pt_image *src)
 	for (list = src->sections; list; list = list->next) {
 		int errcode;
 
-		errcode = pt_image_add(image, list->section.section,
-				       &list->section.asid,
-				       list->section.vaddr,
-				       list->isid);
+		errcode = pt_image_add_part(image, list->section.section,
+					    &list->section.asid,
+					    list->section.vaddr,
+					    list->section.offset,
+					    list->section.size, list->isid);
 		if (errcode < 0)
 			ignored += 1;
 	}
-- 
2.43.0


From 6581cb67421e2fe0b73735c6871878b373a761a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 09/17] fix: report image section identifiers beyond 16 bits as
 not in the cache

---
 libipt/src/pt_image_section_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index 4310313..afb97ee 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -767,7 +767,7 @@ int pt_iscache_lookup(struct pt_image_section_cache *iscache,
 
 	isid -= 1;
 	if (isid > UINT16_MAX)
-		return -pte_internal;
+		return -pte_bad_image;
 
 	index = (uint16_t) isid;
 
-- 
2.43.0


From 0f9fbe45e774c2db9ae402870234c413ce01d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 10/17] fix: fail to allocate an image section cache that
 cannot be initialized

---
 libipt/src/pt_image_section_cache.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index afb97ee..eaa84e2 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -53,8 +53,10 @@ int pt_iscache_init(struct pt_image_section_cache *iscache, const char *name)
 		int errcode;
 
 		errcode = mtx_init(&iscache->lock, mtx_plain);
-		if (errcode != thrd_success)
+		if (errcode != thrd_success) {
+			free(iscache->name);
 			return -pte_bad_lock;
+		}
 	}
 #endif /* defined(FEATURE_THREADS) */
 
@@ -850,10 +852,17 @@ int pt_iscache_clear(struct pt_image_section_cache *iscache)
 struct pt_image_section_cache *pt_iscache_alloc(const char *name)
 {
 	struct pt_image_section_cache *iscache;
+	int errcode;
 
 	iscache = malloc(sizeof(*iscache));
-	if (iscache)
-		pt_iscache_init(iscache, name);
+	if (!iscache)
+		return NULL;
+
+	errcode = pt_iscache_init(iscache, name);
+	if (errcode < 0) {
+		free(iscache);
+		return NULL;
+	}
 
 	return iscache;
 }
-- 
2.43.0


From 1d291e1b83f09a0e9a971079fa8df92052894fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 11/17] fix: libipt, event: handle every MODE.EXEC event at
 TIP.PGD

A MODE.EXEC binding to TIP.PGD may result in an iflags or in an internal
ignore event.  Both ended in -pte_bad_context.
---
 libipt/src/pt_event_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index ba4b338..d7f3343 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -3140,6 +3140,7 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 
 		fallthrough;
 	case ptev_exec_mode:
+	case ptev_iflags:
 		/* The MODE.EXEC might come with a standalone TIP.PGD or with a
 		 * FUP + TIP.PGD pair.  In both cases, we won't really reach
 		 * the IP in the TIP.PGD's payload since tracing is disabled as
@@ -3164,6 +3165,11 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 		ev->ip_suppressed = 1;
 		break;
 
+	case ptev_ignore:
+		decoder->event = NULL;
+
+		return pt_evt_decode_tip_pgd(decoder, packet);
+
 	default:
 		errcode = -pte_bad_context;
 		break;
-- 
2.43.0


From 719d07ceead816958b5a1c4608c15f7f29a6b64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 12/17] fix: libipt, event: find the async branch event after
 dequeueing

When other events are pending, e.g. an MWAIT waiting for EXSTOP, dequeueing
the async branch event moves it and the swap picks up an unrelated event,
resulting in -pte_internal.
---
 libipt/src/pt_event_decoder.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index d7f3343..6a1699b 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2892,18 +2892,23 @@ static int pt_evt_decode_tip_event(struct pt_event_decoder *decoder)
 		if (!ev)
 			return -pte_internal;
 
-		/* Swap the asynchronous branch event with the first event. */
-		if (ev != async) {
+		/* Swap the asynchronous branch event with the first event.
+		 *
+		 * Dequeueing may have moved events so we need to search again.
+		 */
+		if (ev->type != ptev_async_branch) {
 			struct pt_event tmp;
 
+			async = pt_evq_find(&decoder->evq, evb_tip,
+					    ptev_async_branch);
+			if (!async)
+				return -pte_internal;
+
 			tmp = *async;
 			*async = *ev;
 			*ev = tmp;
 		}
 
-		if (ev->type != ptev_async_branch)
-			return -pte_internal;
-
 		decoder->event = ev;
 
 		errcode = pt_evt_event_ip(&ev->variant.async_branch.to, ev,
-- 
2.43.0


From 176da8aec78de550ae736c06073820a81872f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 13/17] fix: libipt, event: diagnose two FUPs before a TIP as
 bad context

This is an error in the trace, not in the decoder.
---
 libipt/src/pt_event_decoder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 6a1699b..0f0ffb6 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2966,7 +2966,8 @@ static int pt_evt_decode_tip(struct pt_event_decoder *decoder,
 
 	switch (ev->type) {
 	case ptev_async_branch:
-		return -pte_internal;
+		/* We got more than one FUP for this TIP. */
+		return -pte_bad_context;
 
 	case ptev_exec_mode:
 		errcode = pt_evt_event_ip(&ev->variant.exec_mode.ip, ev,
-- 
2.43.0


From 3430037b91fff2632b2210e0599d9b64a15b0173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 14/17] fix: libipt, event: diagnose an unexpected CFE after
 EVD as bad context

This is an error in the trace, not in the decoder.
---
 libipt/src/pt_event_decoder.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 0f0ffb6..c7b1760 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -3593,9 +3593,9 @@ static int pt_evt_decode_cfe(struct pt_event_decoder *decoder,
 		return pt_evt_fetch_packet(decoder);
 	}
 
-	/* Decoding EVD is supposed to only enqueue supported CFE types. */
+	/* An EVD must be followed by a CFE of the type it provides data for. */
 	if (ev)
-		return -pte_internal;
+		return -pte_bad_context;
 
 	/* Ignore unknown CFE types.
 	 *
-- 
2.43.0


From 143bea876acd4ae088a9b602d60b49c982617be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 15/17] fix: libipt, event: skip unknown packets when
 recovering for APL12

When searching for the FUP, unknown packets are skipped.  Recovering at that
FUP must skip them, as well, instead of returning -pte_internal.
---
 libipt/src/pt_event_decoder.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index c7b1760..ff78f57 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2104,7 +2104,6 @@ static int pt_evt_recover_ovf_at_offset(struct pt_event_decoder *decoder,
 			return -pte_internal;
 
 		case ppt_invalid:
-		case ppt_unknown:
 			/* We should not encounter those.
 			 *
 			 * We shouldn't have gotten here with those packets in
-- 
2.43.0


From d209a82a6b905511f518bc59bfba21e86efc21d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 16/17] fix: libipt, event: do not skip a fetched PSB on sync
 forward

The event decoder fetches packets ahead of time.  When synchronizing forward
with the next PSB already fetched but not processed, that PSB was missed.
---
 libipt/src/pt_event_decoder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index ff78f57..8535890 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1470,6 +1470,14 @@ int pt_evt_sync_forward(struct pt_event_decoder *decoder)
 	if (!decoder)
 		return -pte_invalid;
 
+	/* We fetch packets ahead of time.  Don't miss a PSB that we fetched but
+	 * did not process, yet.
+	 */
+	if (decoder->packet.type == ppt_psb) {
+		decoder->pacdec.pos -= decoder->packet.size;
+		decoder->packet.size = 0;
+	}
+
 	errcode = pt_evt_reset(decoder);
 	if (errcode < 0)
 		return errcode;
-- 
2.43.0


From 48a69e62e8a8e2161481a3678e6bb0fadf96eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:39 +0000
Subject: [PATCH 17/17] fix: VMCLEAR and VMXON are not VMPTRLD

They share the opcode 0f c7 /6 and differ only in their mandatory prefix.
They were classified as VMPTRLD, so that a VMCS event was bound to them.
---
 libipt/src/pt_ild.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_ild.c b/libipt/src/pt_ild.c
index 6e3c970..1ee3495 100644
--- a/libipt/src/pt_ild.c
+++ b/libipt/src/pt_ild.c
@@ -1447,7 +1447,8 @@ static int pt_instruction_decode(struct pt_insn *insn, struct pt_insn_ext *iext,
 		return 0;
 
 	case 0xc7:
-		if (map == PTI_MAP_1 &&
+		/* VMCLEAR (0x66) and VMXON (0xf3) only differ in the prefix. */
+		if (map == PTI_MAP_1 && !ild->osz && !ild->last_f2f3 &&
 		    pti_get_modrm_mod(ild) != 3 &&
 		    pti_get_modrm_reg(ild) == 6)
 			iext->iclass = PTI_INST_VMPTRLD;
-- 
2.43.0

