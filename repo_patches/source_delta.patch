From d1c0754f8274c089913802f46759974c25ba0e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 01/43] fix: dnstable_entry_get_rdata: refuse the index one
 past the last rdata

It reached rdata_vec_value() with i == size, which aborts on its assertion
instead of returning dnstable_res_failure.
---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 20ecf04..4aff152 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -997,7 +997,7 @@ dnstable_entry_get_rdata(struct dnstable_entry *e, size_t i,
 	if (e->e_type == DNSTABLE_ENTRY_TYPE_RRSET ||
 	    e->e_type == DNSTABLE_ENTRY_TYPE_RDATA)
 	{
-		if (i > rdata_vec_size(e->rdatas))
+		if (i >= rdata_vec_size(e->rdatas))
 			return (dnstable_res_failure);
 		*rdata = rdata_vec_value(e->rdatas, i)->data;
 		*len_rdata = rdata_vec_value(e->rdatas, i)->len;
-- 
2.43.0


From eb706909a6480a03de6bb21b877b440d4f576d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 02/43] fix: rrtype_union_check: do not read past the last byte
 of a bitmap block

A block of block_len bytes has offsets 0..block_len-1; the check let
offset block_len through, reading the next block's window number or one
byte beyond the value.
---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 4aff152..e60c9ab 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1200,7 +1200,7 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 		}
 
 		/* at the right block; are there enough bytes in this block? */
-		if (byte > block_len)
+		if (byte >= block_len)
 			return false;
 		return (rrtype_map[byte] & net_order_bit);
 	}
-- 
2.43.0


From 80119b4b20acdd6f0bc26b9b87f83d3e32ed5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 03/43] fix: do not read past the end of entries when decoding
 varints

A zero-length TIME_RANGE value (left by older mergers) and any truncated
key or value made the decoders read beyond the buffer libmtbl returned.
Bound every varint by the bytes that remain.
---
 dnstable/dnstable-private.h |  4 ++++
 dnstable/entry.c            | 21 +++++++++-------
 dnstable/query.c            | 12 ++++++----
 dnstable/triplet.c          | 48 +++++++++++++++++++++++++++----------
 4 files changed, 60 insertions(+), 25 deletions(-)

diff --git a/dnstable/dnstable-private.h b/dnstable/dnstable-private.h
index 142fc97..ad4aa31 100644
--- a/dnstable/dnstable-private.h
+++ b/dnstable/dnstable-private.h
@@ -83,6 +83,10 @@ triplet_pack(uint8_t *, uint64_t, uint64_t, uint64_t);
 dnstable_res
 triplet_unpack(const uint8_t *, size_t, uint64_t *, uint64_t *, uint64_t *);
 
+/* Decode a varint from at most len_buf bytes; returns its length, or 0 if it does not fit. */
+size_t
+varint32_unpack(const uint8_t *buf, size_t len_buf, uint32_t *val);
+
 size_t
 pair_pack(uint8_t *, uint64_t, uint64_t);
 
diff --git a/dnstable/entry.c b/dnstable/entry.c
index e60c9ab..d5c5922 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -631,7 +631,7 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	const uint8_t *p = buf;
 	const uint8_t *end = buf + len_buf;
 	uint8_t name[WDNS_MAXLEN_NAME];
-	size_t len_name;
+	size_t len_name, len;
 
 	/* rrname */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -646,9 +646,10 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	len = varint32_unpack(p, end - p, &e->rrtype);
+	if (len == 0)
 		return (dnstable_res_failure);
+	p += len;
 
 	/* bailiwick */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -667,7 +668,10 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		wdns_rdata_t *rdata;
 		uint32_t len_rdata;
 
-		p += mtbl_varint_decode32(p, &len_rdata);
+		len = varint32_unpack(p, end - p, &len_rdata);
+		if (len == 0)
+			return (dnstable_res_failure);
+		p += len;
 		if (len_rdata > USHRT_MAX)
 			return (dnstable_res_failure);
 
@@ -723,7 +727,7 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	const uint8_t *data;
 	const uint8_t *slice;
 	uint8_t name[WDNS_MAXLEN_NAME];
-	size_t len_name, len_slice;
+	size_t len_name, len_slice, len;
 	wdns_rdata_t *rdata;
 
 	if (len_buf < sizeof(uint16_t))
@@ -741,9 +745,10 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	len = varint32_unpack(p, end - p, &e->rrtype);
+	if (len == 0)
 		return (dnstable_res_failure);
+	p += len;
 
 	/* rrname */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -803,7 +808,7 @@ decode_version(struct dnstable_entry *e,
 		return (dnstable_res_failure);
 
 	e->v_type = key[0];
-	len = mtbl_varint_decode32(val, &e->version);
+	len = varint32_unpack(val, len_val, &e->version);
 	if (len == len_val)
 		return (dnstable_res_success);
 
diff --git a/dnstable/query.c b/dnstable/query.c
index eb74967..e15515e 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -769,7 +769,7 @@ filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 		assert(0);
 	}
 
-	if (mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
+	if (varint32_unpack(&key[len+1], len_key - (len+1), &rrtype) == 0)
 		return (mtbl_res_success);
 
 	if (rrtype == it->query->rrtype)
@@ -805,7 +805,8 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len = rdlen;
-	mtbl_varint_decode32(&key[len+1], &rrtype);
+	if (varint32_unpack(&key[len+1], len_key - (len+1), &rrtype) == 0)
+		return (mtbl_res_success);
 
 	switch(rrtype) {
 	CASE_RDATA_NAME_TYPE_ALL:
@@ -823,7 +824,7 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 {
 	struct query_iter *it = user;
 	struct dnstable_query *q = it->query;
-	size_t len, len_name;
+	size_t len, len_name, len_rrtype;
 	uint32_t rrtype;
 
 	*match = false;
@@ -833,7 +834,10 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len ++;
-	len += mtbl_varint_decode32(&key[len], &rrtype);
+	len_rrtype = varint32_unpack(&key[len], len_key - len, &rrtype);
+	if (len_rrtype == 0)
+		return (mtbl_res_success);
+	len += len_rrtype;
 	if (len >= len_key)
 		return (mtbl_res_success);
 
diff --git a/dnstable/triplet.c b/dnstable/triplet.c
index ebb23d0..5535471 100644
--- a/dnstable/triplet.c
+++ b/dnstable/triplet.c
@@ -26,18 +26,44 @@ triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
 	return (buf - orig_buf);
 }
 
-dnstable_res
-triplet_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2, uint64_t *val3)
+size_t
+varint32_unpack(const uint8_t *buf, size_t len_buf, uint32_t *val)
+{
+	if (mtbl_varint_length_packed(buf, len_buf) == 0)
+		return (0);
+	return (mtbl_varint_decode32(buf, val));
+}
+
+static size_t
+varint64_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val)
+{
+	if (mtbl_varint_length_packed(buf, len_buf) == 0)
+		return (0);
+	return (mtbl_varint_decode64(buf, val));
+}
+
+static dnstable_res
+values_unpack(const uint8_t *buf, size_t len_buf, uint64_t **vals, size_t n_vals)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val3);
-	if (bytes_read == len_buf)
+	for (size_t i = 0; i < n_vals; i++) {
+		size_t len = varint64_unpack(buf, len_buf, vals[i]);
+		if (len == 0)
+			return (dnstable_res_failure);
+		buf += len;
+		len_buf -= len;
+	}
+	if (len_buf == 0)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
 }
 
+dnstable_res
+triplet_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2, uint64_t *val3)
+{
+	uint64_t *vals[] = { val1, val2, val3 };
+	return (values_unpack(buf, len_buf, vals, 3));
+}
+
 size_t
 pair_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2)
 {
@@ -50,10 +76,6 @@ pair_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2)
 dnstable_res
 pair_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	if (bytes_read == len_buf)
-		return (dnstable_res_success);
-	return (dnstable_res_failure);
+	uint64_t *vals[] = { val1, val2 };
+	return (values_unpack(buf, len_buf, vals, 2));
 }
-- 
2.43.0


From 7e74a6c44eb63703cea0a9b3cfe7e1a9d0c78381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 04/43] fix: query iterators: keep the jump target valid when
 limits are removed

An iterator created with a timeout or deadline keeps its timeout source.
After dnstable_query_set_timeout(q, NULL) and set_deadline(q, NULL) the
next step skipped setjmp(), and the timeout source jumped into a stack
frame that had returned.
---
 dnstable/query.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index e15515e..4d2d427 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -966,7 +966,13 @@ query_iter_set_deadline(struct query_iter *it)
 	struct dnstable_query *q = it->query;
 
 	if (!q->do_timeout) {
-		it->deadline = q->deadline;
+		if (q->do_deadline) {
+			it->deadline = q->deadline;
+		} else {
+			/* Both limits were removed after the iterator was created. */
+			it->deadline.tv_sec = LONG_MAX;
+			it->deadline.tv_nsec = 0;
+		}
 		return;
 	}
 
@@ -981,9 +987,8 @@ static dnstable_res
 query_iter_next(void *clos, struct dnstable_entry **ent)
 {
 	struct query_iter *it = (struct query_iter *) clos;
-	struct dnstable_query *q = it->query;
 
-	if (q->do_timeout || q->do_deadline) {
+	if (it->timeout != NULL) {
 		query_iter_set_deadline(it);
 		if (setjmp(it->to_env) != 0)
 			return (dnstable_res_timeout);
@@ -1331,11 +1336,10 @@ static dnstable_res
 query_iter_next_name_indirect(void *clos, struct dnstable_entry **ent, uint8_t type_byte)
 {
 	struct query_iter *it = (struct query_iter *) clos;
-	struct dnstable_query *q = it->query;
 	const uint8_t *key, *val;
 	size_t len_key, len_val;
 
-	if (q->do_timeout || q->do_deadline) {
+	if (it->timeout != NULL) {
 		query_iter_set_deadline(it);
 		if (setjmp(it->to_env) != 0)
 			return (dnstable_res_timeout);
-- 
2.43.0


From b646f2bc995e890741fbf6d4a086761edcf243d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 05/43] fix: apply a query's offset to every iterator created
 from it

The offset filter counted down the query's own offset, so only the first
iterator skipped rows and later ones returned them again.
---
 dnstable/query.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 4d2d427..16187c9 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -112,6 +112,7 @@ struct query_iter {
 	/* remove_strict and possibly ljoin applied in between the time filters. */
 	struct filter_mtbl	*filter_time;
 	struct filter_mtbl	*filter_offset;
+	uint64_t		offset;		/* rows still to skip */
 	struct {
 		uint64_t fileset_merged;
 		uint64_t fileset_files;
@@ -946,12 +947,11 @@ filter_offset(void *user, struct mtbl_iter *seek_iter,
 	      bool *match)
 {
 	struct query_iter *it = user;
-	struct dnstable_query *q = it->query;
 
 	*match = true;
-	if (q->offset > 0) {
+	if (it->offset > 0) {
 		*match = false;
-		q->offset--;
+		it->offset--;
 	}
 	return (mtbl_res_success);
 }
@@ -1804,6 +1804,7 @@ dnstable_query_iter_common(struct query_iter *it)
 
 	/* Seeing if we've hit the user supplied offset is always the first check */
 	if (q->offset > 0) {
+		it->offset = q->offset;
 		FILTER_SET(filter_offset, source);
 	}
 
-- 
2.43.0


From 4457f3d3dbe6f1b3f2fdcb069d79f86e3a33f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 06/43] fix: remove_iter_free: release the iterator's copies of
 its key bounds

---
 dnstable/query_mtbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/query_mtbl.c b/dnstable/query_mtbl.c
index 951af15..e4717c3 100644
--- a/dnstable/query_mtbl.c
+++ b/dnstable/query_mtbl.c
@@ -727,6 +727,8 @@ remove_iter_free(void *impl)
 		mtbl_iter_destroy(&rit->entries[i].it);
 	}
 	free(rit->entries);
+	free(rit->key);
+	free(rit->key2);
 
 	free(rit);
 }
-- 
2.43.0


From 7c34f3124cf0396a9c7362af086559fbb5a384fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 07/43] fix: dnstable_reader_iter*: work on readers opened from
 a set file

Only dnstable_reader_init() sets r->source; iterating a reader made by
dnstable_reader_init_setfile() dereferenced NULL.
---
 dnstable/reader.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dnstable/reader.c b/dnstable/reader.c
index ca39a15..0bcab29 100644
--- a/dnstable/reader.c
+++ b/dnstable/reader.c
@@ -73,11 +73,17 @@ dnstable_reader_destroy(struct dnstable_reader **r)
 	}
 }
 
+static const struct mtbl_source *
+reader_source(struct dnstable_reader *r)
+{
+	return (r->fs != NULL ? mtbl_fileset_source(r->fs) : r->source);
+}
+
 struct dnstable_iter *
 dnstable_reader_iter(struct dnstable_reader *r)
 {
 	struct reader_iter *it = my_calloc(1, sizeof(*it));
-	it->m_it = mtbl_source_iter(r->source);
+	it->m_it = mtbl_source_iter(reader_source(r));
 	return (dnstable_iter_init(reader_iter_next, reader_iter_free, it));
 }
 
@@ -143,7 +149,7 @@ reader_iter_prefix(struct dnstable_reader *r, uint8_t prefix_byte)
 {
 	uint8_t prefix[] = { prefix_byte };
 	struct reader_iter *it = my_calloc(1, sizeof(*it));
-	it->m_it = mtbl_source_get_prefix(r->source, prefix, 1);
+	it->m_it = mtbl_source_get_prefix(reader_source(r), prefix, 1);
 	return (dnstable_iter_init(reader_iter_next, reader_iter_free, it));
 }
 
-- 
2.43.0


From d2398192e87b00d4b901a72f0a3bfd1e630d01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 08/43] fix: filter_rrtype_ip: do not compare beyond the end of
 a short key

The key is only known to hold the address, not the bytes of the type that
follow in the seek key.
---
 dnstable/query.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 16187c9..33f156a 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1146,7 +1146,7 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		add_rrtype_to_key(seek_key, it->query->rrtype);
 
 		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key),
-					key, ubuf_size(seek_key));
+					key, len_key < ubuf_size(seek_key) ? len_key : ubuf_size(seek_key));
 		if (ret < 0) {
 			/*
 			 * If the start key sorts before the current key, the
-- 
2.43.0


From e306d3ef9a2e94065b896bdbcf1abd173dc6e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 09/43] fix: ip4_lower, ip4_upper: compute the range of a
 zero-length prefix

Shifting an int by 32 is undefined; a search for 0.0.0.0/0 covered a
single address.
---
 libmy/ip_arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..d090420 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32(~(uint32_t)((1ULL << (32 - prefix_len)) - 1));
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32((uint32_t)((1ULL << (32 - prefix_len)) - 1));
 	memcpy(out, &addr, 4);
 }
 
-- 
2.43.0


From fdb3ec3782d7ce25f35c8d8c7647ecef31cd6042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 10/43] fix: refuse negative IP prefix lengths

They passed the range check and were then used as shift counts.
---
 dnstable/query.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 33f156a..d6f10cf 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -298,7 +298,8 @@ query_set_data_rdata_ip_prefix(struct dnstable_query *q, const char *data)
 	plen = strtol(prefix_length, &endptr, 10);
 	if (errno != 0 || *endptr != '\0') goto out;
 
-	if ((len_ip == 4 && plen > 32) ||
+	if (plen < 0 ||
+	    (len_ip == 4 && plen > 32) ||
 	    (len_ip == 16 && plen > 128))
 	{
 		res = dnstable_res_failure;
-- 
2.43.0


From 704121ce278567c85cba5e681ba5efc51942e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 11/43] fix: forget the length of raw rdata along with the
 rdata

A refused or cleared value left the old length next to a NULL pointer,
which the next query copied from.
---
 dnstable/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index d6f10cf..736fe7c 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -240,6 +240,7 @@ static dnstable_res
 query_set_data_rdata_raw(struct dnstable_query *q, const char *data)
 {
 	my_free(q->rdata);
+	q->len_rdata = 0;
 	if (data == NULL)
 		return (dnstable_res_success);
 	return hex_decode(data, &q->rdata, &q->len_rdata);
-- 
2.43.0


From cb1500633121a7f4624b4d269d169ca22e067924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 12/43] fix: dnstable_entry_decode: refuse entries of unknown
 type

They were returned as RRset entries without name or data.
---
 dnstable/entry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index d5c5922..1fe3a93 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -856,6 +856,8 @@ dnstable_entry_decode(const uint8_t *key, size_t len_key,
 		e->e_type = DNSTABLE_ENTRY_TYPE_VERSION;
 		if (decode_version(e, key+1, len_key-1, val, len_val) != dnstable_res_success) goto err;
 		break;
+	default:
+		goto err;
 	}
 
 	return (e);
-- 
2.43.0


From 1e7e714b7e59b6f471713d075470c0e8a2e154e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 13/43] fix: filter_rrtype_ip: stop at the end of the key when
 copying labels

Foreign rdata whose last purported label ended with the key made the next
round read one byte past it.
---
 dnstable/query.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 736fe7c..8754257 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1220,7 +1220,12 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		}
 
 		for (;;) {
-			uint8_t llen = key[ubuf_size(seek_key)];
+			uint8_t llen;
+
+			/* The last label ended exactly where the key does. */
+			if (len_key <= ubuf_size(seek_key))
+				return (mtbl_res_success);
+			llen = key[ubuf_size(seek_key)];
 
 			/*
 			 * Note: the ENTRY_TYPE_RDATA has 5 fields. We enter
-- 
2.43.0


From e2a75cb6822dc85b027420a0fe2e5a5d7226f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 14/43] fix: my_fileset_reload: retry a setfile that could not
 be read

The inode and mtime of the setfile were recorded before it was opened, so a
reload that failed to open it lost the update for good, and a read error was
taken for the end of the setfile, unloading every file named after it.
---
 libmy/my_fileset.c | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..7e6e779 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -60,23 +60,17 @@ path_exists(const char *path)
 }
 
 static bool
-setfile_updated(struct my_fileset *fs)
+setfile_updated(struct my_fileset *fs, struct stat *ss)
 {
-	struct stat ss;
 	int ret;
 
-	ret = stat(fs->setfile, &ss);
+	ret = stat(fs->setfile, ss);
 	if (ret < 0) {
 		fprintf(stderr, "%s: stat('%s') failed: %s\n",
 			__func__, fs->setfile, strerror(errno));
 		return (false);
 	}
-	if (fs->last_ino != ss.st_ino || fs->last_mtime != ss.st_mtime) {
-		fs->last_ino = ss.st_ino;
-		fs->last_mtime = ss.st_mtime;
-		return (true);
-	}
-	return (false);
+	return (fs->last_ino != ss->st_ino || fs->last_mtime != ss->st_mtime);
 }
 
 static int
@@ -161,9 +155,11 @@ my_fileset_reload(struct my_fileset *fs)
 	FILE *fp;
 	char *fname, *line = NULL;
 	size_t len = 0;
+	struct stat ss;
+	bool failed;
 	ubuf *u;
 
-	if (!setfile_updated(fs))
+	if (!setfile_updated(fs, &ss))
 		return;
 
 	fp = fopen(fs->setfile, "r");
@@ -198,7 +194,29 @@ my_fileset_reload(struct my_fileset *fs)
 		}
 	}
 	free(line);
+	failed = ferror(fp) != 0;
 	fclose(fp);
+	ubuf_destroy(&u);
+
+	if (failed) {
+		/* keep the old set, and read the setfile again next time */
+		for (size_t i = 0; i < entry_vec_size(new_entries); i++) {
+			ent = entry_vec_value(new_entries, i);
+			entptr = fetch_entry(fs->entries, ent->fname);
+			if (entptr != NULL)
+				(*entptr)->keep = false;
+			else if (fs->unload)
+				fs->unload(fs, ent->fname, ent->ptr);
+			free(ent->fname);
+			free(ent);
+		}
+		entry_vec_destroy(&new_entries);
+		return;
+	}
+
+	/* only a setfile that has been read counts as seen */
+	fs->last_ino = ss.st_ino;
+	fs->last_mtime = ss.st_mtime;
 
 	qsort(entry_vec_data(new_entries),
 	      entry_vec_size(new_entries),
@@ -215,7 +233,6 @@ my_fileset_reload(struct my_fileset *fs)
 	}
 	entry_vec_destroy(&fs->entries);
 	fs->entries = new_entries;
-	ubuf_destroy(&u);
 }
 
 bool
-- 
2.43.0


From b60a2cf49a69581ee7208c77e8eae21426a402e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 15/43] fix: my_fileset_reload: load a file named twice only
 once

A duplicate line made two entries; after the next reload both shared one
pointer, which was then unloaded twice.
---
 libmy/my_fileset.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 7e6e779..e50221f 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -87,6 +87,16 @@ cmp_fileset_entry(const void *a, const void *b)
 	return (strcmp(fs0->fname, fs1->fname));
 }
 
+static bool
+has_entry(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 static struct fileset_entry **
 fetch_entry(entry_vec *entries, char *fname)
 {
@@ -176,7 +186,7 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
-		if (path_exists(fname)) {
+		if (path_exists(fname) && !has_entry(new_entries, fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
 				ent = my_calloc(1, sizeof(*ent));
-- 
2.43.0


From 4490003302b567becf9bafc48b6c049638b631b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 16/43] fix: spooldir_init: do not abort when another process
 makes the directory first

---
 libmy/spooldir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmy/spooldir.c b/libmy/spooldir.c
index 6c7306d..3aac746 100644
--- a/libmy/spooldir.c
+++ b/libmy/spooldir.c
@@ -75,6 +75,8 @@ path_mkdir(const char *path, mode_t mode)
 		return (true);
 	} else {
 		ret = mkdir(path, mode);
+		if (ret < 0 && errno == EEXIST && path_isdir(path))
+			return (true);	/* made by another process meanwhile */
 		if (ret < 0) {
 			perror("mkdir");
 			return (false);
-- 
2.43.0


From 3fe45e535083551133bca7e2872852405506ae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 17/43] fix: spooldir_next: do not unlink a file another
 process has claimed

The destination was unlinked before the rename was tried. When another process
had just moved the same file to the active directory, that deleted its file and
the rename then failed. rename() replaces an old destination by itself.
---
 libmy/spooldir.c | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/libmy/spooldir.c b/libmy/spooldir.c
index 3aac746..d0100f2 100644
--- a/libmy/spooldir.c
+++ b/libmy/spooldir.c
@@ -40,18 +40,6 @@ struct spooldir {
 	ubuf		*dname_incoming;
 };
 
-static bool
-path_exists(const char *path)
-{
-	struct stat sb;
-	int ret;
-
-	ret = stat(path, &sb);
-	if (ret < 0)
-		return (false);
-	return (true);
-}
-
 static bool
 path_isdir(const char *path)
 {
@@ -186,12 +174,6 @@ spooldir_next(struct spooldir *s)
 	ubuf_add_fmt(s->fname, "/%s", fname);
 	ubuf_cterm(s->fname);
 
-	if (path_exists(ubuf_cstr(s->fname))) {
-		fprintf(stderr, "%s: WARNING: unlinking destination path %s\n",
-			__func__, ubuf_cstr(s->fname));
-		unlink(ubuf_cstr(s->fname));
-	}
-
 	int rename_ret = rename(ubuf_cstr(src_fname), ubuf_cstr(s->fname));
 	if (rename_ret != 0) {
 		fprintf(stderr, "rename(%s, %s): %s\n",
-- 
2.43.0


From 877958287fec942dd8e745f4e887a146baccfe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 18/43] fix: my_rate_sleep: sleep on after a signal

An interrupted clock_nanosleep() let the event pass before its tick.
---
 libmy/my_rate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..01fe703 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -169,7 +169,8 @@ my_rate_sleep(struct my_rate *r)
 	if (ts_nanos(&til) > 0) {
 		/* do the sleep */
 #if HAVE_CLOCK_NANOSLEEP
-		clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL);
+		while (clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL) == EINTR)
+			;
 #else
 		struct timespec rel;
 		rel = r->next_tick;
-- 
2.43.0


From c474c22a7aaef0ca4c8936993eef33140afb4052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 19/43] fix: my_rate: keep the adjusted and the actual rate as
 fractions

As integers the adjusted rate could go down but, below 100 events per second,
never up again, since 1.01 times it was cut back to the same number. A rate of
1 went to 0, and a period of 1/0 seconds was converted to a timespec.
---
 libmy/my_rate.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 01fe703..792848e 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -25,7 +25,8 @@
 struct my_rate {
 	struct timespec next_tick, period, start;
 	uint64_t	count;
-	unsigned	adj_rate, rate, freq;
+	double		adj_rate;
+	unsigned	rate, freq;
 };
 
 static inline int64_t
@@ -64,7 +65,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 {
 	struct timespec elapsed;
 	double ratio;
-	unsigned actual_rate;
+	double actual_rate;
 
 	/* amount of time elapsed since first sleep */
 	elapsed = *now;
@@ -76,7 +77,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	actual_rate = r->count / (ts_nanos(&elapsed) / (1000000000 + 0.0));
 
 	/* simple ratio of nominal event rate and average event rate */
-	ratio = r->rate / (actual_rate + 0.0);
+	ratio = r->rate / actual_rate;
 
 	/* clamp this ratio to a small interval */
 	if (ratio < 0.99)
@@ -88,7 +89,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	r->adj_rate *= ratio;
 
 	/* calculate a new tick period based on the adjusted rate */
-	const double period = 1.0 / (r->adj_rate + 0.0);
+	const double period = 1.0 / r->adj_rate;
 	my_timespec_from_double(period, &r->period);
 }
 
-- 
2.43.0


From 626fab12f16eb132f31abf0956ba4c7f2ab565d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 20/43] fix: zonefile: stop reading at a missing SOA record and
 at read errors

read_soa() went on reading after the end of a file without records, and both
it and zonefile_read() after a read error, forever.
---
 libmy/zonefile.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..c9118e5 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -38,6 +38,10 @@ read_soa(struct zonefile *z)
 		case LDNS_STATUS_SYNTAX_TTL:
 		case LDNS_STATUS_SYNTAX_ORIGIN:
 			status = LDNS_STATUS_OK;
+			if (feof(z->fp) || ferror(z->fp)) {
+				status = LDNS_STATUS_ERR;
+				goto out;
+			}
 			break;
 		default:
 			goto out;
@@ -175,6 +179,10 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 		case LDNS_STATUS_SYNTAX_TTL:
 		case LDNS_STATUS_SYNTAX_ORIGIN:
 			status = LDNS_STATUS_OK;
+			if (ferror(z->fp)) {
+				status = LDNS_STATUS_ERR;
+				goto out;
+			}
 			break;
 		default:
 			goto out;
-- 
2.43.0


From 215fb94078571c82f30cc192d8d256478ab4d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 21/43] fix: zonefile_get_serial: keep the serial when the SOA
 record is read

The SOA record belongs to the caller once zonefile_read() has returned it;
the serial was looked up in the NULL pointer left behind.
---
 libmy/zonefile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index c9118e5..85f5097 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -20,6 +20,7 @@ struct zonefile {
 	ldns_rdf	*prev;
 	ldns_rr		*rr_soa;
 	uint32_t	ttl;
+	uint32_t	serial;
 	size_t		count;
 };
 
@@ -63,6 +64,7 @@ out:
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
+	z->serial = ldns_rdf2native_int32(ldns_rr_rdf(rr, 2));
 	return (LDNS_STATUS_OK);
 }
 
@@ -135,9 +137,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From 7b1fb0be81dd347ad71f31d28c927c4ce5caa961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 22/43] fix: zonefile_init_fname: free the handle when the file
 cannot be opened

---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 85f5097..3735072 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -89,8 +89,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		zonefile_destroy(&z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From 12ce823cb2c8d672684531329bb20e0cc2f17e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 23/43] fix: zonefile: keep an $ORIGIN given before the SOA
 record

The origin was replaced with the owner of the SOA record, and leaked. It is
only the default (compare ldns_zone_new_frm_fp_l()).
---
 libmy/zonefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 3735072..08f9dcb 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -62,7 +62,8 @@ out:
 
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
-	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
+	if (z->origin == NULL)
+		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
 	z->serial = ldns_rdf2native_int32(ldns_rr_rdf(rr, 2));
 	return (LDNS_STATUS_OK);
-- 
2.43.0


From 1d182ae234ecc8e87a50b79f85b48a3d31971ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 24/43] fix: zonefile_read: stay at the end after the closing
 SOA record

---
 libmy/zonefile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 08f9dcb..2f247f3 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -174,6 +174,7 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			if (ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA) {
 				ldns_rr_free(rr);
 				*out = NULL;
+				z->eof = true;
 				return (LDNS_STATUS_OK);
 			}
 			z->count++;
-- 
2.43.0


From 21e090265b5278f1d92f5051fd936110406e20fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 25/43] fix: dnstable_lookup: exit with a failure when standard
 output cannot be written

---
 src/dnstable_lookup.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index f285cff..0b9eb5a 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -634,5 +634,10 @@ main(int argc, char **argv)
 	if (m_reader != NULL)
 		mtbl_reader_destroy(&m_reader);
 
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "dnstable_lookup: error writing standard output\n");
+		exit(EXIT_FAILURE);
+	}
+
 	return (EXIT_SUCCESS);
 }
-- 
2.43.0


From d394aeb189ae9e114efba5611fd0ba79578a4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 26/43] fix: dnstable_dump: exit with a failure when standard
 output cannot be written

---
 src/dnstable_dump.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dnstable_dump.c b/src/dnstable_dump.c
index 7a9357c..2d1d6fa 100644
--- a/src/dnstable_dump.c
+++ b/src/dnstable_dump.c
@@ -223,5 +223,10 @@ main(int argc, char **argv)
 
 	argv_cleanup(args);
 
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "dnstable_dump: error writing standard output\n");
+		exit(EXIT_FAILURE);
+	}
+
 	return (EXIT_SUCCESS);
 }
-- 
2.43.0


From ab3dc625520f23f6a8dda9a46ee8de3f0bcfe7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 27/43] fix: zonefile_init_fname: quote the file name for the
 shell that runs zcat

---
 libmy/zonefile.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 2f247f3..c7164b6 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -81,8 +81,14 @@ zonefile_init_fname(const char *fname)
 	    fname[len_fname - 1] == 'z')
 	{
 		ubuf *u = ubuf_new();
-		ubuf_add_cstr(u, "zcat ");
-		ubuf_add_cstr(u, fname);
+		ubuf_add_cstr(u, "zcat '");
+		for (const char *p = fname; *p != '\0'; p++) {
+			if (*p == '\'')
+				ubuf_add_cstr(u, "'\\''");
+			else
+				ubuf_add(u, *p);
+		}
+		ubuf_add(u, '\'');
 		z->fp = popen(ubuf_cstr(u), "r");
 		z->is_pipe = true;
 		ubuf_destroy(&u);
-- 
2.43.0


From 35effde86980e30592b239e748ad279ea80e1310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 28/43] fix: zonefile_read: return no record that a read error
 may have cut short

---
 libmy/zonefile.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index c7164b6..5a18e13 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -32,6 +32,13 @@ read_soa(struct zonefile *z)
 
 	for (;;) {
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
+		if (ferror(z->fp)) {
+			/* the record may be incomplete */
+			if (status == LDNS_STATUS_OK)
+				ldns_rr_free(rr);
+			status = LDNS_STATUS_ERR;
+			goto out;
+		}
 		switch (status) {
 		case LDNS_STATUS_OK:
 			goto out;
@@ -39,7 +46,7 @@ read_soa(struct zonefile *z)
 		case LDNS_STATUS_SYNTAX_TTL:
 		case LDNS_STATUS_SYNTAX_ORIGIN:
 			status = LDNS_STATUS_OK;
-			if (feof(z->fp) || ferror(z->fp)) {
+			if (feof(z->fp)) {
 				status = LDNS_STATUS_ERR;
 				goto out;
 			}
@@ -175,6 +182,12 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			return (LDNS_STATUS_OK);
 		}
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
+		if (ferror(z->fp)) {
+			/* the record may be incomplete */
+			if (status == LDNS_STATUS_OK)
+				ldns_rr_free(rr);
+			return (LDNS_STATUS_ERR);
+		}
 		switch (status) {
 		case LDNS_STATUS_OK:
 			if (ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA) {
@@ -189,10 +202,6 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 		case LDNS_STATUS_SYNTAX_TTL:
 		case LDNS_STATUS_SYNTAX_ORIGIN:
 			status = LDNS_STATUS_OK;
-			if (ferror(z->fp)) {
-				status = LDNS_STATUS_ERR;
-				goto out;
-			}
 			break;
 		default:
 			goto out;
-- 
2.43.0


From eb03f214db715b02c1dfe770c2bc567fb42b6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 29/43] fix: dnstable_query_set_data: NULL clears the version
 type

---
 dnstable/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index 8754257..d841330 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -372,6 +372,7 @@ query_set_version_type(struct dnstable_query *q, const char *data)
 	dnstable_res res;
 	dnstable_entry_type type;
 
+	q->has_v_type = false;
 	if (data == NULL)
 		return (dnstable_res_success);
 
-- 
2.43.0


From 8d51eb47167c81067adca3d583e1e99dfa639a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 30/43] fix: decode_rrset_name_fwd: refuse keys that are not a
 name

---
 dnstable/entry.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 1fe3a93..308c2e8 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -692,6 +692,10 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 static dnstable_res
 decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	size_t len_name;
+
+	if (wdns_len_uname(buf, buf + len_buf, &len_name) != wdns_res_success || len_name != len_buf)
+		return (dnstable_res_failure);
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	memcpy(e->name.data, buf, len_buf);
-- 
2.43.0


From 0386df4bdafccda546a60ad8e9e886200295de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 31/43] fix: name queries: skip index entries whose key is not
 a name

---
 dnstable/query.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index d841330..1bd7753 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1382,7 +1382,7 @@ query_iter_next_name_indirect(void *clos, struct dnstable_entry **ent, uint8_t t
 
 			/* Skip type-byte in index, reverse the forward-name. */
 			if (wdns_reverse_name(key + 1, len_key - 1, ubuf_ptr(full_key)) != wdns_res_success)
-				return (dnstable_res_failure);
+				continue;
 
 			ubuf_advance(full_key, len_key - 1);
 
-- 
2.43.0


From 38e040a22d3be4e0296c928ec3e2521ea4137cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 32/43] fix: dnstable_merge: pass the arguments on as they are

---
 src/dnstable_merge.sh.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnstable_merge.sh.in b/src/dnstable_merge.sh.in
index 7df27e8..910144f 100644
--- a/src/dnstable_merge.sh.in
+++ b/src/dnstable_merge.sh.in
@@ -8,4 +8,4 @@ if [ -z "$1" -o -z "$2" ]; then
     exit 1
 fi
 
-exec mtbl_merge $@
+exec mtbl_merge "$@"
-- 
2.43.0


From 095fc5afd678ceae6ac4542e56884a41a9466bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 33/43] fix: base32_encode: two bytes left over take four
 characters

---
 libmy/b32_encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index 6487fc4..f07c52d 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -92,7 +92,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			k = 5;
 			break;
 		case 2:
-			k = 3;
+			k = 4;
 			break;
 		case 1:
 			k = 2;
-- 
2.43.0


From 026171edc9b6f2fb656b34b0cc4ab9c5aa13fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 34/43] fix: base32_encode: no text for no data

---
 libmy/b32_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index f07c52d..b7bd41c 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -79,7 +79,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 	const char *end = &dst[size];
 	char *q = dst;
 
-	do {
+	while (i < len) {
 		size_t j, k;
 		uint8_t x[5];
 		char s[8];
@@ -121,7 +121,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			break;
 		}
 
-	} while (i < len);
+	}
 
 	return q - dst;
 }
-- 
2.43.0


From 81417246c6de2403850dd71439ec3f0deddbc22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 35/43] fix: base32_decode: no table that another thread may
 see half built

---
 libmy/b32_decode.c | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/libmy/b32_decode.c b/libmy/b32_decode.c
index 5303811..98c4ef4 100644
--- a/libmy/b32_decode.c
+++ b/libmy/b32_decode.c
@@ -91,14 +91,16 @@ ptr_diff(const void *a, const void *b)
         return (const char *) a - (const char *) b;
 }
 
-static const char base32_alphabet[32] = {
-	'0', '1', '2', '3', '4', '5', '6', '7', '8', '9',
-	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J',
-	'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T',
-	'U', 'V'
-};
-
-static char base32_map[(size_t) (unsigned char) -1 + 1];
+static inline int
+base32_value(unsigned char c)
+{
+	c = ascii_toupper(c);
+	if (c >= '0' && c <= '9')
+		return c - '0';
+	if (c >= 'A' && c <= 'V')
+		return c - 'A' + 10;
+	return -1;
+}
 
 /**
  * Decode a base32 encoding of `len' bytes of `data' into the buffer `dst'.
@@ -120,16 +122,6 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 	int pad = 0;
 	size_t i, si;
 
-	if (0 == base32_map[0]) {
-		for (i = 0; i < G_N_ELEMENTS(base32_map); i++) {
-			const char *x;
-
-			x = memchr(base32_alphabet, ascii_toupper(i),
-					   sizeof base32_alphabet);
-			base32_map[i] = x ? (x - base32_alphabet) : (unsigned char) -1;
-		}
-	}
-
 	ZERO(&s);
 	si = 0;
 	i = 0;
@@ -142,10 +134,12 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 			pad++;
 			c = 0;
 		} else {
-			c = base32_map[c];
-			if ((unsigned char) -1 == c) {
+			int v = base32_value(c);
+
+			if (v < 0) {
 				return -1;
 			}
+			c = v;
 		}
 
 		s[si++] = c;
-- 
2.43.0


From efeb5576ff4e089d6302993166002349748ab307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 36/43] fix: base64_decode_value: '{' lies behind the table

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 5c9a91bbc8d48e31000c06b499652d0cc1973565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 37/43] fix: atomic64: amounts of more than 32 bits were cut

---
 libmy/atomic_64.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index 8f4146c..b1c133b 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -36,7 +36,7 @@ typedef struct {
  * @param v pointer of type atomic64_t
  */
 static inline void
-atomic64_add(int i, atomic64_t *v) {
+atomic64_add(int64_t i, atomic64_t *v) {
          (void)__sync_add_and_fetch(&v->counter, i);
 }
 
@@ -48,7 +48,7 @@ atomic64_add(int i, atomic64_t *v) {
  * Atomically subtracts @i from @v.
  */
 static inline void
-atomic64_sub(int i, atomic64_t *v) {
+atomic64_sub(int64_t i, atomic64_t *v) {
         (void)__sync_sub_and_fetch(&v->counter, i);
 }
 
@@ -72,7 +72,7 @@ atomic64_zero(atomic64_t *v) {
  * other cases.
  */
 static inline int
-atomic64_sub_and_test(int i, atomic64_t *v) {
+atomic64_sub_and_test(int64_t i, atomic64_t *v) {
         return !(__sync_sub_and_fetch(&v->counter, i));
 }
 
@@ -135,7 +135,7 @@ atomic64_inc_and_test(atomic64_t *v) {
  * result is greater than or equal to zero.
  */
 static inline int
-atomic64_add_negative(int i, atomic64_t *v) {
+atomic64_add_negative(int64_t i, atomic64_t *v) {
        return (__sync_add_and_fetch(&v->counter, i) < 0);
 }
 
-- 
2.43.0


From 853a75b88a8eeb41cb0f33f24332ccab2e708168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 38/43] fix: atomic64_zero: the old value lost its upper 32
 bits

---
 libmy/atomic_64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index b1c133b..84fd1f0 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -57,7 +57,7 @@ atomic64_sub(int64_t i, atomic64_t *v) {
  *
  * @param v pointer of type atomic64_t
  */
-static inline int
+static inline int64_t
 atomic64_zero(atomic64_t *v) {
 	return (__sync_fetch_and_and(&v->counter, 0));
 }
-- 
2.43.0


From 0daf95bfea279f3e0f501ac8809b0e2401aab77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:50 +0000
Subject: [PATCH 39/43] fix: merge_rrtype_bitmaps: unions over many windows
 aborted or overran the buffer

---
 dnstable/merge.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dnstable/merge.c b/dnstable/merge.c
index a0b63f1..7169718 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -120,7 +120,8 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 	memset(bitmap, 0, sizeof(bitmap));
 	uint8_t window_block = 0;
 	uint8_t	bitmap_len = 0;
-	uint8_t result_data[65536 / 8];
+	/* all 256 windows, each with its number, its length and a full bitmap */
+	uint8_t result_data[256 * (1 + 1 + sizeof(bitmap))];
 	uint16_t result_index = 0;
 
 	for (int n = 0; n < count_rrtypes; n++) {
@@ -131,7 +132,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 			/* Per RFC6840, do not write out an empty bitmap */
 			if (bitmap_len > 0) {
 				assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-				       < sizeof(result_data)/sizeof(&result_data[0]));
+				       <= sizeof(result_data));
 
 				memcpy(&result_data[result_index], (const uint8_t*)&window_block,
 				       sizeof(window_block));
@@ -160,7 +161,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 
 	if (bitmap_len != 0) {
 		assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-		       < sizeof(result_data)/sizeof(&result_data[0]));
+		       <= sizeof(result_data));
 
 		memcpy(&result_data[result_index], (const uint8_t*)&window_block, sizeof(window_block));
 		result_index += sizeof(window_block);
-- 
2.43.0


From 2c8f75f7da9b63ebcda6918ca7e4530df03e0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 40/43] fix: dnstable_merge_func: a damaged value aborted the
 reader or ended the merge

A value that cannot be unpacked now adds nothing to the merged entry (counts and
times), or makes it unknown (unions, time ranges, versions), instead of failing
an assertion, being read past its end or ending the iteration.
---
 dnstable/merge.c | 58 ++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/dnstable/merge.c b/dnstable/merge.c
index 7169718..e291678 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -103,12 +103,12 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 	} else {
 		/* unpack both sides as possibly bitmaps, but they could be len 1 or 2 anyway. */
 		n_rrtypes1 = rrtype_union_unpack(val0, len_val0, &rrtype_set_1);
-		if (n_rrtypes1 == -1)
-			return NULL; /* failed -- corrupt union or too many to unpack */
-
 		n_rrtypes2 = rrtype_union_unpack(val1, len_val1, &rrtype_set_2);
-		if (n_rrtypes2 == -1)
-			return NULL; /* failed -- corrupt union or too many to unpack */
+		if (n_rrtypes1 == -1 || n_rrtypes2 == -1) {
+			/* corrupt union or too many to unpack: it could be any rrtype */
+			*len_merged_val = 0;
+			return my_calloc(1, 1);
+		}
 	}
 
 	count_rrtypes = sorted_merge_dedup(rrtype_set_1.rrtypes, n_rrtypes1,
@@ -180,6 +180,16 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 	return res;
 }
 
+static uint8_t *
+copy_val(const uint8_t *val, size_t len_val, size_t *len_copy)
+{
+	uint8_t *copy = my_malloc(len_val + 1);
+
+	memcpy(copy, val, len_val);
+	*len_copy = len_val;
+	return copy;
+}
+
 void
 dnstable_merge_func(void *clos,
 		    const uint8_t *key, size_t len_key,
@@ -193,13 +203,15 @@ dnstable_merge_func(void *clos,
 	if (len_key && (key[0] == ENTRY_TYPE_RRSET ||
 			key[0] == ENTRY_TYPE_RDATA))
 	{
-		assert(len_val0 && len_val1);
-		dnstable_res res;
-
-		res = triplet_unpack(val0, len_val0, &time_first0, &time_last0, &count0);
-		assert(res == dnstable_res_success);
-		res = triplet_unpack(val1, len_val1, &time_first1, &time_last1, &count1);
-		assert(res == dnstable_res_success);
+		/* A damaged value adds nothing to the other one. */
+		if (triplet_unpack(val1, len_val1, &time_first1, &time_last1, &count1) != dnstable_res_success) {
+			*merged_val = copy_val(val0, len_val0, len_merged_val);
+			return;
+		}
+		if (triplet_unpack(val0, len_val0, &time_first0, &time_last0, &count0) != dnstable_res_success) {
+			*merged_val = copy_val(val1, len_val1, len_merged_val);
+			return;
+		}
 
 		time_first0 = (time_first0 < time_first1) ? time_first0 : time_first1;
 		time_last0 = (time_last0 > time_last1) ? time_last0 : time_last1;
@@ -211,25 +223,20 @@ dnstable_merge_func(void *clos,
 			       key[0] == ENTRY_TYPE_RDATA_NAME_REV)) {
 		*merged_val = merge_rrtype_bitmaps(val0, len_val0, val1, len_val1, len_merged_val);
 	} else if (len_key == 1 && (key[0] == ENTRY_TYPE_TIME_RANGE)) {
-		dnstable_res res;
-
-		if ((len_val0 == 0) || (len_val1 == 0)) {
+		/* If either range is missing or damaged, the merged one is not known. */
+		if (pair_unpack(val0, len_val0, &time_first0, &time_last0) != dnstable_res_success ||
+		    pair_unpack(val1, len_val1, &time_first1, &time_last1) != dnstable_res_success) {
 			*merged_val = my_malloc(1);
 			*len_merged_val = 0;
 			return;
 		}
 
-		res = pair_unpack(val0, len_val0, &time_first0, &time_last0);
-		assert(res == dnstable_res_success);
-		res = pair_unpack(val1, len_val1, &time_first1, &time_last1);
-		assert(res == dnstable_res_success);
 		time_first0 = (time_first0 < time_first1) ? time_first0 : time_first1;
 		time_last0 = (time_last0 > time_last1) ? time_last0 : time_last1;
 		*merged_val = my_malloc(32);
 		*len_merged_val = pair_pack(*merged_val, time_first0, time_last0);
 	} else if (len_key == 2 && (key[0] == ENTRY_TYPE_VERSION)) {
 		uint32_t vers0, vers1, minvers;
-		size_t len;
 
 		/*
 		 * A zero-length value for a version entry indicates that the
@@ -257,10 +264,13 @@ dnstable_merge_func(void *clos,
 			return;
 		}
 
-		len = mtbl_varint_decode32(val0, &vers0);
-		assert(len == len_val0);
-		len = mtbl_varint_decode32(val1, &vers1);
-		assert(len == len_val1);
+		/* A damaged version is not known either. */
+		if (varint32_unpack(val0, len_val0, &vers0) != len_val0 ||
+		    varint32_unpack(val1, len_val1, &vers1) != len_val1) {
+			*merged_val = my_calloc(1,1);
+			*len_merged_val = 0;
+			return;
+		}
 		minvers = (vers0 < vers1)?vers0:vers1;
 
 		*len_merged_val = mtbl_varint_length(minvers);
-- 
2.43.0


From 8a5df59c9d2d7bcbe668ccf0ea158f0ceba160f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 41/43] fix: is_right_wildcard took the end of a longer label
 for a wildcard

The name whose last label ends in the bytes 01 2a (or 01 2b), x\001*. for one,
was searched as a right wildcard.
---
 dnstable/query.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index 1bd7753..5e4ff92 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1502,6 +1502,14 @@ is_right_wildcard(struct dnstable_query *q)
 	if (name->len >= 3 &&
 	    name->data[name->len - 3] == '\x01' &&
 	   (name->data[name->len - 2] == '*' || name->data[name->len - 2] == '+')) {
+		size_t pos = 0;
+
+		/* Those bytes may also be the end of a longer label. */
+		while (pos + 3 < name->len)
+			pos += name->data[pos] + 1;
+		if (pos + 3 != name->len)
+			return (false);
+
 		q->dq_wildplus = name->data[name->len - 2] == '+';
 		return (true);
 	}
-- 
2.43.0


From df90c9f292983606cf973667f671d5cc69ecd419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 42/43] fix: dnstable_dupsort_func aborted on damaged values

---
 dnstable/query.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 5e4ff92..2526a2b 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1872,13 +1872,14 @@ dnstable_dupsort_func(void *clos,
 	if (len_key && (key[0] == ENTRY_TYPE_RRSET ||
 			key[0] == ENTRY_TYPE_RDATA))
 	{
-		assert(len_val0 && len_val1);
-		dnstable_res res;
+		dnstable_res res0, res1;
 
-		res = triplet_unpack(val0, len_val0, &time_first0, &time_last0, &count0);
-		assert(res == dnstable_res_success);
-		res = triplet_unpack(val1, len_val1, &time_first1, &time_last1, &count1);
-		assert(res == dnstable_res_success);
+		res0 = triplet_unpack(val0, len_val0, &time_first0, &time_last0, &count0);
+		res1 = triplet_unpack(val1, len_val1, &time_first1, &time_last1, &count1);
+
+		/* Damaged values, which cannot be compared, come first. */
+		if (res0 != dnstable_res_success || res1 != dnstable_res_success)
+			return (res0 == dnstable_res_success) - (res1 == dnstable_res_success);
 
 		if (time_first0 < time_first1)
 			return -1;
-- 
2.43.0


From 5d24e34dbce17d111e00d2de9c9ba2bee373df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:02 +0000
Subject: [PATCH 43/43] fix: no wrong year and no abort for times that RFC 3339
 cannot express

---
 dnstable/entry.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 308c2e8..d928bac 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -81,6 +81,9 @@ fmt_time(ubuf *u, uint64_t v)
 		ubuf_append(u, (const uint8_t*) s, len);
 }
 
+/* The last time with a year of four digits, which is all that RFC 3339 can express: 9999-12-31T23:59:59Z. */
+#define RFC3339_MAX	UINT64_C(253402300799)
+
 static inline void
 fmt_rfc3339(const struct tm *src, char *dst)
 {
@@ -105,6 +108,12 @@ fmt_rfc3339_time(ubuf *u, uint64_t v)
 	time_t tm = v;
 	char ts[]="0000-00-00T00:00:00Z";
 
+	/* Later times are given as a number. */
+	if (v > RFC3339_MAX) {
+		append_json_value_int(u, v);
+		return;
+	}
+
 	r = gmtime_r(&tm, &gm);
 	assert(r != NULL);
 
@@ -124,6 +133,12 @@ fmt_rfc3339_time_json(ubuf *u, uint64_t v)
 	time_t tm = v;
 	char ts[] = "0000-00-00T00:00:00Z";
 
+	/* Later times are given as a number. */
+	if (v > RFC3339_MAX) {
+		append_json_value_int(u, v);
+		return;
+	}
+
 	r = gmtime_r(&tm, &gm);
 	assert(r != NULL);
 
-- 
2.43.0

