From c2292bd3ab68efd4748a375cc68bb1d30e126e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 01/12] fix: resume must not skip a block when checkpoint
 groups have two pages

find_head() started its scan one user page after the start of the last
programmed group. With only two pages per group, that page belongs to the
next group, and if the last group is the final one in its block, it lies
in the next block. If that block still held old data, the head was moved
past it, possibly over the tail.
---
 dhara/journal.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 87743c3..690d8f2 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -368,9 +368,11 @@ static int find_root(struct dhara_journal *j, dhara_page_t start,
 static int find_head(struct dhara_journal *j, dhara_page_t start,
 		     dhara_error_t *err)
 {
-	j->head = next_upage(j, start);
-	if (!j->head)
-		roll_stats(j);
+	/* Begin with the given group itself, rather than with the page
+	 * following the start of it: if there are only two pages in a
+	 * group, then that's already part of the next one.
+	 */
+	j->head = start;
 
 	/* Starting from the last good checkpoint, find either:
 	 *
-- 
2.43.0


From 89081d205eebe581c5764d03b3906ce089c95c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 02/12] fix: garbage collection must not erase the source of a
 copy

dhara_map_copy_sector() and dhara_map_copy_page() collected garbage
between locating the source page and copying it. If the number of pages
moved by one round of garbage collection exceeds the free space, which
happens with a large gc_ratio and small blocks, then the block containing
the source page could be erased in between, and the destination ended up
with the wrong content.
---
 dhara/map.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dhara/map.c b/dhara/map.c
index 48ec45e..6d21439 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -319,14 +319,14 @@ static int auto_gc(struct dhara_map *m, dhara_error_t *err)
 	return 0;
 }
 
-static int prepare_write(struct dhara_map *m, dhara_sector_t dst,
-			 uint8_t *meta, dhara_error_t *err)
+/* Prepare metadata for a new page holding the given sector, and account
+ * for the sector if it's new.
+ */
+static int prepare_meta(struct dhara_map *m, dhara_sector_t dst,
+			uint8_t *meta, dhara_error_t *err)
 {
 	dhara_error_t my_err;
 
-	if (auto_gc(m, err) < 0)
-		return -1;
-
 	if (trace_path(m, dst, NULL, meta, &my_err) < 0) {
 		if (my_err != DHARA_E_NOT_FOUND) {
 			dhara_set_error(err, my_err);
@@ -353,7 +353,8 @@ int dhara_map_write(struct dhara_map *m, dhara_sector_t dst,
 		dhara_error_t my_err;
 		const dhara_sector_t old_count = m->count;
 
-		if (prepare_write(m, dst, meta, err) < 0)
+		if ((auto_gc(m, err) < 0) ||
+		    (prepare_meta(m, dst, meta, err) < 0))
 			return -1;
 
 		if (!dhara_journal_enqueue(&m->journal, data, meta, &my_err))
@@ -376,7 +377,7 @@ int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 		dhara_error_t my_err;
 		const dhara_sector_t old_count = m->count;
 
-		if (prepare_write(m, dst, meta, err) < 0)
+		if (prepare_meta(m, dst, meta, err) < 0)
 			return -1;
 
 		if (!dhara_journal_copy(&m->journal, src, meta, &my_err))
@@ -388,7 +389,10 @@ int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 			return -1;
 	}
 
-	return 0;
+	/* We can't collect garbage before making the copy, because that
+	 * might move the source page's data and erase the page itself.
+	 */
+	return auto_gc(m, err);
 }
 
 int dhara_map_copy_sector(struct dhara_map *m, dhara_sector_t src,
-- 
2.43.0


From 2b42eac2788cc07c03139b8a82a29b1055fb58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 03/12] fix: don't lose the first page of a block if its
 checkpoint fails

With two pages per checkpoint group, the checkpoint page following the
first user page of a block might fail to program. recover_from() sees a
block-aligned head and concludes that no recovery is required, and the
push was reported to be successful, even though the user page was left
behind in the bad block with no metadata.

Return E_RECOVER instead, so that the caller repeats the operation (no
pages will be enumerated for recovery).
---
 dhara/journal.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 690d8f2..dbd0911 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -797,17 +797,24 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		return 0;
 	}
 
-	/* We don't need to check for immediate recover, because that'll
-	 * never happen -- we're not block-aligned.
-	 */
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
 	hdr_set_tail(j->page_buf, j->tail);
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
-	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0)
-		return recover_from(j, my_err, err);
+	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0) {
+		if (recover_from(j, my_err, err) < 0)
+			return -1;
+
+		/* With two pages per checkpoint group, the user page
+		 * might be the only one in the block. There's nothing
+		 * else to recover then, but the page itself is lost and
+		 * needs to be pushed again.
+		 */
+		dhara_set_error(err, DHARA_E_RECOVER);
+		return -1;
+	}
 
 	j->flags &= ~DHARA_JOURNAL_F_DIRTY;
 
-- 
2.43.0


From 98d426eecb8100f63a4b1d407557a0ee639064cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 04/12] fix: skip the rest of a bad block if the tail is in the
 middle of it

dhara_journal_peek() skipped bad blocks only when the tail was at the
start of one. If the block containing the tail goes bad and is recovered,
its last checkpoint might be missing or unreadable, in which case reading
metadata at the tail gives garbage or fails with E_ECC forever, and
garbage collection can't proceed.
---
 dhara/journal.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index dbd0911..ca20d91 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -535,26 +535,30 @@ int dhara_journal_read_meta(struct dhara_journal *j, dhara_page_t p,
 
 dhara_page_t dhara_journal_peek(struct dhara_journal *j)
 {
+	dhara_block_t blk = j->tail >> j->nand->log2_ppb;
+	int i;
+
 	if (j->head == j->tail)
 		return DHARA_PAGE_NONE;
 
-	if (is_aligned(j->tail, j->nand->log2_ppb)) {
-		dhara_block_t blk = j->tail >> j->nand->log2_ppb;
-		int i;
-
-		for (i = 0; i < DHARA_MAX_RETRIES; i++) {
-			if ((blk == (j->head >> j->nand->log2_ppb)) ||
-			    !dhara_nand_is_bad(j->nand, blk)) {
+	/* If the tail is in a bad block, skip it. This includes blocks
+	 * which went bad after the tail had moved part of the way
+	 * through: everything useful has been recovered from them, and
+	 * some of their metadata might be unreadable.
+	 */
+	for (i = 0; i < DHARA_MAX_RETRIES; i++) {
+		if ((blk == (j->head >> j->nand->log2_ppb)) ||
+		    !dhara_nand_is_bad(j->nand, blk)) {
+			if (i)
 				j->tail = blk << j->nand->log2_ppb;
 
-				if (j->tail == j->head)
-					j->root = DHARA_PAGE_NONE;
-
-				return j->tail;
-			}
+			if (j->tail == j->head)
+				j->root = DHARA_PAGE_NONE;
 
-			blk = next_block(j->nand, blk);
+			return j->tail;
 		}
+
+		blk = next_block(j->nand, blk);
 	}
 
 	return j->tail;
-- 
2.43.0


From da595266d350907f69fa35b5c099f15ae3a0077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 05/12] fix: recover from a program failure when the journal is
 empty

If the journal had been cleared and the next program failed in the middle
of a block, then recovery was started with no root page: the enumeration
of recoverable pages started with out-of-range page numbers and didn't
end, and an out-of-range block would have been marked bad.

There's nothing to enumerate in that case, but wait for a new checkpoint
before marking the block bad, because it might contain the last one.
---
 dhara/journal.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dhara/journal.c b/dhara/journal.c
index ca20d91..4db469b 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -670,6 +670,11 @@ static void restart_recovery(struct dhara_journal *j, dhara_page_t old_head)
 	 * destination enumeration to the newly found good
 	 * block.
 	 */
+	if (j->recover_next == DHARA_PAGE_NONE) {
+		j->root = DHARA_PAGE_NONE;
+		return;
+	}
+
 	j->flags &= ~DHARA_JOURNAL_F_ENUM_DONE;
 	j->recover_next =
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
@@ -745,6 +750,18 @@ static int recover_from(struct dhara_journal *j,
 		return 0;
 	}
 
+	/* If the journal is empty, there's nothing to recover, but the
+	 * last checkpoint might still be in the failed block. Wait for a
+	 * new one before marking the block bad.
+	 */
+	if (j->root == DHARA_PAGE_NONE) {
+		j->recover_root = old_head;
+		j->flags |= DHARA_JOURNAL_F_RECOVERY |
+			    DHARA_JOURNAL_F_ENUM_DONE;
+		dhara_set_error(err, DHARA_E_RECOVER);
+		return -1;
+	}
+
 	j->recover_root = j->root;
 	j->recover_next =
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
-- 
2.43.0


From e4d4dc17eb5ddae93962478814b212455cad24de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 06/12] fix: don't dump metadata that doesn't belong to the
 recovered group

If the head is in the middle of a checkpoint group after a restart, but
the root is in an earlier group, and then the next page fails to program,
there's no buffered metadata worth keeping. It was dumped nevertheless,
and then used in place of the real metadata of the root's group during
recovery, so that the pages in that group were lost.
---
 dhara/journal.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 4db469b..758d327 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -766,8 +766,13 @@ static int recover_from(struct dhara_journal *j,
 	j->recover_next =
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
 
-	/* Are we holding buffered metadata? Dump it first. */
-	if (!is_aligned(old_head, j->log2_ppc) &&
+	/* Are we holding buffered metadata? Dump it first.
+	 *
+	 * If the root is in an earlier checkpoint group, then we aren't:
+	 * any pages in the current group were written without a
+	 * checkpoint before the last restart.
+	 */
+	if (align_eq(j->root, old_head, j->log2_ppc) &&
 	    dump_meta(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From 328b7e4acc5e206ab1b2f174cd753593894c02fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 07/12] fix: don't count a bad block that couldn't be skipped

If the journal is full, skip_block() fails without moving the head, and
the same bad block was counted again on every further attempt. The
count ends up in the capacity calculation (which can then underflow) and
in the next checkpoint.
---
 dhara/journal.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 758d327..264d201 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -612,6 +612,8 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 		return -1;
 	}
 
+	/* Count the bad block we've just skipped */
+	j->bb_current++;
 	j->head = next << j->nand->log2_ppb;
 	if (!j->head)
 		roll_stats(j);
@@ -644,7 +646,6 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 		if (!dhara_nand_is_bad(j->nand, blk))
 			return dhara_nand_erase(j->nand, blk, err);
 
-		j->bb_current++;
 		if (skip_block(j, err) < 0)
 			return -1;
 	}
@@ -710,7 +711,6 @@ static int dump_meta(struct dhara_journal *j, dhara_error_t *err)
 			return -1;
 		}
 
-		j->bb_current++;
 		dhara_nand_mark_bad(j->nand, j->head >> j->nand->log2_ppb);
 
 		if (skip_block(j, err) < 0)
@@ -733,7 +733,6 @@ static int recover_from(struct dhara_journal *j,
 	}
 
 	/* Advance to the next free page */
-	j->bb_current++;
 	if (skip_block(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From b973b381b725174b9633d057ca78786560e8fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 08/12] fix: check the tail again after skipping bad blocks

With a single user page per block (two-page blocks), skipping a bad
block could take the head to the last block before the tail. Writing
there moved the head onto the tail, so that a full journal turned into
an empty one and was overwritten.
---
 dhara/journal.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 264d201..dda60ab 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -621,21 +621,30 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 	return 0;
 }
 
-/* Make sure the head pointer is on a ready-to-program page. */
-static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
+/* We can't write if doing so would cause the head pointer to roll onto
+ * the same block as the last-synced tail.
+ */
+static int check_tail(const struct dhara_journal *j, dhara_error_t *err)
 {
 	const dhara_page_t next = next_upage(j, j->head);
-	int i;
 
-	/* We can't write if doing so would cause the head pointer to
-	 * roll onto the same block as the last-synced tail.
-	 */
 	if (align_eq(next, j->tail_sync, j->nand->log2_ppb) &&
 	    !align_eq(next, j->head, j->nand->log2_ppb)) {
 		dhara_set_error(err, DHARA_E_JOURNAL_FULL);
 		return -1;
 	}
 
+	return 0;
+}
+
+/* Make sure the head pointer is on a ready-to-program page. */
+static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
+{
+	int i;
+
+	if (check_tail(j, err) < 0)
+		return -1;
+
 	j->flags |= DHARA_JOURNAL_F_DIRTY;
 	if (!is_aligned(j->head, j->nand->log2_ppb))
 		return 0;
@@ -646,7 +655,10 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 		if (!dhara_nand_is_bad(j->nand, blk))
 			return dhara_nand_erase(j->nand, blk, err);
 
-		if (skip_block(j, err) < 0)
+		/* If there's only one user page in a block, then skipping
+		 * might have taken us up to the tail.
+		 */
+		if (skip_block(j, err) < 0 || check_tail(j, err) < 0)
 			return -1;
 	}
 
-- 
2.43.0


From b5aea2f7893d6d3f4aaed8707a194026b647201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 09/12] fix: don't hand out the head page when skipping bad
 blocks at the tail

If everything between the tail and the head was in bad blocks,
dhara_journal_peek() returned the head, which isn't written yet, rather
than DHARA_PAGE_NONE.
---
 dhara/journal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index dda60ab..410b7d8 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -552,8 +552,10 @@ dhara_page_t dhara_journal_peek(struct dhara_journal *j)
 			if (i)
 				j->tail = blk << j->nand->log2_ppb;
 
-			if (j->tail == j->head)
+			if (j->tail == j->head) {
 				j->root = DHARA_PAGE_NONE;
+				return DHARA_PAGE_NONE;
+			}
 
 			return j->tail;
 		}
-- 
2.43.0


From 55b281df0491a695dc299ef57668c9a91b002896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 10/12] fix: finish recovery if it was interrupted by a read
 error

If a page couldn't be read while a failed block was being recovered,
the operation failed, but the journal was left in recovery with the
remaining pages of the block (and the unreadable one) already counted as
handed out. Later operations added new data without continuing, pages
in the failed block were lost once the tail skipped it, and the journal
filled up because the synced tail never moved.

Start the enumeration again in this case, and continue recovery at the
start of the next operation.
---
 dhara/journal.c | 16 ++++++++++++++++
 dhara/journal.h |  6 ++++++
 dhara/map.c     | 24 ++++++++++++++++++++++++
 3 files changed, 46 insertions(+)

diff --git a/dhara/journal.c b/dhara/journal.c
index 410b7d8..271f2fc 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -600,6 +600,12 @@ void dhara_journal_clear(struct dhara_journal *j)
 	j->root = DHARA_PAGE_NONE;
 	j->flags |= DHARA_JOURNAL_F_DIRTY;
 
+	/* There's nothing left to recover either */
+	if (dhara_journal_in_recovery(j)) {
+		j->flags |= DHARA_JOURNAL_F_ENUM_DONE;
+		j->recover_next = DHARA_PAGE_NONE;
+	}
+
 	hdr_clear_user(j->page_buf, j->nand->log2_page_size);
 }
 
@@ -930,3 +936,13 @@ dhara_page_t dhara_journal_next_recoverable(struct dhara_journal *j)
 
 	return n;
 }
+
+void dhara_journal_rewind_recovery(struct dhara_journal *j)
+{
+	if (j->recover_next == DHARA_PAGE_NONE)
+		return;
+
+	j->flags &= ~DHARA_JOURNAL_F_ENUM_DONE;
+	j->recover_next =
+		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
+}
diff --git a/dhara/journal.h b/dhara/journal.h
index 6eb455b..80864ec 100644
--- a/dhara/journal.h
+++ b/dhara/journal.h
@@ -253,4 +253,10 @@ static inline int dhara_journal_in_recovery(const struct dhara_journal *j)
 
 dhara_page_t dhara_journal_next_recoverable(struct dhara_journal *j);
 
+/* If the recovery procedure has to be interrupted (because of a read
+ * error, for example), call this function so that all recoverable pages
+ * are handed out again when it's continued.
+ */
+void dhara_journal_rewind_recovery(struct dhara_journal *j);
+
 #endif
diff --git a/dhara/map.c b/dhara/map.c
index 6d21439..d83032f 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -289,6 +289,7 @@ static int try_recover(struct dhara_map *m, dhara_error_t cause,
 
 		if (ret < 0) {
 			if (my_err != DHARA_E_RECOVER) {
+				dhara_journal_rewind_recovery(&m->journal);
 				dhara_set_error(err, my_err);
 				return -1;
 			}
@@ -305,6 +306,14 @@ static int try_recover(struct dhara_map *m, dhara_error_t cause,
 	return 0;
 }
 
+/* If an earlier recovery was interrupted by an error, we need to finish
+ * it before anything new is added to the journal.
+ */
+static int resume_recovery(struct dhara_map *m, dhara_error_t *err)
+{
+	return try_recover(m, DHARA_E_RECOVER, err);
+}
+
 static int auto_gc(struct dhara_map *m, dhara_error_t *err)
 {
 	int i;
@@ -348,6 +357,9 @@ static int prepare_meta(struct dhara_map *m, dhara_sector_t dst,
 int dhara_map_write(struct dhara_map *m, dhara_sector_t dst,
 		    const uint8_t *data, dhara_error_t *err)
 {
+	if (resume_recovery(m, err) < 0)
+		return -1;
+
 	for (;;) {
 		uint8_t meta[DHARA_META_SIZE];
 		dhara_error_t my_err;
@@ -372,6 +384,9 @@ int dhara_map_write(struct dhara_map *m, dhara_sector_t dst,
 int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 			dhara_sector_t dst, dhara_error_t *err)
 {
+	if (resume_recovery(m, err) < 0)
+		return -1;
+
 	for (;;) {
 		uint8_t meta[DHARA_META_SIZE];
 		dhara_error_t my_err;
@@ -471,6 +486,9 @@ static int try_delete(struct dhara_map *m, dhara_sector_t s,
 
 int dhara_map_trim(struct dhara_map *m, dhara_sector_t s, dhara_error_t *err)
 {
+	if (resume_recovery(m, err) < 0)
+		return -1;
+
 	for (;;) {
 		dhara_error_t my_err;
 
@@ -489,6 +507,9 @@ int dhara_map_trim(struct dhara_map *m, dhara_sector_t s, dhara_error_t *err)
 
 int dhara_map_sync(struct dhara_map *m, dhara_error_t *err)
 {
+	if (resume_recovery(m, err) < 0)
+		return -1;
+
 	while (!dhara_journal_is_clean(&m->journal)) {
 		dhara_page_t p = dhara_journal_peek(&m->journal);
 		dhara_error_t my_err;
@@ -511,6 +532,9 @@ int dhara_map_sync(struct dhara_map *m, dhara_error_t *err)
 
 int dhara_map_gc(struct dhara_map *m, dhara_error_t *err)
 {
+	if (resume_recovery(m, err) < 0)
+		return -1;
+
 	if (!m->count)
 		return 0;
 
-- 
2.43.0


From c60af68ae77e69a5f51b060d10dcb58f065a6f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:36 +0000
Subject: [PATCH 11/12] fix: look up the source of a copy again after recovery

If the block being written goes bad, recovery moves its live pages
elsewhere and marks it bad. If the source of dhara_map_copy_sector was
in that block, the copy was then retried from the old page, in a block
which the chip might not be able to read any more. A source that was
waiting for an interrupted recovery to finish had the same problem.
---
 dhara/map.c | 59 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/dhara/map.c b/dhara/map.c
index d83032f..0d7ed11 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -381,6 +381,26 @@ int dhara_map_write(struct dhara_map *m, dhara_sector_t dst,
 	return 0;
 }
 
+/* Make a single attempt at copying a page to the front of the map.
+ * Return raw errors from the journal (do not perform recovery).
+ */
+static int raw_copy(struct dhara_map *m, dhara_page_t src,
+		    dhara_sector_t dst, dhara_error_t *err)
+{
+	uint8_t meta[DHARA_META_SIZE];
+	const dhara_sector_t old_count = m->count;
+
+	if (prepare_meta(m, dst, meta, err) < 0)
+		return -1;
+
+	if (dhara_journal_copy(&m->journal, src, meta, err) < 0) {
+		m->count = old_count;
+		return -1;
+	}
+
+	return 0;
+}
+
 int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 			dhara_sector_t dst, dhara_error_t *err)
 {
@@ -388,18 +408,11 @@ int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 		return -1;
 
 	for (;;) {
-		uint8_t meta[DHARA_META_SIZE];
 		dhara_error_t my_err;
-		const dhara_sector_t old_count = m->count;
 
-		if (prepare_meta(m, dst, meta, err) < 0)
-			return -1;
-
-		if (!dhara_journal_copy(&m->journal, src, meta, &my_err))
+		if (!raw_copy(m, src, dst, &my_err))
 			break;
 
-		m->count = old_count;
-
 		if (try_recover(m, my_err, err) < 0)
 			return -1;
 	}
@@ -413,18 +426,32 @@ int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 int dhara_map_copy_sector(struct dhara_map *m, dhara_sector_t src,
 			  dhara_sector_t dst, dhara_error_t *err)
 {
-	dhara_error_t my_err;
-	dhara_page_t p;
+	if (resume_recovery(m, err) < 0)
+		return -1;
 
-	if (dhara_map_find(m, src, &p, &my_err) < 0) {
-		if (my_err == DHARA_E_NOT_FOUND)
-			return dhara_map_trim(m, dst, err);
+	for (;;) {
+		dhara_error_t my_err;
+		dhara_page_t p;
 
-		dhara_set_error(err, my_err);
-		return -1;
+		/* Recovery might have moved the source out of a block
+		 * which is now marked bad, so look it up each time.
+		 */
+		if (dhara_map_find(m, src, &p, &my_err) < 0) {
+			if (my_err == DHARA_E_NOT_FOUND)
+				return dhara_map_trim(m, dst, err);
+
+			dhara_set_error(err, my_err);
+			return -1;
+		}
+
+		if (!raw_copy(m, p, dst, &my_err))
+			break;
+
+		if (try_recover(m, my_err, err) < 0)
+			return -1;
 	}
 
-	return dhara_map_copy_page(m, p, dst, err);
+	return auto_gc(m, err);
 }
 
 static int try_delete(struct dhara_map *m, dhara_sector_t s,
-- 
2.43.0


From 210f95a05f1b623e989710135cb46b684f5d563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:19 +0000
Subject: [PATCH 12/12] fix: metadata offsets in checkpoint groups of more than
 256 pages

With pages of 128 KiB and at least 512 pages per block, a checkpoint
group has 512 pages, and the index of a page in it doesn't fit in the
uint8_t hdr_user_offset took. The metadata of the second half of a
group overwrote that of the first.
---
 dhara/journal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 271f2fc..e9edf58 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -86,7 +86,7 @@ static inline void hdr_clear_user(uint8_t *buf, uint8_t log2_page_size)
 }
 
 /* Obtain pointers to user data */
-static inline size_t hdr_user_offset(uint8_t which)
+static inline size_t hdr_user_offset(size_t which)
 {
 	return DHARA_HEADER_SIZE + DHARA_COOKIE_SIZE +
 		which * DHARA_META_SIZE;
-- 
2.43.0

