From c84fddb2bd5e86b7c2fb7a3d5b23a935745185a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 1/9] fix: report a lost page when the first checkpoint of a
 block fails

With one user page per checkpoint group, the checkpoint program may fail
while the head is still block-aligned. recover_from() then returns 0
(nothing to recover), and push_meta() passed that on as success, although
the user page had gone down with the block. Ask the caller to write the
page again.
---
 dhara/journal.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 87743c3..cb7b180 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -795,17 +795,23 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		return 0;
 	}
 
-	/* We don't need to check for immediate recover, because that'll
-	 * never happen -- we're not block-aligned.
-	 */
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
 	hdr_set_tail(j->page_buf, j->tail);
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
-	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0)
-		return recover_from(j, my_err, err);
+	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0) {
+		/* If the checkpoint group starts the block (which happens
+		 * when a group holds only one user page), then there is
+		 * nothing to recover, but the page we've just written was
+		 * lost with the block and the caller must write it again.
+		 */
+		if (!recover_from(j, my_err, err))
+			dhara_set_error(err, DHARA_E_RECOVER);
+
+		return -1;
+	}
 
 	j->flags &= ~DHARA_JOURNAL_F_DIRTY;
 
-- 
2.43.0


From e5b5cdb50e6c0939cd2676ece623d15e0280adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 2/9] fix: skip the tail forward when its block has gone bad

finish_recovery() left the tail in the block it had just marked bad, in a
group whose metadata was never programmed (or failed to program). Garbage
collection could then never get past that group, so the map eventually
refused all writes.
---
 dhara/journal.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index cb7b180..ea9fc62 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -536,7 +536,12 @@ dhara_page_t dhara_journal_peek(struct dhara_journal *j)
 	if (j->head == j->tail)
 		return DHARA_PAGE_NONE;
 
-	if (is_aligned(j->tail, j->nand->log2_ppb)) {
+	/* If the tail was left in a block which has since gone bad, then
+	 * everything of value in that block has already been recovered,
+	 * and we skip over it as well.
+	 */
+	if (is_aligned(j->tail, j->nand->log2_ppb) ||
+	    dhara_nand_is_bad(j->nand, j->tail >> j->nand->log2_ppb)) {
 		dhara_block_t blk = j->tail >> j->nand->log2_ppb;
 		int i;
 
@@ -768,7 +773,9 @@ static void finish_recovery(struct dhara_journal *j)
 		dhara_nand_mark_bad(j->nand,
 			j->recover_meta >> j->nand->log2_ppb);
 
-	/* Was the tail on this page? Skip it forward */
+	/* If the tail was in this block, it'll be skipped forward by
+	 * dhara_journal_peek().
+	 */
 	clear_recovery(j);
 }
 
-- 
2.43.0


From d4b8a71793949107cf680b4e92310414bd2671b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 3/9] fix: recover a failed block when the journal is empty

If the root was dropped (by clearing the map or trimming its last sector)
and the next program in the same block failed, recovery started from a
root of DHARA_PAGE_NONE: it enumerated garbage over the whole chip (and
past its end) without ever meeting the root, and then marked a block
which doesn't exist. There is nothing to enumerate in that case: go
straight to the checkpoint, and mark the block which failed.
---
 dhara/journal.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index ea9fc62..f89faac 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -652,6 +652,23 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 	return -1;
 }
 
+/* Begin enumerating the user pages in the block under recovery. If the
+ * journal was empty when the block failed, there aren't any. We just
+ * remember a page in the block so that we can mark it bad at the end.
+ */
+static void start_enum(struct dhara_journal *j, dhara_page_t failed)
+{
+	if (j->recover_root == DHARA_PAGE_NONE) {
+		j->flags |= DHARA_JOURNAL_F_ENUM_DONE;
+		j->recover_next = failed;
+		return;
+	}
+
+	j->flags &= ~DHARA_JOURNAL_F_ENUM_DONE;
+	j->recover_next =
+		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
+}
+
 static void restart_recovery(struct dhara_journal *j, dhara_page_t old_head)
 {
 	/* Mark the current head bad immediately, unless we're also
@@ -669,9 +686,7 @@ static void restart_recovery(struct dhara_journal *j, dhara_page_t old_head)
 	 * destination enumeration to the newly found good
 	 * block.
 	 */
-	j->flags &= ~DHARA_JOURNAL_F_ENUM_DONE;
-	j->recover_next =
-		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
+	start_enum(j, j->recover_next);
 
 	j->root = j->recover_root;
 }
@@ -745,14 +760,13 @@ static int recover_from(struct dhara_journal *j,
 	}
 
 	j->recover_root = j->root;
-	j->recover_next =
-		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
 
 	/* Are we holding buffered metadata? Dump it first. */
 	if (!is_aligned(old_head, j->log2_ppc) &&
 	    dump_meta(j, err) < 0)
 		return -1;
 
+	start_enum(j, old_head);
 	j->flags |= DHARA_JOURNAL_F_RECOVERY;
 	dhara_set_error(err, DHARA_E_RECOVER);
 	return -1;
@@ -764,7 +778,7 @@ static void finish_recovery(struct dhara_journal *j)
 	 * block as bad.
 	 */
 	dhara_nand_mark_bad(j->nand,
-		j->recover_root >> j->nand->log2_ppb);
+		j->recover_next >> j->nand->log2_ppb);
 
 	/* If we had to dump metadata, and the page on which we
 	 * did this also went bad, mark it bad too.
-- 
2.43.0


From 99138ec7679d90bc201f022e13d8848e1ee0c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 4/9] fix: don't dump metadata for a group which doesn't hold
 the root

After a restart, the head may be in the middle of a checkpoint group in
which we own no pages, with the root in an earlier group of the same
block. If a program failed there, the (empty) metadata buffer was dumped
as if it belonged to the root's group, and recovery then took the synced
pages of that group for garbage and dropped them with the block.
---
 dhara/journal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index f89faac..46a0f4c 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -761,8 +761,11 @@ static int recover_from(struct dhara_journal *j,
 
 	j->recover_root = j->root;
 
-	/* Are we holding buffered metadata? Dump it first. */
-	if (!is_aligned(old_head, j->log2_ppc) &&
+	/* Are we holding buffered metadata? Dump it first. If the root
+	 * isn't in the failed checkpoint group, then the group contains
+	 * no pages of ours (we may have resumed in the middle of it).
+	 */
+	if (align_eq(j->recover_root, old_head, j->log2_ppc) &&
 	    dump_meta(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From a6cd5d9165c307e3ea86b7e62ee6ac2cdab28763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 5/9] fix: don't resume in the middle of the block after the
 last checkpoint

With one user page per checkpoint group, next_upage() moves find_head()
straight on to the next block if the last checkpoint group is at the end
of its block. The scan for a free page then went on inside that block,
which might be bad, or have been left half-erased by the power failure:
the head ended up on a bad block, or past a block which was never
written, in which garbage collection got stuck. Start the scan from the
last group itself, so that it stops at the beginning of the next block.
---
 dhara/journal.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 46a0f4c..39d451d 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -368,9 +368,7 @@ static int find_root(struct dhara_journal *j, dhara_page_t start,
 static int find_head(struct dhara_journal *j, dhara_page_t start,
 		     dhara_error_t *err)
 {
-	j->head = next_upage(j, start);
-	if (!j->head)
-		roll_stats(j);
+	j->head = start;
 
 	/* Starting from the last good checkpoint, find either:
 	 *
-- 
2.43.0


From df5151cec241bc6b5511598698478dd3db817c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 6/9] fix: don't count a bad block again each time the journal
 is full

When there was no room to move on from a bad block, the block stayed at
the head, but bb_current had already been incremented. Each attempt to
enqueue on a full journal counted it once more, until the capacity
dropped to nothing and wrapped around.
---
 dhara/journal.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 39d451d..fe61788 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -598,6 +598,10 @@ void dhara_journal_clear(struct dhara_journal *j)
 	hdr_clear_user(j->page_buf, j->nand->log2_page_size);
 }
 
+/* Give up on the bad block at the head and move on to the next one. The
+ * block is counted only if we do move on: if there's no room, then it's
+ * still at the head, and we'll come across it again.
+ */
 static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 {
 	const dhara_block_t next = next_block(j->nand,
@@ -609,6 +613,7 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 		return -1;
 	}
 
+	j->bb_current++;
 	j->head = next << j->nand->log2_ppb;
 	if (!j->head)
 		roll_stats(j);
@@ -641,7 +646,6 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 		if (!dhara_nand_is_bad(j->nand, blk))
 			return dhara_nand_erase(j->nand, blk, err);
 
-		j->bb_current++;
 		if (skip_block(j, err) < 0)
 			return -1;
 	}
@@ -717,7 +721,6 @@ static int dump_meta(struct dhara_journal *j, dhara_error_t *err)
 			return -1;
 		}
 
-		j->bb_current++;
 		dhara_nand_mark_bad(j->nand, j->head >> j->nand->log2_ppb);
 
 		if (skip_block(j, err) < 0)
@@ -740,7 +743,6 @@ static int recover_from(struct dhara_journal *j,
 	}
 
 	/* Advance to the next free page */
-	j->bb_current++;
 	if (skip_block(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From b3ae0225f33771b82f54a9405a53d46f5300fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:58 +0000
Subject: [PATCH 7/9] fix: don't offer a page for reading from an empty journal

When only bad blocks are left between the tail and the head, peek moves
the tail up to the head. The page there is the next one to be written,
and the queue is empty.
---
 dhara/journal.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index fe61788..97248cc 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -548,8 +548,11 @@ dhara_page_t dhara_journal_peek(struct dhara_journal *j)
 			    !dhara_nand_is_bad(j->nand, blk)) {
 				j->tail = blk << j->nand->log2_ppb;
 
-				if (j->tail == j->head)
+				/* Nothing left but bad blocks */
+				if (j->tail == j->head) {
 					j->root = DHARA_PAGE_NONE;
+					return DHARA_PAGE_NONE;
+				}
 
 				return j->tail;
 			}
-- 
2.43.0


From 88ba611c8dc2be0dcf14a0184ec6c8ac5f6efa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:54 +0000
Subject: [PATCH 8/9] fix: look up the source of a sector copy after collecting

Collecting garbage before the copy moves the source sector elsewhere, and
with a collection ratio larger than the spare space the page where it used
to be was erased and reused before it was copied.
---
 dhara/map.c | 77 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/dhara/map.c b/dhara/map.c
index 48ec45e..b950b4d 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -319,14 +319,14 @@ static int auto_gc(struct dhara_map *m, dhara_error_t *err)
 	return 0;
 }
 
-static int prepare_write(struct dhara_map *m, dhara_sector_t dst,
-			 uint8_t *meta, dhara_error_t *err)
+/* Prepare metadata for a new page of the given sector, and account for it
+ * if it's a new sector.
+ */
+static int prepare_meta(struct dhara_map *m, dhara_sector_t dst,
+			uint8_t *meta, dhara_error_t *err)
 {
 	dhara_error_t my_err;
 
-	if (auto_gc(m, err) < 0)
-		return -1;
-
 	if (trace_path(m, dst, NULL, meta, &my_err) < 0) {
 		if (my_err != DHARA_E_NOT_FOUND) {
 			dhara_set_error(err, my_err);
@@ -345,6 +345,15 @@ static int prepare_write(struct dhara_map *m, dhara_sector_t dst,
 	return 0;
 }
 
+static int prepare_write(struct dhara_map *m, dhara_sector_t dst,
+			 uint8_t *meta, dhara_error_t *err)
+{
+	if (auto_gc(m, err) < 0)
+		return -1;
+
+	return prepare_meta(m, dst, meta, err);
+}
+
 int dhara_map_write(struct dhara_map *m, dhara_sector_t dst,
 		    const uint8_t *data, dhara_error_t *err)
 {
@@ -391,23 +400,6 @@ int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 	return 0;
 }
 
-int dhara_map_copy_sector(struct dhara_map *m, dhara_sector_t src,
-			  dhara_sector_t dst, dhara_error_t *err)
-{
-	dhara_error_t my_err;
-	dhara_page_t p;
-
-	if (dhara_map_find(m, src, &p, &my_err) < 0) {
-		if (my_err == DHARA_E_NOT_FOUND)
-			return dhara_map_trim(m, dst, err);
-
-		dhara_set_error(err, my_err);
-		return -1;
-	}
-
-	return dhara_map_copy_page(m, p, dst, err);
-}
-
 static int try_delete(struct dhara_map *m, dhara_sector_t s,
 		      dhara_error_t *err)
 {
@@ -465,6 +457,47 @@ static int try_delete(struct dhara_map *m, dhara_sector_t s,
 	return 0;
 }
 
+int dhara_map_copy_sector(struct dhara_map *m, dhara_sector_t src,
+			  dhara_sector_t dst, dhara_error_t *err)
+{
+	for (;;) {
+		uint8_t meta[DHARA_META_SIZE];
+		dhara_error_t my_err;
+		dhara_page_t p;
+		const dhara_sector_t old_count = m->count;
+		int ret;
+
+		/* Collection and recovery move pages, and the place where
+		 * the source used to be might be erased and reused by
+		 * them. We must look for it after they're done.
+		 */
+		if (auto_gc(m, err) < 0)
+			return -1;
+
+		if (!dhara_map_find(m, src, &p, &my_err)) {
+			if (prepare_meta(m, dst, meta, err) < 0)
+				return -1;
+
+			ret = dhara_journal_copy(&m->journal, p, meta, &my_err);
+		} else if (my_err == DHARA_E_NOT_FOUND) {
+			ret = try_delete(m, dst, &my_err);
+		} else {
+			dhara_set_error(err, my_err);
+			return -1;
+		}
+
+		if (!ret)
+			break;
+
+		m->count = old_count;
+
+		if (try_recover(m, my_err, err) < 0)
+			return -1;
+	}
+
+	return 0;
+}
+
 int dhara_map_trim(struct dhara_map *m, dhara_sector_t s, dhara_error_t *err)
 {
 	for (;;) {
-- 
2.43.0


From 9b117b66b06cafadcf420a10f3d1d4ce2570288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:03:22 +0000
Subject: [PATCH 9/9] fix: check for the tail again after skipping a bad block

With one user page per block, prepare_head checked the block at the head
only, skipped it if it was bad, and let the page be written to the block
just before the tail. The head then rolled onto the tail's block, and the
next enqueue erased blocks which still belonged to the log.
---
 dhara/journal.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 97248cc..e3fe0a9 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -627,7 +627,7 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 /* Make sure the head pointer is on a ready-to-program page. */
 static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 {
-	const dhara_page_t next = next_upage(j, j->head);
+	dhara_page_t next = next_upage(j, j->head);
 	int i;
 
 	/* We can't write if doing so would cause the head pointer to
@@ -651,6 +651,16 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 
 		if (skip_block(j, err) < 0)
 			return -1;
+
+		/* If a block holds only one user page, then writing it
+		 * rolls the head pointer on, so check again from here.
+		 */
+		next = next_upage(j, j->head);
+		if (align_eq(next, j->tail_sync, j->nand->log2_ppb) &&
+		    !align_eq(next, j->head, j->nand->log2_ppb)) {
+			dhara_set_error(err, DHARA_E_JOURNAL_FULL);
+			return -1;
+		}
 	}
 
 	dhara_set_error(err, DHARA_E_TOO_BAD);
-- 
2.43.0

